//@ module textcode::lang
//@ prelude
broadcast use crate::spec::lemma_word_size;

/// a row of the table as codes
pub open spec fn row_codes(l: LangWords) -> (int, int, int) { (l.iso639_1, l.iso639_2t, l.iso639_2b) }
pub open spec fn listed_row(k: int) -> (int, int, int) { row_codes(LANG_LIST_lit()[k]) }

pub open spec fn all_known(t: Seq<LangWords>, iso: Seq<(int, int, int)>, n: nat) -> bool decreases n {
    n == 0 || (has_row(iso, row_codes(t[n - 1]), iso.len()) && all_known(t, iso, (n - 1) as nat))
}
pub open spec fn in_list(t: Seq<LangWords>, r: (int, int, int), n: nat) -> bool decreases n {
    n > 0 && (row_codes(t[n - 1]) == r || in_list(t, r, (n - 1) as nat))
}
pub open spec fn all_listed(t: Seq<LangWords>, iso: Seq<(int, int, int)>, n: nat) -> bool decreases n {
    n == 0 || (in_list(t, iso[n - 1], t.len()) && all_listed(t, iso, (n - 1) as nat))
}
proof fn lemma_all_known(n: nat)
    requires all_known(LANG_LIST_lit(), iso_all(), n), n <= LANG_LIST_lit().len(),
    ensures forall|k: int| 0 <= k < n ==> exists|i: int| 0 <= i < iso_all().len() && #[trigger] iso_all()[i] == #[trigger] listed_row(k),
    decreases n,
{
    if n > 0 { lemma_all_known((n - 1) as nat); lemma_has_row(iso_all(), listed_row(n - 1), iso_all().len()); }
}
proof fn lemma_in_list(r: (int, int, int), n: nat)
    requires in_list(LANG_LIST_lit(), r, n),
    ensures exists|k: int| 0 <= k < n && #[trigger] listed_row(k) == r,
    decreases n,
{
    if n > 0 { if row_codes(LANG_LIST_lit()[n - 1]) == r { assert(listed_row(n - 1) == r); } else { lemma_in_list(r, (n - 1) as nat); } }
}
proof fn lemma_all_listed(n: nat)
    requires all_listed(LANG_LIST_lit(), iso_listed(), n), n <= iso_listed().len(),
    ensures forall|i: int| 0 <= i < n ==> exists|k: int| 0 <= k < LANG_LIST_lit().len() && #[trigger] listed_row(k) == #[trigger] iso_listed()[i],
    decreases n,
{
    if n > 0 { lemma_all_listed((n - 1) as nat); lemma_in_list(iso_listed()[n - 1], LANG_LIST_lit().len()); }
}
/// the table of the crate: only rows of ISO 639, and all that are to be listed
pub proof fn lemma_langs()
    ensures
        forall|k: int| 0 <= k < LANG_LIST_lit().len() ==> exists|i: int| 0 <= i < iso_all().len() && #[trigger] iso_all()[i] == #[trigger] listed_row(k),
        forall|i: int| 0 <= i < iso_listed().len() ==> exists|k: int| 0 <= k < LANG_LIST_lit().len() && #[trigger] listed_row(k) == #[trigger] iso_listed()[i],
        forall|k: int| 0 <= k < LANG_LIST_lit().len() ==> is_two((#[trigger] listed_row(k)).0) && is_three(listed_row(k).1) && is_three(listed_row(k).2),
{
    reveal(LANG_LIST_lit); reveal(iso_listed); reveal(iso_others); reveal(iso_all);
    assert(all_known(LANG_LIST_lit(), iso_all(), LANG_LIST_lit().len())) by (compute_only);
    assert(all_listed(LANG_LIST_lit(), iso_listed(), iso_listed().len())) by (compute_only);
    lemma_tables();
}
/// what the computation above means
proof fn lemma_tables()
    requires
        all_known(LANG_LIST_lit(), iso_all(), LANG_LIST_lit().len()),
        all_listed(LANG_LIST_lit(), iso_listed(), iso_listed().len()),
    ensures
        forall|k: int| 0 <= k < LANG_LIST_lit().len() ==> exists|i: int| 0 <= i < iso_all().len() && #[trigger] iso_all()[i] == #[trigger] listed_row(k),
        forall|i: int| 0 <= i < iso_listed().len() ==> exists|k: int| 0 <= k < LANG_LIST_lit().len() && #[trigger] listed_row(k) == #[trigger] iso_listed()[i],
        forall|k: int| 0 <= k < LANG_LIST_lit().len() ==> is_two((#[trigger] listed_row(k)).0) && is_three(listed_row(k).1) && is_three(listed_row(k).2),
{
    lemma_all_langs();
    lemma_rows_good(iso_all(), iso_all().len());
    lemma_all_known(LANG_LIST_lit().len());
    lemma_all_listed(iso_listed().len());
}
/// what convert answers: a word, or nothing
pub open spec fn answer_is(w: int, r: Option<int>) -> bool {
    match r {
        Some(to) => exists|k: int| 0 <= k < LANG_LIST_lit().len() && (w == (#[trigger] listed_row(k)).0 && to == listed_row(k).2 || (w == listed_row(k).1 || w == listed_row(k).2) && to == listed_row(k).0),
        None => forall|k: int| 0 <= k < LANG_LIST_lit().len() ==> w != (#[trigger] listed_row(k)).0 && w != listed_row(k).1 && w != listed_row(k).2,
    }
}
pub open spec fn word_or(r: Option<&str>) -> Option<int> { match r { Some(x) => Some(word_of(x@)), None => None } }

/// the answers are those of ISO 639
pub proof fn lemma_answers(s: Seq<char>, r: Option<int>)
    requires answer_is(word_of(s), r),
    ensures
        forall|i: int| 0 <= i < iso_listed().len() && word_of(s) == (#[trigger] iso_listed()[i]).0 ==> r == Some(iso_listed()[i].2),
        forall|i: int| 0 <= i < iso_listed().len() && (word_of(s) == (#[trigger] iso_listed()[i]).1 || word_of(s) == iso_listed()[i].2) ==> r == Some(iso_listed()[i].0),
        r is Some ==> exists|i: int| 0 <= i < iso_all().len() && (word_of(s) == (#[trigger] iso_all()[i]).0 || word_of(s) == iso_all()[i].1 || word_of(s) == iso_all()[i].2),
        vstd::utf8::encode_utf8(s).len() != 2 && vstd::utf8::encode_utf8(s).len() != 3 ==> r is None,
{
    lemma_langs();
    lemma_all_langs();
    lemma_rows_good(iso_all(), iso_all().len());
    let w = word_of(s);
    assert forall|i: int| 0 <= i < iso_listed().len() implies #[trigger] iso_listed()[i] == iso_all()[i] by { reveal(iso_all); }
    assert forall|i: int| 0 <= i < iso_listed().len() && (w == (#[trigger] iso_listed()[i]).0 || w == iso_listed()[i].1 || w == iso_listed()[i].2) implies
        r == Some(if w == iso_listed()[i].0 { iso_listed()[i].2 } else { iso_listed()[i].0 }) by {
        let k0 = choose|k: int| 0 <= k < LANG_LIST_lit().len() && #[trigger] listed_row(k) == iso_listed()[i];
        assert(r is Some);
        let to = r->Some_0;
        let k = choose|k: int| 0 <= k < LANG_LIST_lit().len() && (w == (#[trigger] listed_row(k)).0 && to == listed_row(k).2 || (w == listed_row(k).1 || w == listed_row(k).2) && to == listed_row(k).0);
        let j = choose|j: int| 0 <= j < iso_all().len() && #[trigger] iso_all()[j] == listed_row(k);
        assert(iso_all()[i] == iso_listed()[i]);
        assert(i == j);
    }
}
//@ fn convert
    ensures answer_is(word_of(code@), word_or(r)),
//@ at entry
proof { lemma_langs(); }
//@ loop 0
    invariant
        vx_i0 <= LANG_LIST_lit().len(),
        forall|k: int| 0 <= k < vx_i0 ==> word_of(code@) != (#[trigger] listed_row(k)).0,
    decreases LANG_LIST_lit().len() - vx_i0,
//@ at loop 0 entry
proof { assert(LANG_LIST_words(*item) == LANG_LIST_lit()[vx_i0 - 1]); if word_of(code@) == listed_row(vx_i0 - 1).0 { lemma_words(code@, item.iso639_1@); } }
//@ loop 1
    invariant
        vx_i1 <= LANG_LIST_lit().len(),
        forall|k: int| 0 <= k < vx_i1 ==> word_of(code@) != (#[trigger] listed_row(k)).1 && word_of(code@) != listed_row(k).2,
    decreases LANG_LIST_lit().len() - vx_i1,
//@ at loop 1 entry
proof {
    assert(LANG_LIST_words(*item) == LANG_LIST_lit()[vx_i1 - 1]);
    if word_of(code@) == listed_row(vx_i1 - 1).1 { lemma_words(code@, item.iso639_2t@); }
    if word_of(code@) == listed_row(vx_i1 - 1).2 { lemma_words(code@, item.iso639_2b@); }
}
