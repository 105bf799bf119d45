use vstd::utf8::*;
verus! {

pub open spec fn utf8() -> int { 21 }

/// codepages text can have
pub open spec fn cp_ok(cp: int) -> bool { cp == utf8() || table(cp) is Some }

pub open spec fn table_pos(t: Seq<u16>, u: int, k: int) -> int
    decreases t.len() - k,
{
    if k < 0 || k >= t.len() { -1 } else if t[k] == u { k } else { table_pos(t, u, k + 1) }
}

pub proof fn lemma_table_pos(t: Seq<u16>, u: int, k: int)
    requires 0 <= k <= t.len(),
    ensures
        table_pos(t, u, k) == -1 ==> forall|j: int| k <= j < t.len() ==> t[j] != u,
        table_pos(t, u, k) != -1 ==> k <= table_pos(t, u, k) < t.len() && t[table_pos(t, u, k)] == u
            && forall|j: int| k <= j < table_pos(t, u, k) ==> t[j] != u,
    decreases t.len() - k,
{
    if k < t.len() && t[k] != u { lemma_table_pos(t, u, k + 1); }
}

pub proof fn lemma_table_first(t: Seq<u16>, u: int, p: int)
    requires 0 <= p < t.len(), t[p] == u, forall|j: int| 0 <= j < p ==> t[j] != u,
    ensures table_pos(t, u, 0) == p,
{
    lemma_table_pos(t, u, 0);
}

/// substitutes for characters the codepage lacks
pub open spec fn substitute(u: int) -> Seq<u8> {
    if u == 0xAB || u == 0xBB || u == 0x201C || u == 0x201D || u == 0x201F { Seq::empty().push(34u8) }
    else if u == 0x2018 || u == 0x2019 || u == 0x201B { Seq::empty().push(39u8) }
    else if u == 0x2026 { Seq::empty().push(46u8).push(46u8).push(46u8) }
    else { Seq::empty().push(63u8) }
}

pub open spec fn char_bytes(t: Seq<u16>, c: char) -> Seq<u8> {
    let u = c as int;
    if u < 0x80 { Seq::empty().push(u as u8) }
    else if u < 0xA0 { Seq::empty() }
    else if table_pos(t, u, 0) >= 0 { Seq::empty().push((table_pos(t, u, 0) + 0xA0) as u8) }
    else { substitute(u) }
}

/// a Unicode string in a codepage
pub open spec fn text_bytes(t: Seq<u16>, s: Seq<char>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { text_bytes(t, s.drop_last()) + char_bytes(t, s.last()) }
}

pub open spec fn byte_chars(t: Seq<u16>, b: u8) -> Seq<char> {
    if b < 0x80 { Seq::empty().push(b as char) }
    else if b < 0xA0 { Seq::empty() }
    else if t[b - 0xA0] == 0 { Seq::empty().push('?') }
    else { Seq::empty().push((t[b - 0xA0] as u32) as char) }
}

/// text of codes in a codepage
pub open spec fn bytes_text(t: Seq<u16>, d: Seq<u8>) -> Seq<char>
    decreases d.len(),
{
    if d.len() == 0 { Seq::empty() } else { bytes_text(t, d.drop_last()) + byte_chars(t, d.last()) }
}

pub proof fn lemma_bytes_text_push(t: Seq<u16>, d: Seq<u8>, n: int)
    requires 0 <= n < d.len(),
    ensures bytes_text(t, d.subrange(0, n + 1)) == bytes_text(t, d.subrange(0, n)) + byte_chars(t, d[n]),
{
    assert(d.subrange(0, n + 1).drop_last() =~= d.subrange(0, n));
}

pub proof fn lemma_text_bytes_push(t: Seq<u16>, s: Seq<char>, n: int)
    requires 0 <= n < s.len(),
    ensures text_bytes(t, s.subrange(0, n + 1)) == text_bytes(t, s.subrange(0, n)) + char_bytes(t, s[n]),
{
    assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n));
}

/// entries of a table are characters above the controls
pub open spec fn table_sane(t: Seq<u16>) -> bool {
    t.len() == 96 && forall|i: int| 0 <= i < 96 ==> t[i] == 0 || 0xA0 <= #[trigger] t[i] < 0xD800
}

pub open spec fn sane_upto(t: Seq<u16>, n: nat) -> bool
    decreases n,
{
    n == 0 || ((t[n - 1] == 0 || 0xA0 <= t[n - 1] < 0xD800) && sane_upto(t, (n - 1) as nat))
}

pub proof fn lemma_sane_upto(t: Seq<u16>, n: nat, i: int)
    requires sane_upto(t, n), 0 <= i < n,
    ensures t[i] == 0 || 0xA0 <= t[i] < 0xD800,
    decreases n,
{
    if i < n - 1 { lemma_sane_upto(t, (n - 1) as nat, i); }
}

pub proof fn lemma_sane(t: Seq<u16>)
    requires t.len() == 96, sane_upto(t, 96),
    ensures table_sane(t),
{
    assert forall|i: int| 0 <= i < 96 implies t[i] == 0 || 0xA0 <= #[trigger] t[i] < 0xD800 by { lemma_sane_upto(t, 96, i); }
}

pub proof fn lemma_tables_sane(cp: int)
    requires table(cp) is Some,
    ensures table_sane(table(cp)->Some_0),
{
    reveal(table_0); assert(table_0().len() == 96 && sane_upto(table_0(), 96)) by (compute_only);
    reveal(table_1); assert(table_1().len() == 96 && sane_upto(table_1(), 96)) by (compute_only);
    reveal(table_2); assert(table_2().len() == 96 && sane_upto(table_2(), 96)) by (compute_only);
    reveal(table_3); assert(table_3().len() == 96 && sane_upto(table_3(), 96)) by (compute_only);
    reveal(table_4); assert(table_4().len() == 96 && sane_upto(table_4(), 96)) by (compute_only);
    reveal(table_5); assert(table_5().len() == 96 && sane_upto(table_5(), 96)) by (compute_only);
    reveal(table_6); assert(table_6().len() == 96 && sane_upto(table_6(), 96)) by (compute_only);
    reveal(table_7); assert(table_7().len() == 96 && sane_upto(table_7(), 96)) by (compute_only);
    reveal(table_8); assert(table_8().len() == 96 && sane_upto(table_8(), 96)) by (compute_only);
    reveal(table_9); assert(table_9().len() == 96 && sane_upto(table_9(), 96)) by (compute_only);
    reveal(table_10); assert(table_10().len() == 96 && sane_upto(table_10(), 96)) by (compute_only);
    reveal(table_11); assert(table_11().len() == 96 && sane_upto(table_11(), 96)) by (compute_only);
    reveal(table_13); assert(table_13().len() == 96 && sane_upto(table_13(), 96)) by (compute_only);
    reveal(table_14); assert(table_14().len() == 96 && sane_upto(table_14(), 96)) by (compute_only);
    reveal(table_15); assert(table_15().len() == 96 && sane_upto(table_15(), 96)) by (compute_only);
    lemma_sane(table(cp)->Some_0);
}

/// every character of the string has a code in the table
pub open spec fn representable(t: Seq<u16>, s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as int) < 0x80 || ((s[i] as int) >= 0xA0 && table_pos(t, s[i] as int, 0) >= 0)
}

/// Text that a codepage can express is shown as it was given.
pub proof fn lemma_text_back(t: Seq<u16>, s: Seq<char>)
    requires table_sane(t), representable(t, s),
    ensures bytes_text(t, text_bytes(t, s)) == s,
    decreases s.len(),
{
    if s.len() == 0 {
        assert(text_bytes(t, s) =~= Seq::<u8>::empty());
        assert(s =~= Seq::<char>::empty());
    } else {
        let c = s.last();
        assert(s[s.len() - 1] == c);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as int) < 0x80
            || ((s.drop_last()[i] as int) >= 0xA0 && table_pos(t, s.drop_last()[i] as int, 0) >= 0) by {
            assert(s.drop_last()[i] == s[i]);
        }
        lemma_text_back(t, s.drop_last());
        lemma_table_pos(t, c as int, 0);
        let a = text_bytes(t, s.drop_last());
        let b = char_bytes(t, c);
        assert(b.len() == 1);
        assert((a + b).drop_last() =~= a);
        assert((a + b).last() == b[0]);
        if (c as int) < 0x80 {
            assert(byte_chars(t, b[0]) =~= Seq::empty().push(c));
        } else {
            let p = table_pos(t, c as int, 0);
            assert(b[0] == (p + 0xA0) as u8);
            assert(t[p] == c as int);
            assert((t[p] as u32) as char == c);
            assert(byte_chars(t, b[0]) =~= Seq::empty().push(c));
        }
        assert(bytes_text(t, a + b) == bytes_text(t, a) + byte_chars(t, b[0]));
        assert(s.drop_last() + Seq::empty().push(c) =~= s);
    }
}

/// Showing what the text became a second time changes nothing: every shown character is stored again as the same code.
pub proof fn lemma_code_back(t: Seq<u16>, b: u8)
    requires table_sane(t), b >= 0xA0, t[b - 0xA0] != 0,
    ensures
        table_pos(t, t[b - 0xA0] as int, 0) >= 0,
        byte_chars(t, char_bytes(t, (t[b - 0xA0] as u32) as char)[0]) == byte_chars(t, b),
{
    let u = t[b - 0xA0] as int;
    lemma_table_pos(t, u, 0);
}

// wire form

/// codepage identifier in front of the text
pub open spec fn cp_prefix(cp: int) -> Seq<u8> {
    if cp == 0 { Seq::empty() }
    else if cp <= 4 { Seq::empty().push(0x10u8).push(0u8).push(cp as u8) }
    else if cp <= 15 { Seq::empty().push((cp - 4) as u8) }
    else { Seq::empty().push(cp as u8) }
}

pub open spec fn text_wire(cp: int, d: Seq<u8>) -> Seq<u8> {
    if d.len() == 0 { Seq::empty() } else { cp_prefix(cp) + d }
}

pub open spec fn wire_cp(w: Seq<u8>) -> int {
    if w.len() == 0 { 0 }
    else if w[0] == 21 { 21 }
    else if w[0] >= 0x20 { 0 }
    else if 0 < w[0] < 0x10 && table(w[0] + 4) is Some { w[0] + 4 }
    else if w[0] == 0x10 && w.len() >= 3 && w[2] != 0 && table(w[2] as int) is Some { w[2] as int }
    else { 0 }
}

pub open spec fn wire_text(w: Seq<u8>) -> Seq<u8> {
    let n = w.len() as int;
    if n == 0 { Seq::empty() }
    else if w[0] == 21 { w.subrange(1, n) }
    else if w[0] >= 0x20 { w }
    else if 0 < w[0] < 0x10 && table(w[0] + 4) is Some { w.subrange(1, n) }
    else if w[0] == 0x10 && n >= 3 && w[2] != 0 && table(w[2] as int) is Some { w.subrange(3, n) }
    else { Seq::empty().push(63u8) }
}

/// text whose wire form can be told from a codepage identifier
pub open spec fn text_clear(cp: int, d: Seq<u8>) -> bool {
    cp_ok(cp) && (cp == 0 && d.len() > 0 ==> d[0] >= 0x20)
}

pub proof fn lemma_wire_back(cp: int, d: Seq<u8>)
    requires text_clear(cp, d),
    ensures
        wire_text(text_wire(cp, d)) == d,
        d.len() > 0 ==> wire_cp(text_wire(cp, d)) == cp,
{
    let w = text_wire(cp, d);
    let p = cp_prefix(cp);
    if d.len() > 0 {
        assert(w.subrange(p.len() as int, w.len() as int) =~= d);
        if p.len() > 0 { assert(w[0] == p[0]); }
        if p.len() == 3 { assert(w[2] == p[2]); }
        assert(w[p.len() as int] == d[0]);
        if cp == 0 { assert(w =~= d); }
    } else {
        assert(d =~= Seq::<u8>::empty());
    }
}

/// What was decoded from any bytes encodes to a form that decodes to the same text.
pub proof fn lemma_wire_stable(w: Seq<u8>)
    ensures
        text_clear(wire_cp(w), wire_text(w)),
        wire_text(text_wire(wire_cp(w), wire_text(w))) == wire_text(w),
        wire_text(w).len() > 0 ==> wire_cp(text_wire(wire_cp(w), wire_text(w))) == wire_cp(w),
{
    lemma_wire_back(wire_cp(w), wire_text(w));
}

// splitting

pub open spec fn is_cont(b: u8) -> bool { 0x80 <= b < 0xC0 }

/// groups of one leading byte and at most three continuation bytes
pub open spec fn utf8_shape(d: Seq<u8>) -> bool
    decreases d.len(),
{
    d.len() == 0 || (!is_cont(d[0]) && (
        utf8_shape(d.subrange(1, d.len() as int))
        || (d.len() >= 2 && is_cont(d[1]) && utf8_shape(d.subrange(2, d.len() as int)))
        || (d.len() >= 3 && is_cont(d[1]) && is_cont(d[2]) && utf8_shape(d.subrange(3, d.len() as int)))
        || (d.len() >= 4 && is_cont(d[1]) && is_cont(d[2]) && is_cont(d[3]) && utf8_shape(d.subrange(4, d.len() as int)))))
}

/// no four continuation bytes in a row, no continuation byte at the start
pub open spec fn cut_able(d: Seq<u8>) -> bool {
    (d.len() > 0 ==> !is_cont(d[0]))
        && forall|i: int| 3 <= i < d.len() && is_cont(#[trigger] d[i]) && is_cont(d[i - 1]) && is_cont(d[i - 2]) ==> !is_cont(d[i - 3])
}

pub proof fn lemma_shape_cut_able(d: Seq<u8>)
    requires utf8_shape(d),
    ensures cut_able(d),
    decreases d.len(),
{
    if d.len() > 0 {
        let n = d.len() as int;
        let k = if utf8_shape(d.subrange(1, n)) { 1int }
            else if d.len() >= 2 && is_cont(d[1]) && utf8_shape(d.subrange(2, n)) { 2 }
            else if d.len() >= 3 && is_cont(d[1]) && is_cont(d[2]) && utf8_shape(d.subrange(3, n)) { 3 }
            else { 4 };
        let r = d.subrange(k, n);
        lemma_shape_cut_able(r);
        assert forall|i: int| 3 <= i < d.len() && is_cont(#[trigger] d[i]) && is_cont(d[i - 1]) && is_cont(d[i - 2]) implies !is_cont(d[i - 3]) by {
            if i - k >= 3 {
                assert(r[i - k] == d[i]);
                assert(r[i - k - 1] == d[i - 1]);
                assert(r[i - k - 2] == d[i - 2]);
                assert(r[i - k - 3] == d[i - 3]);
            } else if k <= i {
                // the group after the first one starts with a leading byte
                assert(r[0] == d[k]);
                assert(!is_cont(d[k]));
                assert(k == i - 3 || k == i - 2 || k == i - 1 || k == i);
            } else {
                assert(i == 3 && k == 4);
            }
        }
    }
}

/// parts of a text that was cut at leading bytes keep the shape
pub proof fn lemma_shape_cut(d: Seq<u8>, a: int)
    requires utf8_shape(d), 0 <= a <= d.len(), a < d.len() ==> !is_cont(d[a]),
    ensures utf8_shape(d.subrange(0, a)), utf8_shape(d.subrange(a, d.len() as int)),
    decreases d.len(),
{
    let n = d.len() as int;
    if a == 0 {
        assert(d.subrange(0, n) =~= d);
    } else {
        let k = if utf8_shape(d.subrange(1, n)) { 1int }
            else if d.len() >= 2 && is_cont(d[1]) && utf8_shape(d.subrange(2, n)) { 2 }
            else if d.len() >= 3 && is_cont(d[1]) && is_cont(d[2]) && utf8_shape(d.subrange(3, n)) { 3 }
            else { 4 };
        let r = d.subrange(k, n);
        assert(a >= k);
        if a < n { assert(r[a - k] == d[a]); }
        lemma_shape_cut(r, a - k);
        assert(r.subrange(a - k, r.len() as int) =~= d.subrange(a, n));
        let h = d.subrange(0, a);
        assert(h.subrange(k, a) =~= r.subrange(0, a - k));
        assert(h[0] == d[0]);
        if k >= 2 { assert(h[1] == d[1]); }
        if k >= 3 { assert(h[2] == d[2]); }
        if k >= 4 { assert(h[3] == d[3]); }
    }
}

pub open spec fn flat(p: Seq<Seq<u8>>) -> Seq<u8>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + p.last() }
}

pub proof fn lemma_flat_push(p: Seq<Seq<u8>>, x: Seq<u8>)
    ensures flat(p.push(x)) == flat(p) + x,
{
    assert(p.push(x).drop_last() =~= p);
}

/// every part starts with a leading byte
pub open spec fn leads(p: Seq<Seq<u8>>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0 && !is_cont(p[i][0])
}

/// Parts of well-formed text that start with leading bytes are well-formed.
pub proof fn lemma_parts_shape(p: Seq<Seq<u8>>)
    requires utf8_shape(flat(p)), leads(p),
    ensures forall|i: int| 0 <= i < p.len() ==> utf8_shape(#[trigger] p[i]),
    decreases p.len(),
{
    if p.len() > 0 {
        let q = p.drop_last();
        let a = flat(q).len() as int;
        let d = flat(p);
        assert(p[p.len() - 1] == p.last());
        assert(d[a] == p.last()[0]);
        lemma_shape_cut(d, a);
        assert(d.subrange(0, a) =~= flat(q));
        assert(d.subrange(a, d.len() as int) =~= p.last());
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() > 0 && !is_cont(q[i][0]) by { assert(q[i] == p[i]); }
        lemma_parts_shape(q);
        assert forall|i: int| 0 <= i < p.len() implies utf8_shape(#[trigger] p[i]) by {
            if i < q.len() { assert(q[i] == p[i]); }
        }
    }
}

/// truncated text
pub open spec fn text_cut(d: Seq<u8>, n: int) -> Seq<u8> {
    if d.len() <= n { d } else {
        Seq::new(n as nat, |i: int| if i >= n - 3 { 46u8 } else { d[i] })
    }
}

} // verus!
