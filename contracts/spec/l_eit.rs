verus! {

// ---------------------------------------------------------------------------
// EIT: EN 300 468 5.2.4

pub open spec fn starts(e: EntryV) -> int { match e { EntryV::Eit { start, .. } => start as int, _ => 0 } }

/// bytes of the events from i to j
pub open spec fn window(v: TableV, i: int, j: int) -> int { flat(entry_wires(v.entries).subrange(i, j + 1)).len() as int }

/// midnight before the first event
pub open spec fn first_midnight(v: TableV) -> int { starts(v.entries[0]) / 86400 * 86400 }

/// events in order of time, within 64 days, less than eight half sections in any six hours
#[verifier::opaque]
pub open spec fn schedule_fits(v: TableV) -> bool {
    &&& forall|i: int, j: int| 0 <= i <= j < v.entries.len() ==> starts(#[trigger] v.entries[i]) <= starts(#[trigger] v.entries[j])
    &&& starts(v.entries.last()) - first_midnight(v) < 512 * 10800
    &&& forall|i: int, j: int| 0 <= i <= j < v.entries.len() && starts(v.entries[j]) - starts(v.entries[i]) < 21600 ==> #[trigger] window(v, i, j) < 16312
}

pub open spec fn eit_fits(v: TableV) -> bool {
    &&& table_fits(Tab::Eit, v)
    &&& v.ds.len() == 0
    &&& (v.id < 0x50 ==> v.entries.len() <= 256)
    &&& (v.id >= 0x50 && v.entries.len() > 0 ==> schedule_fits(v))
}

/// present/following keeps its table id, a schedule uses the sixteen ids of its kind
pub open spec fn eit_id(v: TableV, id: u8) -> bool { if v.id < 0x50 { id == v.id } else { id / 16 == v.id / 16 } }

pub open spec fn eit_head(v: TableV, id: u8, a: u8, z: u8, sl: u8, lt: u8) -> Seq<u8> {
    head(Tab::Eit, v, Seq::empty(), 0).update(0, id).update(6, a).update(7, z).update(12, sl).update(13, lt)
}

/// a section under construction with these entries
#[verifier::opaque]
pub open spec fn eit_open(v: TableV, s: Seq<u8>, part: Seq<Seq<u8>>) -> bool {
    &&& eit_id(v, s[0])
    &&& s == eit_head(v, s[0], s[6], 0, 0, 0) + flat(part)
    &&& 14 <= s.len() <= 4092
}

/// a section as sent
#[verifier::opaque]
pub open spec fn eit_done(v: TableV, f: Seq<u8>, part: Seq<Seq<u8>>) -> bool {
    &&& eit_id(v, f[0])
    &&& f[6] <= f[7]
    &&& f == finish(eit_head(v, f[0], f[6], f[7], f[12], f[13]) + flat(part))
    &&& 18 <= f.len() <= 4096
}

/// by table id, then by section number
pub open spec fn in_order(a: Seq<u8>, b: Seq<u8>) -> bool { a[0] < b[0] || (a[0] == b[0] && a[6] < b[6]) }

/// the last section number of section i: that of the next section if it has the same table id, its own number otherwise
pub open spec fn eit_last(ids: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, i: int) -> u8 {
    if i < ids.len() - 1 && ids[i + 1][0] == ids[i][0] { secs[i + 1][7] } else { ids[i][6] }
}

/// sections are in order and the last section number is that of the last section of the table id
#[verifier::opaque]
pub open spec fn numbered(secs: Seq<Seq<u8>>) -> bool {
    &&& forall|i: int| 0 <= i < secs.len() - 1 ==> in_order(#[trigger] secs[i], secs[i + 1])
    &&& forall|i: int| 0 <= i < secs.len() ==> (#[trigger] secs[i])[7] == eit_last(secs, secs, i)
}

/// Any two sections differ in table id or section number, sections of one table id agree on the last number.
pub proof fn lemma_numbers(secs: Seq<Seq<u8>>, i: int, j: int)
    requires numbered(secs), 0 <= i <= j < secs.len(),
    ensures i < j ==> in_order(secs[i], secs[j]), secs[i][0] == secs[j][0] ==> secs[i][7] == secs[j][7],
    decreases j - i,
{
    reveal(numbered);
    if i < j {
        lemma_numbers(secs, i + 1, j);
        assert(in_order(secs[i], secs[i + 1]));
        assert(secs[i][7] == eit_last(secs, secs, i));
    }
}

/// The last number is the number of a section with the same table id.
pub proof fn lemma_numbers_last(secs: Seq<Seq<u8>>, i: int) -> (k: int)
    requires numbered(secs), 0 <= i < secs.len(),
    ensures i <= k < secs.len(), secs[k][0] == secs[i][0], secs[k][6] == secs[i][7], secs[k][7] == secs[i][7],
    decreases secs.len() - i,
{
    reveal(numbered);
    assert(secs[i][7] == eit_last(secs, secs, i));
    if i < secs.len() - 1 && secs[i + 1][0] == secs[i][0] { lemma_numbers_last(secs, i + 1) } else { i }
}

/// sections under construction with the entries ws
#[verifier::opaque]
pub open spec fn eit_laid(v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>) -> bool {
    &&& secs.len() == parts.len()
    &&& cat(parts) == ws
    &&& forall|i: int| 0 <= i < secs.len() ==> eit_open(v, #[trigger] secs[i], parts[i])
    &&& forall|i: int| 0 <= i < secs.len() - 1 ==> in_order(#[trigger] secs[i], secs[i + 1])
}

/// What the builder has to return: sections that hold exactly the events, in order.
#[verifier::opaque]
pub open spec fn eit_built(v: TableV, secs: Seq<Seq<u8>>) -> bool {
    &&& (v.entries.len() == 0 ==> secs.len() == 0)
    &&& secs.len() <= v.entries.len() + 9
    &&& exists|parts: Seq<Seq<Seq<u8>>>| #[trigger] cat(parts) == entry_wires(v.entries) && eit_parts(v, secs, parts)
}

#[verifier::opaque]
pub open spec fn eit_parts(v: TableV, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>) -> bool {
    &&& secs.len() == parts.len()
    &&& forall|i: int| 0 <= i < secs.len() ==> eit_done(v, #[trigger] secs[i], parts[i])
    &&& (v.id < 0x50 ==> forall|i: int| 0 <= i < secs.len() ==> (#[trigger] secs[i])[6] == i && secs[i][7] == secs.len() - 1)
    &&& numbered(secs)
}

pub proof fn lemma_eit_none(v: TableV)
    requires v.entries.len() == 0,
    ensures eit_built(v, Seq::empty()),
{
    reveal(eit_built);
    let parts: Seq<Seq<Seq<u8>>> = Seq::empty();
    assert(cat(parts) =~= entry_wires(v.entries));
    assert(eit_parts(v, Seq::empty(), parts)) by { reveal(eit_parts); reveal(numbered); }
}

pub proof fn lemma_eit_start(v: TableV)
    ensures eit_laid(v, Seq::empty(), Seq::empty(), Seq::empty()),
{
    reveal(eit_laid);
    assert(cat(Seq::<Seq<Seq<u8>>>::empty()) =~= Seq::<Seq<u8>>::empty());
}

/// head of a new section
pub proof fn lemma_eit_head(v: TableV, s: Seq<u8>, id: u8, a: u8)
    requires
        eit_id(v, id),
        s == head(Tab::Eit, v, Seq::empty(), 0).update(0, id).update(6, a)
            || (id == v.id && s == head(Tab::Eit, v, Seq::empty(), 0).update(6, a)),
    ensures eit_open(v, s, Seq::empty()), s[0] == id, s[6] == a, s.len() == 14,
{
    reveal(eit_open); reveal(head);
    lemma_head_len(Tab::Eit, v, Seq::empty(), 0);
    assert(flat(Seq::<Seq<u8>>::empty()) =~= Seq::<u8>::empty());
    assert(s =~= eit_head(v, id, a, 0, 0, 0) + Seq::<u8>::empty());
}

/// head of a table with another id
pub proof fn lemma_eit_other(v: TableV, u: TableV)
    requires u.version == v.version, u.ext == v.ext, u.y == v.y, u.z == v.z,
    ensures head(Tab::Eit, u, Seq::empty(), 0) == head(Tab::Eit, v, Seq::empty(), 0).update(0, u.id), head(Tab::Eit, v, Seq::empty(), 0).len() == 14,
{
    reveal(head);
    lemma_head_len(Tab::Eit, v, Seq::empty(), 0);
    assert(head(Tab::Eit, u, Seq::empty(), 0) =~= head(Tab::Eit, v, Seq::empty(), 0).update(0, u.id));
}

pub proof fn lemma_eit_more(v: TableV, s: Seq<u8>, part: Seq<Seq<u8>>, w: Seq<u8>)
    requires eit_open(v, s, part), s.len() + w.len() <= 4092,
    ensures eit_open(v, s + w, part.push(w)), (s + w)[0] == s[0], (s + w)[6] == s[6],
{
    reveal(eit_open);
    lemma_flat_push(part, w);
    assert(s + w =~= eit_head(v, s[0], s[6], 0, 0, 0) + flat(part.push(w)));
}

pub proof fn lemma_eit_len(v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, i: int)
    requires eit_laid(v, ws, secs, parts), 0 <= i < secs.len(),
    ensures 14 <= secs[i].len() <= 4092, parts.len() == secs.len(), eit_open(v, secs[i], parts[i]), eit_id(v, secs[i][0]),
        i < secs.len() - 1 ==> in_order(secs[i], secs[i + 1]),
{
    reveal(eit_laid);
    assert(eit_open(v, secs[i], parts[i]));
    reveal(eit_open);
}

/// a section added
pub proof fn lemma_eit_push(v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, s: Seq<u8>, part: Seq<Seq<u8>>)
    requires eit_laid(v, ws, secs, parts), eit_open(v, s, part), secs.len() > 0 ==> in_order(secs.last(), s),
    ensures eit_laid(v, ws + part, secs.push(s), parts.push(part)),
{
    reveal(eit_laid);
    let (s2, p2) = (secs.push(s), parts.push(part));
    assert(p2.drop_last() =~= parts);
    assert(cat(p2) =~= ws + part);
    assert forall|i: int| 0 <= i < s2.len() implies eit_open(v, #[trigger] s2[i], p2[i]) by {
        if i < secs.len() { assert(s2[i] == secs[i]); assert(p2[i] == parts[i]); }
    }
    assert forall|i: int| 0 <= i < s2.len() - 1 implies in_order(#[trigger] s2[i], s2[i + 1]) by {
        if i < secs.len() - 1 { assert(s2[i] == secs[i] && s2[i + 1] == secs[i + 1]); }
    }
}

/// an event in a section of its own
pub proof fn lemma_eit_event(v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, h: Seq<u8>, w: Seq<u8>)
    requires eit_laid(v, ws, secs, parts), eit_open(v, h, Seq::empty()), h.len() + w.len() <= 4092, secs.len() > 0 ==> in_order(secs.last(), h),
    ensures eit_laid(v, ws.push(w), secs.push(h + w), parts.push(Seq::empty().push(w))),
{
    lemma_eit_more(v, h, Seq::empty(), w);
    lemma_eit_push(v, ws, secs, parts, h + w, Seq::empty().push(w));
    assert(ws + Seq::empty().push(w) =~= ws.push(w));
}

/// a section without events
pub proof fn lemma_eit_empty(v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, h: Seq<u8>)
    requires eit_laid(v, ws, secs, parts), eit_open(v, h, Seq::empty()), secs.len() > 0 ==> in_order(secs.last(), h),
    ensures eit_laid(v, ws, secs.push(h), parts.push(Seq::empty())),
{
    lemma_eit_push(v, ws, secs, parts, h, Seq::empty());
    assert(ws + Seq::<Seq<u8>>::empty() =~= ws);
}

/// an event appended to the last section
pub proof fn lemma_eit_grow(v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, w: Seq<u8>, s2: Seq<Seq<u8>>)
    requires
        eit_laid(v, ws, secs, parts), secs.len() > 0, secs.last().len() + w.len() <= 4092,
        s2 == secs.update(secs.len() - 1, secs.last() + w),
    ensures eit_laid(v, ws.push(w), s2, parts.update(parts.len() - 1, parts.last().push(w))), s2.last() == secs.last() + w, s2.last()[0] == secs.last()[0], s2.last()[6] == secs.last()[6],
{
    reveal(eit_laid);
    let k = secs.len() - 1;
    let p2 = parts.update(k, parts[k].push(w));
    assert(eit_open(v, secs[k], parts[k]));
    lemma_eit_more(v, secs[k], parts[k], w);
    assert(p2.drop_last() =~= parts.drop_last());
    assert(cat(p2) =~= ws.push(w));
    assert forall|i: int| 0 <= i < s2.len() implies eit_open(v, #[trigger] s2[i], p2[i]) by {
        if i < k { assert(s2[i] == secs[i] && p2[i] == parts[i]); }
    }
    assert forall|i: int| 0 <= i < s2.len() - 1 implies in_order(#[trigger] s2[i], s2[i + 1]) by {
        assert(in_order(secs[i], secs[i + 1]));
    }
}

/// numbers and finish of a section
pub proof fn lemma_eit_finish(v: TableV, s: Seq<u8>, part: Seq<Seq<u8>>, z: u8, sl: u8, lt: u8, b: Seq<u8>)
    requires eit_open(v, s, part), s[6] <= z, b == s.update(7, z).update(12, sl).update(13, lt),
    ensures eit_done(v, finish(b), part), finish(b)[0] == s[0], finish(b)[6] == s[6], finish(b)[7] == z, finish(b).len() == s.len() + 4,
{
    reveal(eit_open); reveal(eit_done);
    lemma_head_len(Tab::Eit, v, Seq::empty(), 0);
    lemma_finish(b);
    let f = finish(b);
    assert(f[6] == b[6] && f[7] == b[7] && f[12] == b[12] && f[13] == b[13]);
    assert(b =~= eit_head(v, f[0], f[6], f[7], f[12], f[13]) + flat(part));
}

/// the last i sections are finished
#[verifier::opaque]
pub open spec fn eit_closing(v: TableV, open: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, i: int, secs: Seq<Seq<u8>>) -> bool {
    &&& eit_laid(v, entry_wires(v.entries), open, parts)
    &&& secs.len() == open.len()
    &&& forall|j: int| 0 <= j < secs.len() - i ==> #[trigger] secs[j] == open[j]
    &&& forall|j: int| secs.len() - i <= j < secs.len() ==> eit_done(v, #[trigger] secs[j], parts[j])
    &&& forall|j: int| secs.len() - i <= j < secs.len() ==> (#[trigger] secs[j])[0] == open[j][0] && secs[j][6] == open[j][6]
    &&& forall|j: int| secs.len() - i <= j < secs.len() ==> (#[trigger] secs[j])[7] == eit_last(open, secs, j)
}

pub proof fn lemma_closing_first(v: TableV, open: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>)
    requires eit_laid(v, entry_wires(v.entries), open, parts),
    ensures eit_closing(v, open, parts, 0, open),
{
    reveal(eit_closing);
}

pub proof fn lemma_closing_next(v: TableV, open: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, i: int, secs: Seq<Seq<u8>>)
    requires eit_closing(v, open, parts, i, secs), 0 <= i < secs.len(),
    ensures ({
        let k = secs.len() - 1 - i;
        &&& secs[k] == open[k]
        &&& eit_open(v, open[k], parts[k])
        &&& 14 <= open[k].len() <= 4092
        &&& eit_id(v, open[k][0])
        &&& (i > 0 ==> in_order(open[k], open[k + 1]))
        &&& secs.len() == open.len()
    }),
{
    reveal(eit_closing);
    let k = secs.len() - 1 - i;
    lemma_eit_len(v, entry_wires(v.entries), open, parts, k);
}

pub proof fn lemma_closing_put(v: TableV, open: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, i: int, secs: Seq<Seq<u8>>, s2: Seq<Seq<u8>>, f: Seq<u8>)
    requires
        eit_closing(v, open, parts, i, secs), 0 <= i < secs.len(),
        s2 == secs.update(secs.len() - 1 - i, f),
        eit_done(v, f, parts[secs.len() - 1 - i]),
        f[0] == open[secs.len() - 1 - i][0], f[6] == open[secs.len() - 1 - i][6],
        f[7] == eit_last(open, secs, secs.len() - 1 - i),
    ensures eit_closing(v, open, parts, i + 1, s2),
{
    reveal(eit_closing);
    let k = secs.len() - 1 - i;
    assert forall|j: int| k <= j < s2.len() implies (#[trigger] s2[j])[7] == eit_last(open, s2, j) by {
        if j > k { assert(s2[j] == secs[j]); if j + 1 < s2.len() { assert(s2[j + 1] == secs[j + 1]); } }
        else if j + 1 < s2.len() { assert(s2[j + 1] == secs[j + 1]); }
    }
}

pub proof fn lemma_closing_last(v: TableV, open: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, secs: Seq<Seq<u8>>)
    requires eit_closing(v, open, parts, secs.len() as int, secs), v.id >= 0x50, v.entries.len() > 0, secs.len() <= v.entries.len() + 9,
    ensures eit_built(v, secs),
{
    reveal(eit_closing); reveal(eit_built); reveal(eit_laid);
    assert(numbered(secs)) by {
        reveal(numbered);
        assert forall|i: int| 0 <= i < secs.len() - 1 implies in_order(#[trigger] secs[i], secs[i + 1]) by { assert(in_order(open[i], open[i + 1])); assert(secs[i + 1][0] == open[i + 1][0]); }
        assert forall|i: int| 0 <= i < secs.len() implies (#[trigger] secs[i])[7] == eit_last(secs, secs, i) by {
            assert(secs[i][7] == eit_last(open, secs, i));
            if i < secs.len() - 1 { assert(secs[i + 1][0] == open[i + 1][0]); }
        }
    }
    assert(eit_parts(v, secs, parts)) by { reveal(eit_parts); }
    assert(cat(parts) == entry_wires(v.entries));
}

// ---------------------------------------------------------------------------
// present/following

/// the first i sections
#[verifier::opaque]
pub open spec fn eit_pf(v: TableV, i: int, secs: Seq<Seq<u8>>) -> bool {
    &&& secs.len() == i
    &&& 0 <= i <= v.entries.len()
    &&& forall|j: int| 0 <= j < i ==> eit_done(v, #[trigger] secs[j], Seq::empty().push(entry_wire(v.entries[j])))
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] secs[j])[6] == j && secs[j][7] == v.entries.len() - 1
}

pub proof fn lemma_pf_start(v: TableV)
    ensures eit_pf(v, 0, Seq::empty()),
{
    reveal(eit_pf);
}

pub proof fn lemma_pf_step(v: TableV, i: int, secs: Seq<Seq<u8>>, h: Seq<u8>, n: u8, z: u8, b: Seq<u8>)
    requires
        eit_fits(v), v.id < 0x50, eit_pf(v, i, secs), 0 <= i < v.entries.len(),
        n == i, z == v.entries.len() - 1,
        h == head(Tab::Eit, v, Seq::empty(), 0).update(6, n).update(7, z).update(12, z).update(13, v.id),
        b == h + entry_wire(v.entries[i]),
    ensures eit_pf(v, i + 1, secs.push(finish(b))), 14 <= b.len() <= 4092,
{
    let w = entry_wire(v.entries[i]);
    lemma_table_entry(Tab::Eit, v, i);
    lemma_head_len(Tab::Eit, v, Seq::empty(), 0);
    let h0 = head(Tab::Eit, v, Seq::empty(), 0).update(6, n);
    lemma_eit_head(v, h0, v.id, n);
    lemma_eit_more(v, h0, Seq::empty(), w);
    assert(b =~= (h0 + w).update(7, z).update(12, z).update(13, v.id));
    lemma_eit_finish(v, h0 + w, Seq::empty().push(w), z, z, v.id, b);
    reveal(eit_pf);
    let s2 = secs.push(finish(b));
    assert forall|j: int| 0 <= j < i + 1 implies eit_done(v, #[trigger] s2[j], Seq::empty().push(entry_wire(v.entries[j]))) by { if j < i { assert(s2[j] == secs[j]); } }
    assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] s2[j])[6] == j && s2[j][7] == v.entries.len() - 1 by { if j < i { assert(s2[j] == secs[j]); } }
}

proof fn lemma_singles(ws: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>)
    requires parts.len() == ws.len(), forall|i: int| 0 <= i < ws.len() ==> #[trigger] parts[i] == Seq::empty().push(ws[i]),
    ensures cat(parts) == ws,
    decreases ws.len(),
{
    if ws.len() == 0 { assert(cat(parts) =~= ws); }
    else {
        let p = parts.drop_last();
        let w = ws.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies #[trigger] p[i] == Seq::empty().push(w[i]) by { assert(p[i] == parts[i]); }
        lemma_singles(w, p);
        assert(cat(parts) =~= ws);
    }
}

pub proof fn lemma_pf_end(v: TableV, secs: Seq<Seq<u8>>)
    requires eit_pf(v, v.entries.len() as int, secs), v.entries.len() > 0, v.id < 0x50,
    ensures eit_built(v, secs),
{
    reveal(eit_pf); reveal(eit_built);
    let ws = entry_wires(v.entries);
    let parts: Seq<Seq<Seq<u8>>> = Seq::new(ws.len(), |i: int| Seq::empty().push(ws[i]));
    lemma_singles(ws, parts);
    assert(numbered(secs)) by {
        reveal(numbered);
        assert forall|i: int| 0 <= i < secs.len() implies (#[trigger] secs[i])[0] == v.id by { assert(eit_done(v, secs[i], parts[i])); reveal(eit_done); }
        assert forall|i: int| 0 <= i < secs.len() - 1 implies in_order(#[trigger] secs[i], secs[i + 1]) by { assert(secs[i + 1][6] == i + 1 && secs[i + 1][0] == v.id); }
        assert forall|i: int| 0 <= i < secs.len() implies (#[trigger] secs[i])[7] == eit_last(secs, secs, i) by { if i < secs.len() - 1 { assert(secs[i + 1][0] == v.id && secs[i + 1][7] == secs.len() - 1); } }
    }
    assert(eit_parts(v, secs, parts)) by { reveal(eit_parts); }
}

// ---------------------------------------------------------------------------
// segments of a schedule

/// events s to i are in m sections, the last one with l bytes of events
#[verifier::opaque]
pub open spec fn segment(v: TableV, s: int, i: int, m: int, l: int) -> bool {
    &&& 0 <= s <= i <= v.entries.len()
    &&& 1 <= m <= 8
    &&& 0 <= l
    &&& 2 * flat(entry_wires(v.entries).subrange(s, i)).len() >= (m - 1) * 4078 + l
}

pub proof fn lemma_segment_first(v: TableV, s: int)
    requires 0 <= s <= v.entries.len(),
    ensures segment(v, s, s, 1, 0),
{
    reveal(segment);
}

proof fn lemma_window_next(v: TableV, s: int, i: int)
    requires 0 <= s <= i < v.entries.len(),
    ensures
        flat(entry_wires(v.entries).subrange(s, i + 1)).len() == flat(entry_wires(v.entries).subrange(s, i)).len() + entry_wire(v.entries[i]).len(),
        window(v, s, i) == flat(entry_wires(v.entries).subrange(s, i + 1)).len(),
{
    let ws = entry_wires(v.entries);
    assert(ws.subrange(s, i + 1) =~= ws.subrange(s, i).push(ws[i]));
    lemma_flat_push(ws.subrange(s, i), ws[i]);
}

/// another event in the last section
pub proof fn lemma_segment_grow(v: TableV, s: int, i: int, m: int, l: int)
    requires segment(v, s, i, m, l), i < v.entries.len(),
    ensures segment(v, s, i + 1, m, l + entry_wire(v.entries[i]).len()),
{
    reveal(segment);
    lemma_window_next(v, s, i);
}

/// an event that opens another section
pub proof fn lemma_segment_open(v: TableV, s: int, i: int, m: int, l: int)
    requires
        eit_fits(v), v.id >= 0x50, segment(v, s, i, m, l), i < v.entries.len(),
        starts(v.entries[i]) - starts(v.entries[s]) < 21600,
        l + entry_wire(v.entries[i]).len() >= 4078,
    ensures m < 8, segment(v, s, i + 1, m + 1, entry_wire(v.entries[i]).len() as int),
{
    reveal(segment); reveal(schedule_fits);
    lemma_window_next(v, s, i);
    let w = entry_wire(v.entries[i]).len() as int;
    let t = flat(entry_wires(v.entries).subrange(s, i)).len() as int;
    assert(window(v, s, i) < 16312);
    assert(2 * (t + w) >= m * 4078 + w) by (nonlinear_arith)
        requires 2 * t >= (m - 1) * 4078 + l, l + w >= 4078;
    assert(m < 8) by (nonlinear_arith) requires 2 * (t + w) >= m * 4078 + w, t + w < 16312, w >= 0;
}

/// an event that opens another segment
pub proof fn lemma_segment_next(v: TableV, i: int)
    requires 0 <= i < v.entries.len(),
    ensures segment(v, i, i + 1, 1, entry_wire(v.entries[i]).len() as int),
{
    lemma_segment_first(v, i);
    lemma_segment_grow(v, i, i, 1, 0);
}

pub proof fn lemma_segment_range(v: TableV, s: int, i: int, m: int, l: int)
    requires segment(v, s, i, m, l),
    ensures 1 <= m <= 8, 0 <= s <= i,
{
    reveal(segment);
}

/// starts of the events
pub proof fn lemma_schedule(v: TableV, i: int)
    requires eit_fits(v), v.id >= 0x50, 0 <= i < v.entries.len(),
    ensures
        first_midnight(v) <= starts(v.entries[0]) <= starts(v.entries[i]) <= starts(v.entries.last()),
        starts(v.entries[0]) < first_midnight(v) + 86400,
        starts(v.entries.last()) - first_midnight(v) < 512 * 10800,
        0 <= starts(v.entries[i]) <= 2155593599,
        0 <= first_midnight(v),
{
    reveal(schedule_fits);
    lemma_table_entry(Tab::Eit, v, i);
    reveal(entry_fits);
    lemma_table_entry(Tab::Eit, v, 0);
    assert(starts(v.entries[0]) <= starts(v.entries[i]));
    assert(starts(v.entries[i]) <= starts(v.entries[v.entries.len() - 1]));
}

/// the place in the table of the next segment
pub proof fn lemma_next_base(b: int, m: int)
    requires 0 <= b, 1 <= m <= 8,
    ensures
        (8 * (b % 32) + m - 1) / 8 * 8 == 8 * (b % 32),
        b % 32 == 31 ==> (b + 1) % 32 == 0 && (b + 1) / 32 == b / 32 + 1,
        b % 32 != 31 ==> (b + 1) % 32 == b % 32 + 1 && (b + 1) / 32 == b / 32,
{
}

// ---------------------------------------------------------------------------
// what reading gives

/// Fields of a section as sent.
pub proof fn lemma_eit_bytes(v: TableV, f: Seq<u8>, part: Seq<Seq<u8>>)
    requires table_fits(Tab::Eit, v), eit_done(v, f, part),
    ensures
        f.len() <= 4096, f.len() == 18 + flat(part).len(),
        section_len(f) == f.len(), section_ok(f, f.len() as int),
        eit_id(v, f[0]), f[6] <= f[7],
        be16(f, 3) == v.ext, f[5] == 0xC1 + v.version * 2, be16(f, 8) == v.y, be16(f, 10) == v.z,
        f.subrange(14, f.len() - 4) == flat(part),
{
    reveal(eit_done);
    let h = head(Tab::Eit, v, Seq::empty(), 0);
    let b = eit_head(v, f[0], f[6], f[7], f[12], f[13]) + flat(part);
    lemma_head_len(Tab::Eit, v, Seq::empty(), 0);
    let n = b.len() as int;
    assert(finish(b).len() == n + 4);
    lemma_finish(b);
    lemma_table_head(Tab::Eit, v);
    lemma_eit_fields(v, b, flat(part), f[0], f[6], f[7], f[12], f[13]);
    assert(f[3] == b[3] && f[4] == b[4] && f[5] == b[5] && f[8] == b[8] && f[9] == b[9] && f[10] == b[10] && f[11] == b[11]);
    assert(f.subrange(14, n) =~= b.subrange(14, n));
}

proof fn lemma_eit_fields(v: TableV, b: Seq<u8>, body: Seq<u8>, id: u8, a: u8, z: u8, sl: u8, lt: u8)
    requires v.version < 32, b == eit_head(v, id, a, z, sl, lt) + body,
    ensures b.len() == 14 + body.len(), be16(b, 3) == v.ext, b[5] == 0xC1 + v.version * 2, be16(b, 8) == v.y, be16(b, 10) == v.z, b.subrange(14, b.len() as int) == body,
{
    reveal(head);
    lemma_no_list();
    assert(b.subrange(3, 5) =~= put16(v.ext as int));
    lemma_put_back(v.ext as int, b, 3);
    assert(b.subrange(8, 10) =~= put16(v.y as int));
    lemma_put_back(v.y as int, b, 8);
    assert(b.subrange(10, 12) =~= put16(v.z as int));
    lemma_put_back(v.z as int, b, 10);
    assert(b.subrange(14, b.len() as int) =~= body);
}

proof fn lemma_eit_reads(v: TableV, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, i: int)
    requires
        table_fits(Tab::Eit, v), cat(parts) == entry_wires(v.entries), eit_parts(v, secs, parts), 0 <= i <= secs.len(),
    ensures ({
        let r = reads(Tab::Eit, blank(Tab::Eit), secs.subrange(0, i));
        &&& r.entries == entries_of(Tab::Eit, cat(parts.subrange(0, i)))
        &&& r.ds.len() == 0
        &&& (i > 0 ==> r.version == v.version && r.ext == v.ext && r.y == v.y && r.z == v.z && eit_id(v, r.id))
    }),
    decreases i,
{
    let t = Tab::Eit;
    if i == 0 {
        assert(secs.subrange(0, 0) =~= Seq::<Seq<u8>>::empty());
        assert(parts.subrange(0, 0) =~= Seq::<Seq<Seq<u8>>>::empty());
        assert(entries_of(t, cat(parts.subrange(0, 0))) =~= Seq::<EntryV>::empty());
    } else {
        let k = i - 1;
        lemma_eit_reads(v, secs, parts, k);
        assert(secs.len() == parts.len() && eit_done(v, secs[k], parts[k])) by { reveal(eit_parts); }
        let f = secs[k];
        let a = reads(t, blank(t), secs.subrange(0, k));
        assert(secs.subrange(0, i).drop_last() =~= secs.subrange(0, k));
        assert(secs.subrange(0, i).last() == f);
        lemma_cat_take(parts, k);
        lemma_part_fits(t, v, parts, k);
        lemma_split_flat(tab_group(t), parts[k]);
        lemma_eit_bytes(v, f, parts[k]);
        lemma_table_head(t, v);
        lemma_version_bits(v.version);
        let u = TableV { id: f[0], ..v };
        lemma_read_fields(t, a, f, 0, Seq::empty(), flat(parts[k]), u);
        assert(a.entries + entries_of(t, parts[k]) =~= entries_of(t, cat(parts.subrange(0, i))));
    }
}

/// Reading the sections in order gives every event back, once and in order.
pub proof fn lemma_eit_back(v: TableV, secs: Seq<Seq<u8>>)
    requires eit_fits(v), table_canon(Tab::Eit, v), eit_built(v, secs),
    ensures ({
        let r = reads(Tab::Eit, blank(Tab::Eit), secs);
        &&& r.entries == v.entries
        &&& (v.entries.len() == 0 ==> secs.len() == 0)
        &&& (v.entries.len() > 0 ==> r.version == v.version && r.ext == v.ext && r.y == v.y && r.z == v.z && eit_id(v, r.id))
        &&& (v.entries.len() > 0 && v.id < 0x50 ==> r == v)
    }),
{
    reveal(eit_built);
    let parts = choose|parts: Seq<Seq<Seq<u8>>>| #[trigger] cat(parts) == entry_wires(v.entries) && eit_parts(v, secs, parts);
    let n = secs.len() as int;
    lemma_eit_reads(v, secs, parts, n);
    assert(secs.len() == parts.len()) by { reveal(eit_parts); }
    assert(secs.subrange(0, n) =~= secs);
    assert(parts.subrange(0, n) =~= parts);
    lemma_entries_back(Tab::Eit, v);
    let r = reads(Tab::Eit, blank(Tab::Eit), secs);
    assert(v.entries.len() > 0 ==> n > 0) by {
        if n == 0 { assert(parts =~= Seq::<Seq<Seq<u8>>>::empty()); assert(cat(parts).len() == 0); assert(entry_wires(v.entries).len() == v.entries.len()); }
    }
    if v.entries.len() > 0 && v.id < 0x50 { assert(r.ds =~= v.ds); }
}

/// Every section sent is valid and carries the identifiers.
pub proof fn lemma_eit_sections(v: TableV, secs: Seq<Seq<u8>>, i: int)
    requires eit_fits(v), eit_built(v, secs), 0 <= i < secs.len(),
    ensures
        18 <= secs[i].len() <= 4096, section_len(secs[i]) == secs[i].len(), section_ok(secs[i], secs[i].len() as int),
        eit_id(v, secs[i][0]), secs[i][6] <= secs[i][7], be16(secs[i], 3) == v.ext, be16(secs[i], 8) == v.y, be16(secs[i], 10) == v.z,
        v.id < 0x50 ==> secs[i][6] == i && secs[i][7] == secs.len() - 1,
{
    reveal(eit_built);
    let parts = choose|parts: Seq<Seq<Seq<u8>>>| #[trigger] cat(parts) == entry_wires(v.entries) && eit_parts(v, secs, parts);
    reveal(eit_parts);
    assert(eit_done(v, secs[i], parts[i]));
    lemma_eit_bytes(v, secs[i], parts[i]);
}

/// No two sections share table id and section number, and the last section number is the highest of its table id.
pub proof fn lemma_eit_numbers(v: TableV, secs: Seq<Seq<u8>>, i: int, j: int)
    requires eit_built(v, secs), 0 <= i < j < secs.len(),
    ensures
        secs[i][0] != secs[j][0] || secs[i][6] != secs[j][6],
        secs[i][0] <= secs[j][0],
        secs[i][0] == secs[j][0] ==> secs[i][6] < secs[j][6] && secs[i][7] == secs[j][7] && secs[j][6] <= secs[i][7],
        exists|k: int| 0 <= k < secs.len() && secs[k][0] == secs[i][0] && #[trigger] secs[k][6] == secs[i][7],
{
    reveal(eit_built);
    let parts = choose|parts: Seq<Seq<Seq<u8>>>| #[trigger] cat(parts) == entry_wires(v.entries) && eit_parts(v, secs, parts);
    reveal(eit_parts);
    lemma_numbers(secs, i, j);
    assert(eit_done(v, secs[j], parts[j]));
    reveal(eit_done);
    let k = lemma_numbers_last(secs, i);
    assert(secs[k][6] == secs[i][7]);
}

/// what the table has to send
#[verifier::opaque]
pub open spec fn eit_sent(v: TableV, pid: int, cc: int, cc2: int, d: Seq<u8>, d2: Seq<u8>) -> bool {
    exists|secs: Seq<Seq<u8>>| #[trigger] eit_built(v, secs) && d2 == d + stream(secs, pid, cc) && cc2 == (cc + stream_count(secs)) % 16
}

pub proof fn lemma_eit_count(v: TableV, secs: Seq<Seq<u8>>)
    requires eit_built(v, secs),
    ensures
        secs.len() <= v.entries.len() + 9,
        forall|i: int| 0 <= i < secs.len() ==> 18 <= (#[trigger] secs[i]).len() <= 4096,
{
    reveal(eit_built); reveal(eit_parts);
    let parts = choose|parts: Seq<Seq<Seq<u8>>>| #[trigger] cat(parts) == entry_wires(v.entries) && eit_parts(v, secs, parts);
    assert forall|i: int| 0 <= i < secs.len() implies 18 <= (#[trigger] secs[i]).len() <= 4096 by {
        assert(eit_done(v, secs[i], parts[i]));
        reveal(eit_done);
    }
}

pub proof fn lemma_eit_sent(v: TableV, secs: Seq<Seq<u8>>, pid: int, cc: int, cc2: int, d: Seq<u8>, d2: Seq<u8>)
    requires eit_built(v, secs), flow(d, d2, secs, secs.len() as int, pid, cc, cc2),
    ensures eit_sent(v, pid, cc, cc2, d, d2),
{
    reveal(flow);
    reveal(eit_sent);
    lemma_stream_ends(secs, pid, cc);
}

} // verus!
