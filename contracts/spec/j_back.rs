verus! {

// ---------------------------------------------------------------------------
// what a generated section holds and what reading the sections gives

/// bytes of the section as sent
#[verifier::opaque]
pub open spec fn done(t: Tab, v: TableV, i: int, last: int, part: Seq<Seq<u8>>) -> Seq<u8> { finish(number(section(t, v, i, part, true), i, last)) }

/// descriptors of the table in section i
pub open spec fn own_list(v: TableV, i: int) -> Seq<DescV> { if i == 0 { v.ds } else { Seq::empty() } }

/// bytes of the descriptors of the table in section i
pub open spec fn own_len(t: Tab, v: TableV, i: int) -> int { if loop_at(t) == 0 { 0 } else { list_wire(own_list(v, i)).len() as int } }

proof fn lemma_own_list(t: Tab, v: TableV, i: int)
    requires table_fits(t, v),
    ensures
        list_fits(own_list(v, i)),
        own_len(t, v, i) <= 4095 - head_len(t),
        list_canon(v.ds) ==> list_canon(own_list(v, i)),
        table_canon(t, v) ==> list_of(list_wire(own_list(v, i))) == own_list(v, i),
{
    reveal(table_fits);
    lemma_no_list();
    if table_canon(t, v) { lemma_list_back(own_list(v, i)); }
}

/// fields of an unfinished section
proof fn lemma_open_bytes(t: Tab, v: TableV, i: int, part: Seq<Seq<u8>>, s: Seq<u8>)
    requires table_fits(t, v), s == section(t, v, i, part, true), s.len() <= limit(t),
    ensures
        s.len() == head_len(t) + own_len(t, v, i) + flat(part).len(),
        s[0] == v.id,
        be16(s, 3) == v.ext,
        s[5] == 0xC1 + v.version * 2,
        t == Tab::Pmt ==> be16(s, 8) == 0xE000 + v.y,
        t == Tab::Sdt || t == Tab::Eit ==> be16(s, 8) == v.y,
        t == Tab::Eit ==> be16(s, 10) == v.z,
        t == Tab::Nit ==> be16(s, 10 + own_len(t, v, i)) == 0xF000 + flat(part).len(),
        loop_at(t) != 0 ==> be16(s, loop_at(t)) == 0xF000 + own_len(t, v, i),
        loop_at(t) != 0 ==> s.subrange(loop_at(t) + 2, loop_at(t) + 2 + own_len(t, v, i)) == list_wire(own_list(v, i)),
        s.subrange(head_len(t) + own_len(t, v, i), s.len() as int) == flat(part),
{
    let ds = own_list(v, i);
    let m = loop_field(t, part, true);
    let h = head(t, v, ds, m);
    let n = own_len(t, v, i);
    lemma_own_list(t, v, i);
    lemma_head_len(t, v, ds, m);
    reveal(head); reveal(table_fits);
    assert(s.subrange(3, 5) =~= put16(v.ext as int));
    lemma_put_back(v.ext as int, s, 3);
    assert(s.subrange(head_len(t) + n, s.len() as int) =~= flat(part));
    match t {
        Tab::Pat => {}
        Tab::Pmt => {
            assert(s.subrange(8, 10) =~= put16(0xE000 + v.y));
            lemma_put_back(0xE000 + v.y, s, 8);
            assert(s.subrange(10, 12) =~= put16(0xF000 + n));
            lemma_put_back(0xF000 + n, s, 10);
            assert(s.subrange(12, 12 + n) =~= list_wire(ds));
        }
        Tab::Nit => {
            assert(s.subrange(8, 10) =~= put16(0xF000 + n));
            lemma_put_back(0xF000 + n, s, 8);
            assert(s.subrange(10, 10 + n) =~= list_wire(ds));
            assert(s.subrange(10 + n, 12 + n) =~= put16(m));
            lemma_put_back(m, s, 10 + n);
        }
        Tab::Sdt => {
            assert(s.subrange(8, 10) =~= put16(v.y as int));
            lemma_put_back(v.y as int, s, 8);
        }
        Tab::Eit => {
            assert(s.subrange(8, 10) =~= put16(v.y as int));
            lemma_put_back(v.y as int, s, 8);
            assert(s.subrange(10, 12) =~= put16(v.z as int));
            lemma_put_back(v.z as int, s, 10);
        }
    }
}

/// numbering and finishing change the numbers and the length only
proof fn lemma_finished(s: Seq<u8>, i: int, last: int, f: Seq<u8>)
    requires 8 <= s.len() <= 4092, f == finish(number(s, i, last)),
    ensures
        f.len() == s.len() + 4,
        section_len(f) == f.len(),
        section_ok(f, f.len() as int),
        f[0] == s[0],
        f[1] as int / 16 == s[1] as int / 16,
        f[6] == i % 256,
        f[7] == last % 256,
        forall|j: int| 3 <= j < s.len() && j != 6 && j != 7 ==> f[j] == s[j],
{
    let b = number(s, i, last);
    lemma_finish(b);
    assert forall|j: int| 3 <= j < s.len() && j != 6 && j != 7 implies f[j] == s[j] by { assert(f[j] == b[j]); }
    assert(f[6] == b[6] && f[7] == b[7]);
}

/// Section i of a table: length, identifiers, numbers, loop lengths and checksum are right, the entries are exactly its part.
pub proof fn lemma_done_bytes(t: Tab, v: TableV, i: int, last: int, part: Seq<Seq<u8>>)
    requires table_fits(t, v), section(t, v, i, part, true).len() <= limit(t),
    ensures ({
        let f = done(t, v, i, last, part);
        let n = own_len(t, v, i);
        &&& f.len() == head_len(t) + n + flat(part).len() + 4
        &&& f.len() <= limit(t) + 4
        &&& section_len(f) == f.len()
        &&& section_ok(f, f.len() as int)
        &&& f[0] == v.id
        &&& be16(f, 3) == v.ext
        &&& f[5] == 0xC1 + v.version * 2
        &&& f[6] == i % 256
        &&& f[7] == last % 256
        &&& (t == Tab::Pmt ==> be16(f, 8) == 0xE000 + v.y)
        &&& (t == Tab::Sdt || t == Tab::Eit ==> be16(f, 8) == v.y)
        &&& (t == Tab::Eit ==> be16(f, 10) == v.z)
        &&& (t == Tab::Nit ==> be16(f, 10 + n) == 0xF000 + flat(part).len())
        &&& (loop_at(t) != 0 ==> be16(f, loop_at(t)) == 0xF000 + n && f.subrange(loop_at(t) + 2, loop_at(t) + 2 + n) == list_wire(own_list(v, i)))
        &&& f.subrange(head_len(t) + n, f.len() - 4) == flat(part)
    }),
{
    reveal(done);
    let s = section(t, v, i, part, true);
    let f = done(t, v, i, last, part);
    let n = own_len(t, v, i);
    lemma_open_bytes(t, v, i, part, s);
    lemma_finished(s, i, last, f);
    if loop_at(t) != 0 {
        assert(f.subrange(loop_at(t) + 2, loop_at(t) + 2 + n) =~= s.subrange(loop_at(t) + 2, loop_at(t) + 2 + n));
    }
    assert(f.subrange(head_len(t) + n, f.len() - 4) =~= s.subrange(head_len(t) + n, s.len() as int));
}

pub proof fn lemma_version_bits(x: u8)
    requires x < 32,
    ensures (0xC1 + x * 2) / 2 % 32 == x,
{
}

/// reading a section with these bytes
pub proof fn lemma_read_fields(t: Tab, a: TableV, f: Seq<u8>, n: int, l: Seq<u8>, body: Seq<u8>, v: TableV)
    requires
        f.len() == head_len(t) + n + body.len() + 4,
        0 <= n < 4096,
        section_ok(f, f.len() as int),
        id_ok(t, v.id), v.version < 32, t == Tab::Pmt ==> v.y < 8192,
        f[0] == v.id,
        be16(f, 3) == v.ext,
        f[5] as int / 2 % 32 == v.version,
        t == Tab::Pmt ==> be16(f, 8) == 0xE000 + v.y,
        t == Tab::Sdt || t == Tab::Eit ==> be16(f, 8) == v.y,
        t == Tab::Eit ==> be16(f, 10) == v.z,
        loop_at(t) == 0 ==> n == 0,
        loop_at(t) != 0 ==> be16(f, loop_at(t)) == 0xF000 + n && f.subrange(loop_at(t) + 2, loop_at(t) + 2 + n) == l,
        f.subrange(head_len(t) + n, f.len() - 4) == body,
        a.y == v.y || t == Tab::Pmt || t == Tab::Sdt || t == Tab::Eit,
        a.z == v.z || t == Tab::Eit,
    ensures
        read(t, a, f, f.len() as int)
            == (TableV { ds: if loop_at(t) == 0 { a.ds } else { a.ds + list_of(l) }, entries: a.entries + entries_of(t, split(tab_group(t), body)), ..v }),
{
    hide(split); hide(list_of);
    assert(loop_len(t, f) == n);
    assert(accepts(t, f, f.len() as int));
}

/// reading section i
proof fn lemma_done_read(t: Tab, v: TableV, i: int, last: int, part: Seq<Seq<u8>>, a: TableV)
    requires
        table_fits(t, v), table_canon(t, v),
        section(t, v, i, part, true).len() <= limit(t),
        gfits(tab_group(t), part),
        a.y == v.y || t == Tab::Pmt || t == Tab::Sdt || t == Tab::Eit,
        a.z == v.z || t == Tab::Eit,
    ensures
        read(t, a, done(t, v, i, last, part), done(t, v, i, last, part).len() as int)
            == (TableV { ds: if loop_at(t) == 0 { a.ds } else { a.ds + own_list(v, i) }, entries: a.entries + entries_of(t, part), ..v }),
{
    let f = done(t, v, i, last, part);
    lemma_done_bytes(t, v, i, last, part);
    lemma_own_list(t, v, i);
    lemma_split_flat(tab_group(t), part);
    let n = own_len(t, v, i);
    lemma_table_head(t, v);
    lemma_version_bits(v.version);
    lemma_read_fields(t, a, f, n, list_wire(own_list(v, i)), flat(part), v);
}

pub proof fn lemma_cat_take(p: Seq<Seq<Seq<u8>>>, i: int)
    requires 0 <= i < p.len(),
    ensures cat(p.subrange(0, i + 1)) == cat(p.subrange(0, i)) + p[i],
{
    assert(p.subrange(0, i + 1).drop_last() =~= p.subrange(0, i));
}

/// every element of a part is an element of the whole
proof fn lemma_cat_has(p: Seq<Seq<Seq<u8>>>, i: int, j: int)
    requires 0 <= i < p.len(), 0 <= j < p[i].len(),
    ensures exists|k: int| 0 <= k < cat(p).len() && #[trigger] cat(p)[k] == p[i][j],
    decreases p.len(),
{
    let q = p.drop_last();
    if i == p.len() - 1 {
        let k = cat(q).len() + j;
        assert(cat(p)[k] == p[i][j]);
    } else {
        lemma_cat_has(q, i, j);
        let k = choose|k: int| 0 <= k < cat(q).len() && #[trigger] cat(q)[k] == q[i][j];
        assert(cat(p)[k] == p[i][j]);
    }
}

/// entries of one section
pub proof fn lemma_part_fits(t: Tab, v: TableV, parts: Seq<Seq<Seq<u8>>>, i: int)
    requires table_fits(t, v), cat(parts) == entry_wires(v.entries), 0 <= i < parts.len(),
    ensures gfits(tab_group(t), parts[i]),
{
    assert forall|j: int| 0 <= j < parts[i].len() implies gfit(tab_group(t), #[trigger] parts[i][j]) by {
        lemma_cat_has(parts, i, j);
        let k = choose|k: int| 0 <= k < cat(parts).len() && #[trigger] cat(parts)[k] == parts[i][j];
        assert(entry_wires(v.entries)[k] == entry_wire(v.entries[k]));
        lemma_table_entry(t, v, k);
        lemma_entry_back(v.entries[k]);
    }
}

pub proof fn lemma_entries_back(t: Tab, v: TableV)
    requires table_fits(t, v), table_canon(t, v),
    ensures entries_of(t, entry_wires(v.entries)) == v.entries,
{
    assert(entries_of(t, entry_wires(v.entries)) =~= v.entries) by {
        assert forall|i: int| 0 <= i < v.entries.len() implies entries_of(t, entry_wires(v.entries))[i] == v.entries[i] by {
            lemma_table_entry(t, v, i);
            assert(entry_canon(v.entries[i]));
            lemma_entry_back(v.entries[i]);
        }
    }
}

proof fn lemma_reads_take(t: Tab, v: TableV, a: TableV, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, i: int)
    requires
        table_fits(t, v), table_canon(t, v),
        laid(t, v, entry_wires(v.entries), secs, parts, true),
        0 <= i <= secs.len(),
        a.y == 0, a.z == 0, a.ds.len() == 0, a.entries.len() == 0,
    ensures
        emitted(secs).len() == secs.len(),
        i > 0 ==> reads(t, a, emitted(secs).subrange(0, i)) == (TableV { entries: entries_of(t, cat(parts.subrange(0, i))), ..v }),
    decreases i,
{
    reveal(emitted);
    let em = emitted(secs);
    if i > 0 {
        let k = i - 1;
        lemma_reads_take(t, v, a, secs, parts, k);
        let pre = em.subrange(0, k);
        let all = em.subrange(0, i);
        assert(all.drop_last() =~= pre);
        assert(all.last() == em[k]);
        let last = secs.len() - 1;
        assert(secs[k] == section(t, v, k, parts[k], true) && secs[k].len() <= limit(t)) by { reveal(laid); }
        assert(cat(parts) == entry_wires(v.entries) && secs.len() == parts.len()) by { reveal(laid); }
        lemma_cat_take(parts, k);
        reveal(done);
        assert(em[k] == done(t, v, k, last, parts[k]));
        lemma_part_fits(t, v, parts, k);
        let b = reads(t, a, pre);
        if k == 0 { assert(pre =~= Seq::<Seq<u8>>::empty()); assert(cat(parts.subrange(0, 0)) =~= Seq::<Seq<u8>>::empty()); }
        lemma_done_read(t, v, k, last, parts[k], b);
        let e0 = entries_of(t, cat(parts.subrange(0, k)));
        assert(e0 + entries_of(t, parts[k]) =~= entries_of(t, cat(parts.subrange(0, i))));
        assert(b.entries =~= e0);
        assert(b.ds + own_list(v, k) =~= v.ds || loop_at(t) == 0);
        assert(loop_at(t) == 0 ==> v.ds =~= b.ds);
        let r = TableV { ds: if loop_at(t) == 0 { b.ds } else { b.ds + own_list(v, k) }, entries: b.entries + entries_of(t, parts[k]), ..v };
        assert(reads(t, a, all) == r);
        assert(r.ds =~= v.ds);
    }
}

/// Reading the sections of a table in order gives the table back.
pub proof fn lemma_table_back(t: Tab, v: TableV, secs: Seq<Seq<u8>>)
    requires table_fits(t, v), table_canon(t, v), built(t, v, secs),
    ensures reads(t, blank(t), emitted(secs)) == v,
{
    reveal(built);
    let parts = choose|parts: Seq<Seq<Seq<u8>>>| #[trigger] laid(t, v, entry_wires(v.entries), secs, parts, true);
    let n = secs.len() as int;
    lemma_laid_len(t, v, entry_wires(v.entries), secs, parts, true);
    lemma_reads_take(t, v, blank(t), secs, parts, n);
    assert(emitted(secs).subrange(0, n) =~= emitted(secs));
    assert(parts.subrange(0, n) =~= parts);
    assert(cat(parts) == entry_wires(v.entries)) by { reveal(laid); }
    lemma_entries_back(t, v);
}

/// Every section sent: length, identifiers, numbers, checksum; the parts together are the entries.
pub proof fn lemma_table_sections(t: Tab, v: TableV, secs: Seq<Seq<u8>>)
    requires table_fits(t, v), built(t, v, secs),
    ensures
        emitted(secs).len() == secs.len(),
        exists|parts: Seq<Seq<Seq<u8>>>| #[trigger] cat(parts) == entry_wires(v.entries) && parts.len() == secs.len()
            && (forall|i: int| 0 <= i < secs.len() ==> (#[trigger] emitted(secs)[i]) == done(t, v, i, secs.len() - 1, parts[i])
                && emitted(secs)[i].len() <= limit(t) + 4
                && section(t, v, i, parts[i], true).len() <= limit(t)),
{
    reveal(built); reveal(laid); reveal(emitted); reveal(done);
    let parts = choose|parts: Seq<Seq<Seq<u8>>>| #[trigger] laid(t, v, entry_wires(v.entries), secs, parts, true);
    assert forall|i: int| 0 <= i < secs.len() implies (#[trigger] emitted(secs)[i]) == done(t, v, i, secs.len() - 1, parts[i])
        && emitted(secs)[i].len() <= limit(t) + 4 && section(t, v, i, parts[i], true).len() <= limit(t) by {
        assert(secs[i] == section(t, v, i, parts[i], true) && secs[i].len() <= limit(t));
        lemma_done_bytes(t, v, i, secs.len() - 1, parts[i]);
    }
    assert(cat(parts) == entry_wires(v.entries));
}

} // verus!
