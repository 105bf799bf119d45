use crate::es::StreamType;

verus! {

// ---------------------------------------------------------------------------
// entries of the tables: ISO 13818-1 2.4.4.3, 2.4.4.8; EN 300 468 5.2.1, 5.2.3, 5.2.4

/// PAT, PMT, NIT, SDT and EIT
#[derive(PartialEq, Eq)]
pub enum Tab { Pat, Pmt, Nit, Sdt, Eit }

pub enum EntryV {
    Pat { pnr: u16, pid: u16 },
    Pmt { kind: u8, pid: u16, ds: Seq<DescV> },
    Nit { tsid: u16, onid: u16, ds: Seq<DescV> },
    Sdt { pnr: u16, schedule: u8, present: u8, status: u8, ca: u8, ds: Seq<DescV> },
    Eit { id: u16, start: u64, duration: u32, status: u8, ca: u8, ds: Seq<DescV> },
}

pub open spec fn entry_tab(e: EntryV) -> Tab {
    match e {
        EntryV::Pat { .. } => Tab::Pat,
        EntryV::Pmt { .. } => Tab::Pmt,
        EntryV::Nit { .. } => Tab::Nit,
        EntryV::Sdt { .. } => Tab::Sdt,
        EntryV::Eit { .. } => Tab::Eit,
    }
}

/// grouping of the entries of a table
pub open spec fn tab_group(t: Tab) -> int {
    match t { Tab::Pat => 4, Tab::Pmt => g_es(), Tab::Nit => g_ts(), Tab::Sdt => g_es(), Tab::Eit => g_event() }
}

/// hours in two digits, then minutes and seconds
pub open spec fn duration_enc(d: int) -> int { bcd_enc8(d / 3600) * 65536 + time_enc6(d % 3600) }

/// status, scrambling and a loop length in 16 bits
pub open spec fn status_enc(status: u8, ca: u8, n: int) -> int { status * 8192 + ca * 4096 + n }

/// header of an entry, in front of its descriptors
pub open spec fn entry_head(e: EntryV) -> Seq<u8> {
    match e {
        EntryV::Pat { pnr, pid } => put16(pnr as int) + put16(0xE000 + pid),
        EntryV::Pmt { kind, pid, ds } => Seq::empty().push(kind) + put16(0xE000 + pid) + put16(0xF000 + list_wire(ds).len() as int),
        EntryV::Nit { tsid, onid, ds } => put16(tsid as int) + put16(onid as int) + put16(0xF000 + list_wire(ds).len() as int),
        EntryV::Sdt { pnr, schedule, present, status, ca, ds } =>
            put16(pnr as int).push((0xFC + schedule * 2 + present) as u8) + put16(status_enc(status, ca, list_wire(ds).len() as int)),
        EntryV::Eit { id, start, duration, status, ca, ds } =>
            put16(id as int) + put16(mjd_enc(start as int)) + put24(time_enc6(start as int)) + put24(duration_enc(duration as int))
                + put16(status_enc(status, ca, list_wire(ds).len() as int)),
    }
}

pub open spec fn entry_list(e: EntryV) -> Seq<DescV> {
    match e {
        EntryV::Pat { .. } => Seq::empty(),
        EntryV::Pmt { ds, .. } => ds,
        EntryV::Nit { ds, .. } => ds,
        EntryV::Sdt { ds, .. } => ds,
        EntryV::Eit { ds, .. } => ds,
    }
}

#[verifier::opaque]
pub open spec fn entry_wire(e: EntryV) -> Seq<u8> { entry_head(e) + list_wire(entry_list(e)) }

/// fields in the range of their bits
#[verifier::opaque]
pub open spec fn entry_fits(e: EntryV) -> bool {
    &&& list_fits(entry_list(e)) && list_wire(entry_list(e)).len() < 4096
    &&& match e {
        EntryV::Pat { pid, .. } => pid < 8192,
        EntryV::Pmt { pid, .. } => pid < 8192,
        EntryV::Nit { .. } => true,
        EntryV::Sdt { schedule, present, status, ca, .. } => schedule < 2 && present < 2 && status < 8 && ca < 2,
        EntryV::Eit { start, duration, status, ca, .. } => start <= 2155593599 && duration < 360000 && status < 8 && ca < 2,
    }
}

/// descriptors whose text has only one form
pub open spec fn entry_canon(e: EntryV) -> bool { list_canon(entry_list(e)) }

/// the entry in the bytes of a group
pub open spec fn entry_of(t: Tab, g: Seq<u8>) -> EntryV {
    match t {
        Tab::Pat => EntryV::Pat { pnr: be16(g, 0) as u16, pid: (be16(g, 2) % 8192) as u16 },
        Tab::Pmt => EntryV::Pmt { kind: g[0], pid: (be16(g, 1) % 8192) as u16, ds: list_of(from(g, 5)) },
        Tab::Nit => EntryV::Nit { tsid: be16(g, 0) as u16, onid: be16(g, 2) as u16, ds: list_of(from(g, 6)) },
        Tab::Sdt => EntryV::Sdt {
            pnr: be16(g, 0) as u16, schedule: (g[2] / 2 % 2) as u8, present: (g[2] % 2) as u8,
            status: (g[3] / 32) as u8, ca: (g[3] / 16 % 2) as u8, ds: list_of(from(g, 5)),
        },
        Tab::Eit => EntryV::Eit {
            id: be16(g, 0) as u16, start: (mjd_dec(be16(g, 2)) + time_dec6(be24(g, 4))) as u64, duration: time_dec6(be24(g, 7)) as u32,
            status: (g[10] / 32) as u8, ca: (g[10] / 16 % 2) as u8, ds: list_of(from(g, 12)),
        },
    }
}

pub open spec fn entry_wires(s: Seq<EntryV>) -> Seq<Seq<u8>> { s.map_values(|e: EntryV| entry_wire(e)) }
pub open spec fn entries_of(t: Tab, s: Seq<Seq<u8>>) -> Seq<EntryV> { s.map_values(|g: Seq<u8>| entry_of(t, g)) }

proof fn lemma_status(status: u8, ca: u8, n: int)
    requires status < 8, ca < 2, 0 <= n < 4096,
    ensures ({
        let v = status_enc(status, ca, n);
        0 <= v < 65536 && v % 4096 == n && v / 256 / 32 == status && v / 256 / 16 % 2 == ca
    }),
{
}

proof fn lemma_small(h: int)
    requires 0 <= h < 100,
    ensures bcd_enc8(h) == bcd_enc2(h),
{
    reveal(bcd_enc4); reveal(bcd_enc8);
    assert(h / 10000 == 0 && h % 10000 == h && h / 100 == 0 && h % 100 == h);
    assert(bcd_enc2(0) == 0);
}

/// less than an hour
proof fn lemma_below_hour(r: int)
    requires 0 <= r < 3600,
    ensures time_enc6(r) == bcd_enc2(r / 60) * 256 + bcd_enc2(r % 60), 0 <= bcd_enc2(r / 60) < 160, 0 <= bcd_enc2(r % 60) < 160,
{
    reveal(time_enc6);
    assert(r / 3600 % 24 == 0);
    assert(bcd_enc2(0) == 0);
    assert(r / 60 % 60 == r / 60);
    lemma_bcd2(r / 60);
    lemma_bcd2(r % 60);
}

pub proof fn lemma_duration(d: int)
    requires 0 <= d < 360000,
    ensures
        0 <= duration_enc(d) < 0x100_0000, time_dec6(duration_enc(d)) == d,
        0 <= bcd_enc8(d / 3600) < 256, 0 <= time_enc6(d % 3600) < 65536,
{
    let h = d / 3600;
    let r = d % 3600;
    lemma_bcd2(h);
    lemma_bcd2(r / 60);
    lemma_bcd2(r % 60);
    lemma_small(h);
    lemma_below_hour(r);
    let (a, b, c) = (bcd_enc2(h), bcd_enc2(r / 60), bcd_enc2(r % 60));
    lemma_bytes3(a, b, c);
    let e = a * 65536 + b * 256 + c;
    assert(duration_enc(d) == e);
    assert(time_dec6(e) == h * 3600 + r / 60 * 60 + r % 60) by { reveal(time_dec6); }
}

proof fn lemma_pat_entry(e: EntryV)
    requires entry_fits(e), e is Pat,
    ensures
        gfit(tab_group(entry_tab(e)), entry_wire(e)),
        entry_canon(e) ==> entry_of(entry_tab(e), entry_wire(e)) == e,
        entry_wire(e).len() == entry_head(e).len() + list_wire(entry_list(e)).len(),
        entry_head(e).len() == ghead(tab_group(entry_tab(e))),
{
    hide(list_wire); hide(list_of);
    reveal(entry_wire); reveal(entry_fits);
    let g = entry_wire(e);
    let ds = entry_list(e);
    let n = list_wire(ds).len() as int;
    if entry_canon(e) { lemma_list_back(ds); }
    if let EntryV::Pat { pnr, pid } = e {
        assert(list_wire(ds) =~= Seq::<u8>::empty()) by { reveal(list_wire); }
        assert(g.subrange(0, 2) =~= put16(pnr as int));
        lemma_put_back(pnr as int, g, 0);
        assert(g.subrange(2, 4) =~= put16(0xE000 + pid));
        lemma_put_back(0xE000 + pid, g, 2);
    }
}

proof fn lemma_pmt_entry(e: EntryV)
    requires entry_fits(e), e is Pmt,
    ensures
        gfit(tab_group(entry_tab(e)), entry_wire(e)),
        entry_canon(e) ==> entry_of(entry_tab(e), entry_wire(e)) == e,
        entry_wire(e).len() == entry_head(e).len() + list_wire(entry_list(e)).len(),
        entry_head(e).len() == ghead(tab_group(entry_tab(e))),
{
    hide(list_wire); hide(list_of);
    reveal(entry_wire); reveal(entry_fits);
    let g = entry_wire(e);
    let ds = entry_list(e);
    let n = list_wire(ds).len() as int;
    if entry_canon(e) { lemma_list_back(ds); }
    if let EntryV::Pmt { kind, pid, ds } = e {
        assert(g[0] == kind);
        assert(g.subrange(1, 3) =~= put16(0xE000 + pid));
        lemma_put_back(0xE000 + pid, g, 1);
        assert(g.subrange(3, 5) =~= put16(0xF000 + n));
        lemma_put_back(0xF000 + n, g, 3);
        assert(from(g, 5) =~= list_wire(ds));
    }
}

proof fn lemma_nit_entry(e: EntryV)
    requires entry_fits(e), e is Nit,
    ensures
        gfit(tab_group(entry_tab(e)), entry_wire(e)),
        entry_canon(e) ==> entry_of(entry_tab(e), entry_wire(e)) == e,
        entry_wire(e).len() == entry_head(e).len() + list_wire(entry_list(e)).len(),
        entry_head(e).len() == ghead(tab_group(entry_tab(e))),
{
    hide(list_wire); hide(list_of);
    reveal(entry_wire); reveal(entry_fits);
    let g = entry_wire(e);
    let ds = entry_list(e);
    let n = list_wire(ds).len() as int;
    if entry_canon(e) { lemma_list_back(ds); }
    if let EntryV::Nit { tsid, onid, ds } = e {
        assert(g.subrange(0, 2) =~= put16(tsid as int));
        lemma_put_back(tsid as int, g, 0);
        assert(g.subrange(2, 4) =~= put16(onid as int));
        lemma_put_back(onid as int, g, 2);
        assert(g.subrange(4, 6) =~= put16(0xF000 + n));
        lemma_put_back(0xF000 + n, g, 4);
        assert(from(g, 6) =~= list_wire(ds));
    }
}

proof fn lemma_sdt_entry(e: EntryV)
    requires entry_fits(e), e is Sdt,
    ensures
        gfit(tab_group(entry_tab(e)), entry_wire(e)),
        entry_canon(e) ==> entry_of(entry_tab(e), entry_wire(e)) == e,
        entry_wire(e).len() == entry_head(e).len() + list_wire(entry_list(e)).len(),
        entry_head(e).len() == ghead(tab_group(entry_tab(e))),
{
    hide(list_wire); hide(list_of);
    reveal(entry_wire); reveal(entry_fits);
    let g = entry_wire(e);
    let ds = entry_list(e);
    let n = list_wire(ds).len() as int;
    if entry_canon(e) { lemma_list_back(ds); }
    if let EntryV::Sdt { pnr, schedule, present, status, ca, ds } = e {
        assert(g.subrange(0, 2) =~= put16(pnr as int));
        lemma_put_back(pnr as int, g, 0);
        assert(g[2] == (0xFC + schedule * 2 + present) as u8);
        lemma_status(status, ca, n);
        assert(g.subrange(3, 5) =~= put16(status_enc(status, ca, n)));
        lemma_put_back(status_enc(status, ca, n), g, 3);
        assert(g[3] == be16(g, 3) / 256);
        assert(from(g, 5) =~= list_wire(ds));
    }
}

proof fn lemma_eit_entry(e: EntryV)
    requires entry_fits(e), e is Eit,
    ensures
        gfit(tab_group(entry_tab(e)), entry_wire(e)),
        entry_canon(e) ==> entry_of(entry_tab(e), entry_wire(e)) == e,
        entry_wire(e).len() == entry_head(e).len() + list_wire(entry_list(e)).len(),
        entry_head(e).len() == ghead(tab_group(entry_tab(e))),
{
    hide(list_wire); hide(list_of);
    reveal(entry_wire); reveal(entry_fits);
    let g = entry_wire(e);
    let ds = entry_list(e);
    let n = list_wire(ds).len() as int;
    if entry_canon(e) { lemma_list_back(ds); }
    if let EntryV::Eit { id, start, duration, status, ca, ds } = e {
        assert(g.subrange(0, 2) =~= put16(id as int));
        lemma_put_back(id as int, g, 0);
        assert(g.subrange(2, 4) =~= put16(mjd_enc(start as int)));
        lemma_datetime(start as int);
        lemma_put_back(mjd_enc(start as int), g, 2);
        assert(g.subrange(4, 7) =~= put24(time_enc6(start as int)));
        lemma_time6(start as int);
        lemma_put_back(time_enc6(start as int), g, 4);
        assert(g.subrange(7, 10) =~= put24(duration_enc(duration as int)));
        lemma_duration(duration as int);
        lemma_put_back(duration_enc(duration as int), g, 7);
        lemma_status(status, ca, n);
        assert(g.subrange(10, 12) =~= put16(status_enc(status, ca, n)));
        lemma_put_back(status_enc(status, ca, n), g, 10);
        assert(g[10] == be16(g, 10) / 256);
        assert(from(g, 12) =~= list_wire(ds));
    }
}

/// An entry is one group and decodes to itself.
pub proof fn lemma_entry_back(e: EntryV)
    requires entry_fits(e),
    ensures
        gfit(tab_group(entry_tab(e)), entry_wire(e)),
        entry_canon(e) ==> entry_of(entry_tab(e), entry_wire(e)) == e,
        entry_wire(e).len() == entry_head(e).len() + list_wire(entry_list(e)).len(),
        entry_head(e).len() == ghead(tab_group(entry_tab(e))),
{
    hide(entry_of); hide(gfit);
    match e {
        EntryV::Pat { .. } => lemma_pat_entry(e),
        EntryV::Pmt { .. } => lemma_pmt_entry(e),
        EntryV::Nit { .. } => lemma_nit_entry(e),
        EntryV::Sdt { .. } => lemma_sdt_entry(e),
        EntryV::Eit { .. } => lemma_eit_entry(e),
    }
}

// ---------------------------------------------------------------------------
// tables

/// id, version and table id extension; y is the PCR pid (PMT), the network (SDT) or the transport stream (EIT),
/// z the network (EIT)
pub struct TableV { pub id: u8, pub version: u8, pub ext: u16, pub y: u16, pub z: u16, pub ds: Seq<DescV>, pub entries: Seq<EntryV> }

pub open spec fn id_ok(t: Tab, id: u8) -> bool {
    match t {
        Tab::Pat => id == 0,
        Tab::Pmt => id == 2,
        Tab::Nit => id == 0x40 || id == 0x41,
        Tab::Sdt => id == 0x42 || id == 0x46,
        Tab::Eit => 0x4E <= id <= 0x6F,
    }
}

/// bytes in front of the entries, without the descriptors of the table
pub open spec fn head_len(t: Tab) -> int {
    match t { Tab::Pat => 8, Tab::Pmt => 12, Tab::Nit => 12, Tab::Sdt => 11, Tab::Eit => 14 }
}

/// place of the length of the descriptors of the table
pub open spec fn loop_at(t: Tab) -> int { match t { Tab::Pmt => 10, Tab::Nit => 8, _ => 0 } }

pub open spec fn loop_len(t: Tab, b: Seq<u8>) -> int { if loop_at(t) == 0 { 0 } else { be16(b, loop_at(t)) % 4096 } }

pub open spec fn accepts(t: Tab, b: Seq<u8>, n: int) -> bool { n >= head_len(t) + 4 && section_ok(b, n) && id_ok(t, b[0]) }

/// the table after the section in the first n bytes of b was read
pub open spec fn read(t: Tab, v: TableV, b: Seq<u8>, n: int) -> TableV {
    if !accepts(t, b, n) { v }
    else {
        let h = TableV {
            id: b[0],
            version: (b[5] / 2 % 32) as u8,
            ext: be16(b, 3) as u16,
            y: match t { Tab::Pmt => (be16(b, 8) % 8192) as u16, Tab::Sdt => be16(b, 8) as u16, Tab::Eit => be16(b, 8) as u16, _ => v.y },
            z: match t { Tab::Eit => be16(b, 10) as u16, _ => v.z },
            ds: v.ds,
            entries: v.entries,
        };
        let l = loop_len(t, b);
        if head_len(t) + l > n - 4 { h }
        else {
            TableV {
                ds: if loop_at(t) == 0 { v.ds } else { v.ds + list_of(b.subrange(loop_at(t) + 2, loop_at(t) + 2 + l)) },
                entries: v.entries + entries_of(t, split(tab_group(t), b.subrange(head_len(t) + l, n - 4))),
                ..h
            }
        }
    }
}

pub open spec fn reads(t: Tab, v: TableV, ss: Seq<Seq<u8>>) -> TableV
    decreases ss.len(),
{
    if ss.len() == 0 { v } else { read(t, reads(t, v, ss.drop_last()), ss.last(), ss.last().len() as int) }
}

/// table object before anything was read
pub open spec fn blank(t: Tab) -> TableV {
    TableV { id: if t == Tab::Pmt { 2 } else { 0 }, version: 0, ext: 0, y: 0, z: 0, ds: Seq::empty(), entries: Seq::empty() }
}

/// start of a section with these descriptors of the table; m is the field for the length of the NIT entries;
/// section numbers are zero, the length is not set
#[verifier::opaque]
pub open spec fn head(t: Tab, v: TableV, ds: Seq<DescV>, m: int) -> Seq<u8> {
    let n = list_wire(ds).len() as int;
    Seq::empty().push(v.id).push(if t == Tab::Pat || t == Tab::Pmt { 0xB0u8 } else { 0xF0u8 }).push(0u8)
        + put16(v.ext as int)
        + Seq::empty().push((0xC1 + v.version * 2) as u8).push(0u8).push(0u8)
        + match t {
            Tab::Pat => Seq::empty(),
            Tab::Pmt => put16(0xE000 + v.y) + put16(0xF000 + n) + list_wire(ds),
            Tab::Nit => put16(0xF000 + n) + list_wire(ds) + put16(m),
            Tab::Sdt => put16(v.y as int).push(0xFFu8),
            Tab::Eit => put16(v.y as int) + put16(v.z as int) + Seq::empty().push(0u8).push(0u8),
        }
}

/// largest number of bytes in front of the checksum
pub open spec fn limit(t: Tab) -> int { if t == Tab::Eit { 4092 } else { 1020 } }

pub open spec fn entries_fit(t: Tab, s: Seq<EntryV>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> entry_fits(#[trigger] s[i]) && entry_tab(s[i]) == t && head_len(t) + entry_wire(s[i]).len() <= limit(t)
}

/// every field in range, every entry fits a section
#[verifier::opaque]
pub open spec fn table_fits(t: Tab, v: TableV) -> bool {
    &&& v.version < 32
    &&& id_ok(t, v.id)
    &&& (t == Tab::Pmt ==> v.y < 8192)
    &&& list_fits(v.ds)
    &&& head_len(t) + list_wire(v.ds).len() <= limit(t)
    &&& entries_fit(t, v.entries)
}

/// texts with one form only, unused fields blank
pub open spec fn table_canon(t: Tab, v: TableV) -> bool {
    &&& list_canon(v.ds)
    &&& (loop_at(t) == 0 ==> v.ds.len() == 0)
    &&& (t == Tab::Pat || t == Tab::Nit ==> v.y == 0)
    &&& (t != Tab::Eit ==> v.z == 0)
    &&& forall|i: int| 0 <= i < v.entries.len() ==> entry_canon(#[trigger] v.entries[i])
}

pub open spec fn cat(p: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else { cat(p.drop_last()) + p.last() }
}

/// field for the length of the NIT entries
pub open spec fn loop_field(t: Tab, part: Seq<Seq<u8>>, closed: bool) -> int { if t == Tab::Nit && closed { 0xF000 + flat(part).len() as int } else { 0 } }

pub open spec fn section(t: Tab, v: TableV, i: int, part: Seq<Seq<u8>>, closed: bool) -> Seq<u8> {
    head(t, v, if i == 0 { v.ds } else { Seq::empty() }, loop_field(t, part, closed)) + flat(part)
}

/// the sections hold the entries ws in order, parts[i] in section i
#[verifier::opaque]
pub open spec fn laid(t: Tab, v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, closed: bool) -> bool {
    &&& secs.len() == parts.len()
    &&& 1 <= parts.len() <= ws.len() + 1
    &&& cat(parts) == ws
    &&& forall|i: int| 0 <= i < secs.len() ==> #[trigger] secs[i] == section(t, v, i, parts[i], closed) && secs[i].len() <= limit(t)
}

/// what a table builder has to return: sections that hold exactly the entries of the table, in order
#[verifier::opaque]
pub open spec fn built(t: Tab, v: TableV, secs: Seq<Seq<u8>>) -> bool {
    exists|parts: Seq<Seq<Seq<u8>>>| #[trigger] laid(t, v, entry_wires(v.entries), secs, parts, true)
}

pub open spec fn number(s: Seq<u8>, i: int, last: int) -> Seq<u8> { s.update(6, (i % 256) as u8).update(7, (last % 256) as u8) }

/// numbered, with length and checksum
#[verifier::opaque]
pub open spec fn emitted(secs: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
    Seq::new(secs.len(), |i: int| finish(number(secs[i], i, secs.len() - 1)))
}

pub open spec fn stream_count(ss: Seq<Seq<u8>>) -> int
    decreases ss.len(),
{
    if ss.len() == 0 { 0 } else { stream_count(ss.drop_last()) + packet_count(ss.last().len() as int) }
}

/// packets of sections sent one after the other
pub open spec fn stream(ss: Seq<Seq<u8>>, pid: int, cc: int) -> Seq<u8>
    decreases ss.len(),
{
    if ss.len() == 0 { Seq::empty() }
    else { stream(ss.drop_last(), pid, cc) + packets(ss.last(), pid, (cc + stream_count(ss.drop_last())) % 16) }
}

pub proof fn lemma_stream_take(ss: Seq<Seq<u8>>, i: int, pid: int, cc: int)
    requires 0 <= i < ss.len(),
    ensures
        stream(ss.subrange(0, i + 1), pid, cc) == stream(ss.subrange(0, i), pid, cc) + packets(ss[i], pid, (cc + stream_count(ss.subrange(0, i))) % 16),
        stream_count(ss.subrange(0, i + 1)) == stream_count(ss.subrange(0, i)) + packet_count(ss[i].len() as int),
{
    assert(ss.subrange(0, i + 1).drop_last() =~= ss.subrange(0, i));
}

pub proof fn lemma_stream_ends(ss: Seq<Seq<u8>>, pid: int, cc: int)
    ensures
        ss.subrange(0, ss.len() as int) == ss,
        stream(ss.subrange(0, 0), pid, cc) == Seq::<u8>::empty(),
        stream_count(ss.subrange(0, 0)) == 0,
{
    assert(ss.subrange(0, ss.len() as int) =~= ss);
    assert(ss.subrange(0, 0) =~= Seq::<Seq<u8>>::empty());
}

pub proof fn lemma_head_len(t: Tab, v: TableV, ds: Seq<DescV>, m: int)
    ensures
        head(t, v, ds, m).len() == head_len(t) + (if loop_at(t) == 0 { 0 } else { list_wire(ds).len() as int }),
        list_wire(Seq::<DescV>::empty()).len() == 0,
{
    reveal(head);
    assert(desc_wires(Seq::<DescV>::empty()) =~= Seq::<Seq<u8>>::empty());
}

pub proof fn lemma_no_list()
    ensures list_wire(Seq::<DescV>::empty()) == Seq::<u8>::empty(),
{
    lemma_head_len(Tab::Pat, blank(Tab::Pat), Seq::empty(), 0);
    assert(list_wire(Seq::<DescV>::empty()) =~= Seq::<u8>::empty());
}

pub proof fn lemma_const_bytes()
    ensures byte(0xF000, 1) == 0xF0u8, byte(0xF000, 0) == 0u8, byte(0, 1) == 0u8, byte(0, 0) == 0u8,
{
    reveal(byte);
}

pub proof fn lemma_done_push(done: Seq<Seq<u8>>, g: Seq<u8>, rest: Seq<Seq<u8>>)
    ensures done + (Seq::empty().push(g) + rest) == done.push(g) + rest,
{
    assert(done + (Seq::empty().push(g) + rest) =~= done.push(g) + rest);
}

pub proof fn lemma_from16(w: Seq<u8>, a: int, i: int)
    requires 0 <= a, 0 <= i, a + i + 2 <= w.len(),
    ensures be16(from(w, a), i) == be16(w, a + i),
{
}

// ---------------------------------------------------------------------------
// kind of an elementary stream: ISO 13818-1 table 2-34; EN 300 468 6.1 and TS 102 809 5.3.5 for private streams

/// what a descriptor says about a private stream
pub open spec fn signals(kind: u8, tag: u8) -> Option<StreamType> {
    if kind == 0x05 && tag == 0x6F { Some(StreamType::AIT) }
    else if kind == 0x06 && tag == 0x56 { Some(StreamType::TTX) }
    else if kind == 0x06 && tag == 0x59 { Some(StreamType::SUB) }
    else if kind == 0x06 && (tag == 0x6A || tag == 0x7A || tag == 0x81) { Some(StreamType::AUDIO) }
    else { None }
}

/// the first descriptor from i on that says anything decides
pub open spec fn signalled(kind: u8, ds: Seq<DescV>, i: int) -> StreamType
    decreases ds.len() - i,
{
    if i < 0 || i >= ds.len() { StreamType::DATA }
    else {
        match signals(kind, desc_tag(ds[i])) {
            Some(x) => x,
            None => signalled(kind, ds, i + 1),
        }
    }
}

pub open spec fn stream_kind(kind: u8, ds: Seq<DescV>) -> StreamType {
    if kind == 0x01 || kind == 0x02 || kind == 0x10 || kind == 0x1B || kind == 0x24 { StreamType::VIDEO }
    else if kind == 0x03 || kind == 0x04 || kind == 0x0F || kind == 0x11 { StreamType::AUDIO }
    else { signalled(kind, ds, 0) }
}

pub proof fn lemma_not_private(kind: u8, ds: Seq<DescV>, i: int)
    requires kind != 0x05, kind != 0x06, 0 <= i <= ds.len(),
    ensures signalled(kind, ds, i) == StreamType::DATA,
    decreases ds.len() - i,
{
    if i < ds.len() { lemma_not_private(kind, ds, i + 1); }
}

// ---------------------------------------------------------------------------
// closing of the NIT sections: the length of the entries

pub open spec fn put_at16(s: Seq<u8>, a: int, v: int) -> Seq<u8> { s.update(a, byte(v, 1)).update(a + 1, byte(v, 0)) }

/// the sections from i on are still open
#[verifier::opaque]
pub open spec fn closing(v: TableV, open: Seq<Seq<u8>>, i: int, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>) -> bool {
    &&& laid(Tab::Nit, v, entry_wires(v.entries), open, parts, false)
    &&& secs.len() == open.len()
    &&& list_wire(v.ds).len() <= 1008
    &&& forall|j: int| 0 <= j < secs.len() ==> #[trigger] secs[j] == section(Tab::Nit, v, j, parts[j], j < i)
}

pub proof fn lemma_closing_start(v: TableV, open: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>)
    requires laid(Tab::Nit, v, entry_wires(v.entries), open, parts, false), list_wire(v.ds).len() <= 1008,
    ensures closing(v, open, 0, open, parts),
{
    reveal(closing); reveal(laid);
}

/// descriptor length and body length of a section
pub proof fn lemma_closing_item(v: TableV, open: Seq<Seq<u8>>, i: int, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>)
    requires closing(v, open, i, secs, parts), 0 <= i < secs.len(),
    ensures
        be16(secs[i], 8) % 4096 == nit_loop(v, i),
        secs[i].len() == 12 + nit_loop(v, i) + flat(parts[i]).len(),
        secs[i].len() <= 1020,
{
    reveal(closing); reveal(laid); reveal(head);
    let ds = if i == 0 { v.ds } else { Seq::empty() };
    let s = secs[i];
    assert(s == section(Tab::Nit, v, i, parts[i], false));
    assert(open[i] == section(Tab::Nit, v, i, parts[i], false));
    lemma_no_list();
    lemma_head_len(Tab::Nit, v, ds, 0);
    let n = list_wire(ds).len() as int;
    assert(s.subrange(8, 10) =~= put16(0xF000 + n));
    lemma_put_back(0xF000 + n, s, 8);
}

pub open spec fn nit_loop(v: TableV, i: int) -> int { if i == 0 { list_wire(v.ds).len() as int } else { 0 } }

pub proof fn lemma_closing_step(v: TableV, open: Seq<Seq<u8>>, i: int, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, secs2: Seq<Seq<u8>>)
    requires
        closing(v, open, i, secs, parts),
        0 <= i < secs.len(),
        secs2 == secs.update(i, put_at16(secs[i], 10 + nit_loop(v, i), 0xF000 + secs[i].len() - 12 - nit_loop(v, i))),
    ensures closing(v, open, i + 1, secs2, parts),
{
    lemma_closing_item(v, open, i, secs, parts);
    reveal(closing); reveal(head);
    let ds = if i == 0 { v.ds } else { Seq::empty() };
    let s = secs[i];
    let n = nit_loop(v, i);
    lemma_no_list();
    assert(s == section(Tab::Nit, v, i, parts[i], false));
    lemma_head_len(Tab::Nit, v, ds, 0);
    lemma_head_len(Tab::Nit, v, ds, loop_field(Tab::Nit, parts[i], true));
    assert(secs2[i] =~= section(Tab::Nit, v, i, parts[i], true));
    assert forall|j: int| 0 <= j < secs2.len() implies #[trigger] secs2[j] == section(Tab::Nit, v, j, parts[j], j < i + 1) by {
        assert(j != i ==> secs2[j] == secs[j]);
    }
}

pub proof fn lemma_closing_end(v: TableV, open: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>)
    requires closing(v, open, secs.len() as int, secs, parts),
    ensures built(Tab::Nit, v, secs),
{
    reveal(closing); reveal(laid); reveal(built);
    assert(laid(Tab::Nit, v, entry_wires(v.entries), secs, parts, true)) by {
        assert forall|i: int| 0 <= i < secs.len() implies #[trigger] secs[i] == section(Tab::Nit, v, i, parts[i], true) && secs[i].len() <= limit(Tab::Nit) by {
            assert(open[i] == section(Tab::Nit, v, i, parts[i], false));
            let ds = if i == 0 { v.ds } else { Seq::empty() };
            lemma_head_len(Tab::Nit, v, ds, 0);
            lemma_head_len(Tab::Nit, v, ds, loop_field(Tab::Nit, parts[i], true));
        }
    }
}

/// the first section, without entries
pub proof fn lemma_laid_init(t: Tab, v: TableV, secs: Seq<Seq<u8>>)
    requires table_fits(t, v), secs.len() == 1, secs[0] == head(t, v, v.ds, 0),
    ensures laid(t, v, Seq::<Seq<u8>>::empty(), secs, Seq::empty().push(Seq::empty()), false),
{
    reveal(laid); reveal(table_fits);
    let parts: Seq<Seq<Seq<u8>>> = Seq::empty().push(Seq::empty());
    lemma_head_len(t, v, v.ds, 0);
    assert(parts.drop_last() =~= Seq::<Seq<Seq<u8>>>::empty());
    assert(cat(parts) =~= Seq::<Seq<u8>>::empty()) by { assert(cat(parts.drop_last()) =~= Seq::<Seq<u8>>::empty()); }
    assert(flat(parts[0]) =~= Seq::<u8>::empty());
    assert(secs[0] =~= section(t, v, 0, parts[0], false));
}

proof fn lemma_cat_push(p: Seq<Seq<Seq<u8>>>, x: Seq<Seq<u8>>)
    ensures cat(p.push(x)) == cat(p) + x,
{
    assert(p.push(x).drop_last() =~= p);
}

/// an entry appended to the last section
pub proof fn lemma_laid_grow(t: Tab, v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, w: Seq<u8>, secs2: Seq<Seq<u8>>)
    requires
        laid(t, v, ws, secs, parts, false),
        secs.last().len() + w.len() <= limit(t),
        secs2 == secs.update(secs.len() - 1, secs.last() + w),
    ensures laid(t, v, ws.push(w), secs2, parts.update(parts.len() - 1, parts.last().push(w)), false),
{
    reveal(laid);
    let k = parts.len() - 1;
    let p2 = parts.update(k, parts[k].push(w));
    assert(p2.drop_last() =~= parts.drop_last());
    assert(p2.last() == parts[k].push(w));
    assert(cat(p2) =~= ws.push(w));
    lemma_flat_push(parts[k], w);
    assert forall|i: int| 0 <= i < secs2.len() implies #[trigger] secs2[i] == section(t, v, i, p2[i], false) && secs2[i].len() <= limit(t) by {
        assert(secs[i] == section(t, v, i, parts[i], false));
        if i == k {
            assert(secs2[i] =~= section(t, v, i, p2[i], false));
        }
    }
}

/// a section added for an entry
pub proof fn lemma_laid_open(t: Tab, v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, w: Seq<u8>, s: Seq<u8>)
    requires
        laid(t, v, ws, secs, parts, false),
        head_len(t) + w.len() <= limit(t),
        s == head(t, v, Seq::empty(), 0) + w,
    ensures laid(t, v, ws.push(w), secs.push(s), parts.push(Seq::empty().push(w)), false),
{
    reveal(laid);
    lemma_head_len(t, v, Seq::empty(), 0);
    let one: Seq<Seq<u8>> = Seq::empty().push(w);
    let p2 = parts.push(one);
    lemma_cat_push(parts, one);
    assert(cat(p2) =~= ws.push(w));
    lemma_flat_push(Seq::empty(), w);
    assert(flat(one) =~= w);
    let secs2 = secs.push(s);
    assert forall|i: int| 0 <= i < secs2.len() implies #[trigger] secs2[i] == section(t, v, i, p2[i], false) && secs2[i].len() <= limit(t) by {
        if i < secs.len() { assert(secs[i] == section(t, v, i, parts[i], false)); }
    }
}

pub proof fn lemma_laid_len(t: Tab, v: TableV, ws: Seq<Seq<u8>>, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>, closed: bool)
    requires laid(t, v, ws, secs, parts, closed),
    ensures 1 <= secs.len() <= ws.len() + 1, secs.len() == parts.len(), secs.last().len() <= limit(t),
{
    reveal(laid);
    assert(secs[secs.len() - 1].len() <= limit(t));
}

pub proof fn lemma_table_head(t: Tab, v: TableV)
    requires table_fits(t, v),
    ensures v.version < 32, id_ok(t, v.id), t == Tab::Pmt ==> v.y < 8192, list_fits(v.ds), head_len(t) + list_wire(v.ds).len() <= limit(t),
{
    reveal(table_fits);
}

pub proof fn lemma_table_entry(t: Tab, v: TableV, i: int)
    requires table_fits(t, v), 0 <= i < v.entries.len(),
    ensures entry_fits(v.entries[i]), head_len(t) + entry_wire(v.entries[i]).len() <= limit(t), entry_tab(v.entries[i]) == t,
{
    reveal(table_fits);
}

/// without a loop length of the entries there is nothing to close
pub proof fn lemma_laid_close(t: Tab, v: TableV, secs: Seq<Seq<u8>>, parts: Seq<Seq<Seq<u8>>>)
    requires laid(t, v, entry_wires(v.entries), secs, parts, false), t != Tab::Nit,
    ensures built(t, v, secs),
{
    reveal(laid); reveal(built);
    assert(laid(t, v, entry_wires(v.entries), secs, parts, true)) by {
        assert forall|i: int| 0 <= i < secs.len() implies #[trigger] secs[i] == section(t, v, i, parts[i], true) && secs[i].len() <= limit(t) by {
            assert(secs[i] == section(t, v, i, parts[i], false));
        }
    }
}

/// the first i of these sections went out
#[verifier::opaque]
pub open spec fn flow(d0: Seq<u8>, d: Seq<u8>, ss: Seq<Seq<u8>>, i: int, pid: int, cc0: int, cc: int) -> bool {
    &&& 0 <= i <= ss.len()
    &&& d == d0 + stream(ss.subrange(0, i), pid, cc0)
    &&& cc == (cc0 + stream_count(ss.subrange(0, i))) % 16
    &&& d.len() <= d0.len() + i * 4512
    &&& 0 <= stream_count(ss.subrange(0, i))
}

pub proof fn lemma_flow_start(d0: Seq<u8>, ss: Seq<Seq<u8>>, pid: int, cc0: int)
    requires 0 <= cc0 < 16,
    ensures flow(d0, d0, ss, 0, pid, cc0, cc0),
{
    reveal(flow);
    lemma_stream_ends(ss, pid, cc0);
    assert(d0 =~= d0 + Seq::<u8>::empty());
}

pub proof fn lemma_flow_step(d0: Seq<u8>, d: Seq<u8>, d2: Seq<u8>, ss: Seq<Seq<u8>>, i: int, pid: int, cc0: int, cc: int, cc2: int, b: Seq<u8>, n: int)
    requires
        flow(d0, d, ss, i, pid, cc0, cc),
        0 <= cc0 < 16,
        i < ss.len(),
        b == ss[i],
        n == b.len() <= 4098,
        d2 == d + packets(b.subrange(0, n), pid, cc),
        cc2 == (cc + packet_count(n)) % 16,
    ensures flow(d0, d2, ss, i + 1, pid, cc0, cc2), 0 <= cc2 < 16,
{
    reveal(flow);
    lemma_stream_take(ss, i, pid, cc0);
    lemma_packets_len(b, pid, cc);
    assert(b.subrange(0, n) =~= b);
    assert(d2 =~= d0 + stream(ss.subrange(0, i + 1), pid, cc0));
}

pub proof fn lemma_flow_room(d0: Seq<u8>, d: Seq<u8>, ss: Seq<Seq<u8>>, i: int, pid: int, cc0: int, cc: int, m: int, max: int)
    requires flow(d0, d, ss, i, pid, cc0, cc), i < ss.len() <= m + 1, d0.len() + (m + 1) * 4512 <= max, 0 <= cc0,
    ensures d.len() + 4512 <= max, 0 <= cc < 16,
{
    reveal(flow);
}

/// what a table has to send: packets of its sections, one section after the other
#[verifier::opaque]
pub open spec fn sent(t: Tab, v: TableV, pid: int, cc: int, cc2: int, d: Seq<u8>, d2: Seq<u8>) -> bool {
    exists|secs: Seq<Seq<u8>>| #[trigger] built(t, v, secs) && d2 == d + stream(emitted(secs), pid, cc)
        && cc2 == (cc + stream_count(emitted(secs))) % 16
}

pub proof fn lemma_sent(t: Tab, v: TableV, secs: Seq<Seq<u8>>, pid: int, cc: int, cc2: int, d: Seq<u8>, d2: Seq<u8>)
    requires built(t, v, secs), flow(d, d2, emitted(secs), secs.len() as int, pid, cc, cc2),
    ensures sent(t, v, pid, cc, cc2, d, d2),
{
    reveal(flow);
    reveal(sent);
    reveal(emitted);
    lemma_stream_ends(emitted(secs), pid, cc);
}

pub proof fn lemma_emitted(t: Tab, v: TableV, secs: Seq<Seq<u8>>, i: int)
    requires built(t, v, secs), 0 <= i < secs.len(),
    ensures
        emitted(secs).len() == secs.len(),
        emitted(secs)[i] == finish(number(secs[i], i, secs.len() - 1)),
        emitted(secs)[i].len() == secs[i].len() + 4,
        8 <= secs[i].len() <= 4092,
{
    reveal(emitted);
    lemma_built_len(t, v, secs);
    lemma_finish(number(secs[i], i, secs.len() - 1));
}

pub proof fn lemma_built_len(t: Tab, v: TableV, secs: Seq<Seq<u8>>)
    requires built(t, v, secs),
    ensures secs.len() >= 1, forall|i: int| 0 <= i < secs.len() ==> head_len(t) <= (#[trigger] secs[i]).len() <= limit(t),
{
    reveal(built); reveal(laid);
    let parts = choose|parts: Seq<Seq<Seq<u8>>>| #[trigger] laid(t, v, entry_wires(v.entries), secs, parts, true);
    assert forall|i: int| 0 <= i < secs.len() implies head_len(t) <= (#[trigger] secs[i]).len() <= limit(t) by {
        assert(secs[i] == section(t, v, i, parts[i], true));
        lemma_head_len(t, v, if i == 0 { v.ds } else { Seq::empty() }, loop_field(t, parts[i], true));
    }
}

pub proof fn lemma_packets_len(s: Seq<u8>, pid: int, cc: int)
    requires s.len() <= 4098,
    ensures packets(s, pid, cc).len() <= 4512, packet_count(s.len() as int) >= 0,
{
}

pub proof fn lemma_wires_take(s: Seq<EntryV>, i: int)
    requires 0 <= i < s.len(),
    ensures
        entry_wires(s).subrange(0, i + 1) == entry_wires(s).subrange(0, i).push(entry_wire(s[i])),
        entry_wires(s).len() == s.len(),
{
    assert(entry_wires(s).subrange(0, i + 1) =~= entry_wires(s).subrange(0, i).push(entry_wire(s[i])));
}

pub proof fn lemma_wires_ends(s: Seq<EntryV>)
    ensures
        entry_wires(s).len() == s.len(),
        entry_wires(s).subrange(0, 0) == Seq::<Seq<u8>>::empty(),
        entry_wires(s).subrange(0, s.len() as int) == entry_wires(s),
{
    assert(entry_wires(s).subrange(0, 0) =~= Seq::<Seq<u8>>::empty());
    assert(entry_wires(s).subrange(0, s.len() as int) =~= entry_wires(s));
}

} // verus!
