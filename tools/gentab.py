"""Writes contracts/60_tables.vc: contracts of PAT, PMT, NIT and SDT, which share one shape; the rest is in 61_tables.vc."""
import pathlib

TABS = [
    dict(t='Pat', mod='pat', h=4, fields='pnr: self.pnr, pid: self.pid', id='0', ext='self.tsid', y='0', ds=None, cond=False),
    dict(t='Pmt', mod='pmt', h=5, fields='kind: self.stream_type, pid: self.pid, ds: self.descriptors.dv()', id='2', ext='self.pnr', y='self.pcr', ds='self.descriptors.dv()', cond=True),
    dict(t='Nit', mod='nit', h=6, fields='tsid: self.tsid, onid: self.onid, ds: self.descriptors.dv()', id='self.table_id', ext='self.network_id', y='0', ds='self.descriptors.dv()', cond=True),
    dict(t='Sdt', mod='sdt', h=5, fields='pnr: self.pnr, schedule: self.eit_schedule_flag, present: self.eit_present_following_flag, status: self.running_status, ca: self.free_ca_mode, ds: self.descriptors.dv()', id='self.table_id', ext='self.tsid', y='self.onid', ds=None, cond=True),
    dict(t='Eit', mod='eit', h=12, fields='id: self.event_id, start: self.start, duration: self.duration, status: self.status, ca: self.ca_mode, ds: self.descriptors.dv()', id='self.table_id', ext='self.pnr', y='self.tsid', z='self.onid', ds=None, cond=True),
]

PARSE_FIXED = '''//@ at loop 0 entry
let ghost items0 = self.items@;
let ghost skip0 = skip as int;
//@ at loop 0 exit
proof {
    let g = ptr@.subrange(skip0, skip0 + 4);
    lemma_split_step(G, ptr@, skip0);
    lemma_items_push(items0, self.items@, items_v(old(self).items@), done, g);
    lemma_done_push(done, g, split(G, from(ptr@, skip0 + 4)));
    done = done.push(g);
}
//@ at after loop 0
proof { lemma_split_end(G, ptr@, skip as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
'''
PARSE_SIZED = '''//@ at loop 0 entry
let ghost items0 = self.items@;
let ghost skip0 = skip as int;
proof {
    lemma_from16(ptr@, skip0, H - 2);
    if glen(G, from(ptr@, skip0)) <= ptr@.len() - skip0 { lemma_split_step(G, ptr@, skip0); }
    else { lemma_split_end(G, ptr@, skip0); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
}
//@ at loop 0 exit
proof {
    let g = ptr@.subrange(skip0, skip as int);
    lemma_items_push(items0, self.items@, items_v(old(self).items@), done, g);
    lemma_done_push(done, g, split(G, from(ptr@, skip as int)));
    done = done.push(g);
}
//@ at after loop 0
proof {
    if ptr@.len() - skip < H { lemma_split_end(G, ptr@, skip as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
}
'''

TEXT = '''//@ module psi::MOD
//@ prelude
use crate::psi::{bufs, all_open, lemma_last_buf};
broadcast use {BROADCAST};

impl TItem {
    pub open spec fn ev(&self) -> EntryV { EntryV::T { FIELDS } }
}
pub open spec fn items_v(s: Seq<TItem>) -> Seq<EntryV> { s.map_values(|x: TItem| x.ev()) }
impl T {
    pub open spec fn tv(&self) -> TableV {
        TableV { id: ID, version: self.version, ext: EXT, y: YY, z: ZZ, ds: DSV, entries: items_v(self.items@) }
    }
}
proof fn lemma_items_push(items0: Seq<TItem>, items: Seq<TItem>, before: Seq<EntryV>, done: Seq<Seq<u8>>, g: Seq<u8>)
    requires
        items_v(items0) == before + entries_of(Tab::T, done),
        items.len() == items0.len() + 1,
        items.drop_last() =~= items0,
        items.last().ev() == entry_of(Tab::T, g),
    ensures items_v(items) == before + entries_of(Tab::T, done.push(g)),
{
    assert(items_v(items) =~= items_v(items0).push(entry_of(Tab::T, g)));
    assert(entries_of(Tab::T, done.push(g)) =~= entries_of(Tab::T, done).push(entry_of(Tab::T, g)));
    assert(before + entries_of(Tab::T, done.push(g)) =~= (before + entries_of(Tab::T, done)).push(entry_of(Tab::T, g)));
}
//@ fn Default for TItem::default
    ensures ITEMDEF,
//@ fn TItem::parse
    requires gfit(G, slice@), slice@.len() <= 0x1000_0000,
    ensures r.ev() == entry_of(Tab::T, slice@),
ITEMPARSE//@ fn TItem::assemble
    requires entry_fits(self.ev()), old(buffer)@.len() <= 4096,
    ensures final(buffer)@ == old(buffer)@ + entry_wire(self.ev()),
//@ at entry
proof { reveal(entry_wire); reveal(entry_fits); lemma_no_list(); reveal(byte);ITEMASM }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + entry_wire(self.ev())); }
//@ fn TItem::size
    requires entry_fits(self.ev()),
    ensures r == entry_wire(self.ev()).len(),
//@ at entry
proof { reveal(entry_wire); reveal(entry_fits); lemma_no_list(); }
//@ fn Default for T::default
    ensures r.tv() == blank(Tab::T),
//@ at exit
proof { assert(items_v(vx_ret.items@) =~= Seq::<EntryV>::empty());DSDEF }
//@ fn T::check
    requires psi.size > 0 ==> psi.buffer@.len() > 0,
    ensures r == accepts(Tab::T, psi.buffer@, psi.size as int),
//@ fn T::parse
    requires psi.size > 0 ==> psi.buffer@.len() > 0, psi.size <= 0x1000_0000,
    ensures final(self).tv() == read(Tab::T, old(self).tv(), psi.buffer@, psi.size as int),
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
//@ loop 0
    invariant
        skip <= ptr@.len() <= 0x1000_0000,
        ptr@ == psi.buffer@.subrange(HEAD + loop_len(Tab::T, psi.buffer@), psi.size - 4),
        items_v(self.items@) == items_v(old(self).items@) + entries_of(Tab::T, done),
        done + split(G, from(ptr@, skip as int)) == split(G, ptr@),
    decreases ptr@.len() - skip,
//@ at before loop 0
proof {
    assert(items_v(self.items@) =~= items_v(old(self).items@) + entries_of(Tab::T, done));
    assert(from(ptr@, 0) =~= ptr@);
    assert(done + split(G, ptr@) =~= split(G, ptr@));
}
PARSE//@ fn T::psi_init
    requires self.version < 32INITREQ,
    ensures r.buffer@ == head(Tab::T, self.tv(), INITDS, 0), r.size == 0,
//@ at entry
proof { reveal(head); lemma_no_list(); reveal(byte); }
//@ at exit
proof { assert(vx_ret.buffer@ =~= head(Tab::T, self.tv(), INITDS, 0)); }
//@ fn PsiDemux for T::psi_list_assemble
    requires table_fits(Tab::T, self.tv()),
    ensures built(Tab::T, self.tv(), bufs(r@)), all_open(r@), r@.len() <= self.items@.len() + 1,
//@ at entry
let ghost v = self.tv();
proof { lemma_table_head(Tab::T, v); }
let ghost mut parts: Seq<Seq<Seq<u8>>> = Seq::empty().push(Seq::empty());
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        v == self.tv(),
        laid(Tab::T, v, entry_wires(v.entries).subrange(0, vx_i0 as int), bufs(psi_list@), parts, false),
        all_open(psi_list@),
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof {
    lemma_wires_ends(v.entries);
    lemma_last_buf(psi_list@);
    lemma_laid_init(Tab::T, v, bufs(psi_list@));
}
//@ at loop 0 entry
let ghost pl = psi_list@;
let ghost i0 = vx_i0 as int - 1;
proof {
    assert(v.entries[i0] == self.items@[i0].ev());
    lemma_wires_take(v.entries, i0);
    lemma_last_buf(pl);
    lemma_table_entry(Tab::T, v, i0);
    lemma_laid_len(Tab::T, v, entry_wires(v.entries).subrange(0, i0), bufs(pl), parts, false);
    lemma_head_len(Tab::T, v, Seq::empty(), 0);
}
//@ at continue 0
proof {
    let w = entry_wire(v.entries[i0]);
    if psi_list@.len() == pl.len() {
        assert(bufs(psi_list@) =~= bufs(pl).update(pl.len() - 1, bufs(pl).last() + w));
        lemma_laid_grow(Tab::T, v, entry_wires(v.entries).subrange(0, i0), bufs(pl), parts, w, bufs(psi_list@));
        parts = parts.update(parts.len() - 1, parts.last().push(w));
    } else {
        assert(bufs(psi_list@) =~= bufs(pl).push(head(Tab::T, v, Seq::empty(), 0) + w));
        lemma_laid_open(Tab::T, v, entry_wires(v.entries).subrange(0, i0), bufs(pl), parts, w, head(Tab::T, v, Seq::empty(), 0) + w);
        parts = parts.push(Seq::empty().push(w));
    }
}
//@ at loop 0 exit
proof {
    let w = entry_wire(v.entries[i0]);
    if psi_list@.len() == pl.len() {
        assert(bufs(psi_list@) =~= bufs(pl).update(pl.len() - 1, bufs(pl).last() + w));
        lemma_laid_grow(Tab::T, v, entry_wires(v.entries).subrange(0, i0), bufs(pl), parts, w, bufs(psi_list@));
        parts = parts.update(parts.len() - 1, parts.last().push(w));
    } else {
        assert(bufs(psi_list@) =~= bufs(pl).push(head(Tab::T, v, Seq::empty(), 0) + w));
        lemma_laid_open(Tab::T, v, entry_wires(v.entries).subrange(0, i0), bufs(pl), parts, w, head(Tab::T, v, Seq::empty(), 0) + w);
        parts = parts.push(Seq::empty().push(w));
    }
}
//@ at after loop 0
proof { lemma_wires_ends(v.entries); lemma_laid_len(Tab::T, v, entry_wires(v.entries), bufs(psi_list@), parts, false);CLOSE }
LOOP1//@ fn PsiDemux for T::finalize
    ensures *final(_psi) == *old(_psi),
//@ fn PsiDemux for T::demux
    requires
        table_fits(Tab::T, self.tv()),
        pid < 8192,
        *old(cc) < 16,
        old(dst)@.len() + (self.items@.len() + 1) * 4512 <= usize::MAX,
    ensures sent(Tab::T, self.tv(), pid as int, *old(cc) as int, *final(cc) as int, old(dst)@, final(dst)@),
//@ at entry
let ghost v = self.tv();
let ghost cc0 = *old(cc) as int;
let ghost d0 = old(dst)@;
//@ loop 0
    invariant
        vx_i0 <= psi_list@.len() == secs.len(),
        secs.len() <= self.items@.len() + 1,
        built(Tab::T, v, secs),
        forall|j: int| vx_i0 <= j < secs.len() ==> (#[trigger] psi_list@[j]).buffer@ == secs[j] && psi_list@[j].size == 0,
        last_section_number == ((secs.len() - 1) % 256) as u8,
        flow(d0, dst@, emitted(secs), vx_i0 as int, pid as int, cc0, *cc as int),
        0 <= *cc < 16,
    decreases psi_list@.len() - vx_i0,
//@ at after let psi_list
let ghost secs = bufs(psi_list@);
proof { lemma_built_len(Tab::T, v, secs); }
//@ at after let last_section_number
proof {
    lemma_low8((secs.len() - 1) as usize);
    lemma_flow_start(d0, emitted(secs), pid as int, cc0);
}
//@ at loop 0 entry
let ghost i0 = vx_i0 as int - 1;
let ghost dst0 = dst@;
let ghost c0 = *cc as int;
proof {
    lemma_low8(i0 as usize);
    lemma_emitted(Tab::T, v, secs, i0);
    assert(psi.buffer@ == secs[i0]);
    lemma_flow_room(d0, dst0, emitted(secs), i0, pid as int, cc0, c0, self.items@.len() as int, usize::MAX as int);
}
//@ at loop 0 exit
proof {
    lemma_flow_step(d0, dst0, dst@, emitted(secs), i0, pid as int, cc0, c0, *cc as int, psi_list@[i0].buffer@, psi_list@[i0].size as int);
}
//@ at after loop 0
proof { lemma_sent(Tab::T, v, secs, pid as int, cc0, *cc as int, d0, dst@); }
//@ flatten From<&Psi> for T
//@ fn From<&Psi> for T::from
    requires psi.size > 0 ==> psi.buffer@.len() > 0, psi.size <= 0x1000_0000,
    ensures r.tv() == read(Tab::T, blank(Tab::T), psi.buffer@, psi.size as int),
'''

NIT_LOOP = '''//@ loop 1
    invariant
        vx_i1 <= psi_list@.len() == open.len(),
        cur == bufs(psi_list@),
        closing(v, open, vx_i1 as int, cur, parts),
        all_open(psi_list@),
        psi_list@.len() <= self.items@.len() + 1,
    decreases psi_list@.len() - vx_i1,
//@ at before loop 1
let ghost open = bufs(psi_list@);
let ghost mut cur = open;
proof { lemma_closing_start(v, open, parts); }
//@ at loop 1 entry
let ghost i1 = vx_i1 as int - 1;
proof { lemma_closing_item(v, open, i1, cur, parts); assert(item.buffer@ == cur[i1]); }
//@ at loop 1 exit
proof {
    assert(bufs(psi_list@) =~= cur.update(i1, psi_list@[i1].buffer@));
    lemma_closing_step(v, open, i1, cur, parts, bufs(psi_list@));
    cur = bufs(psi_list@);
}
//@ at after loop 1
proof { lemma_closing_end(v, open, bufs(psi_list@), parts); }
'''

PMT_EXTRA = '''//@ fn PmtItem::get_stream_type
    ensures r == stream_kind(self.stream_type, self.descriptors.dv()),
//@ at entry
let ghost ds = self.descriptors.dv();
proof { if self.stream_type != 0x05 && self.stream_type != 0x06 { lemma_not_private(self.stream_type, ds, 0); } }
//@ loop 0
    invariant
        vx_i0 <= self.descriptors.0@.len(),
        ds == self.descriptors.dv(),
        self.stream_type == 0x05,
        signalled(0x05, ds, 0) == signalled(0x05, ds, vx_i0 as int),
    decreases self.descriptors.0@.len() - vx_i0,
//@ loop 1
    invariant
        vx_i1 <= self.descriptors.0@.len(),
        ds == self.descriptors.dv(),
        self.stream_type == 0x06,
        signalled(0x06, ds, 0) == signalled(0x06, ds, vx_i1 as int),
    decreases self.descriptors.0@.len() - vx_i1,
'''

EIT_BUILD = '''//@ fn Clone for EitItem::clone
    ensures r.ev() == self.ev(),
//@ fn PsiDemux for Eit::psi_list_assemble
    requires eit_fits(self.tv()),
    ensures eit_built(self.tv(), bufs(r@)), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).size == r@[i].buffer@.len(),
//@ at entry
let ghost gv = self.tv();
let ghost gn = self.items@.len() as int;
let ghost gm = first_midnight(gv);
let ghost ws = entry_wires(gv.entries);
let ghost h0 = head(Tab::Eit, gv, Seq::empty(), 0);
let ghost mut parts: Seq<Seq<Seq<u8>>> = Seq::empty();
let ghost mut gb: int = 0;
let ghost mut gk: int = 1;
let ghost mut gs: int = 0;
proof {
    lemma_table_head(Tab::Eit, gv);
    assert(gv.entries.len() == gn);
    if gn == 0 { lemma_eit_none(gv); }
    assert(bufs(Seq::<Psi>::empty()) =~= Seq::<Seq<u8>>::empty());
    lemma_head_len(Tab::Eit, gv, Seq::empty(), 0);
}
//@ loop 0
    invariant
        vx_i0 <= gn,
        gn == self.items@.len() <= 256,
        gv == self.tv(),
        eit_fits(gv),
        gv.id < 0x50,
        gv.version < 32,
        h0 == head(Tab::Eit, gv, Seq::empty(), 0),
        h0.len() == 14,
        last_section_number == gn - 1,
        eit_pf(gv, vx_i0 as int, bufs(psi_list@)),
        forall|i: int| 0 <= i < psi_list@.len() ==> (#[trigger] psi_list@[i]).size == psi_list@[i].buffer@.len(),
    decreases gn - vx_i0,
//@ at before loop 0
proof { lemma_pf_start(gv); lemma_low8((gn - 1) as usize); }
//@ at loop 0 entry
let ghost i0 = vx_i0 as int - 1;
let ghost pl0 = psi_list@;
let ghost z0 = last_section_number;
let ghost h1 = h0.update(6, i0 as u8).update(7, z0).update(12, z0).update(13, gv.id);
proof {
    lemma_low8(i0 as usize);
    lemma_table_entry(Tab::Eit, gv, i0);
    assert(gv.entries[i0] == self.items@[i0].ev());
    lemma_pf_step(gv, i0, bufs(pl0), h1, i0 as u8, z0, h1 + entry_wire(gv.entries[i0]));
}
//@ at loop 0 exit
proof { lemma_finish_ext(h1 + entry_wire(gv.entries[i0])); }
proof { assert(bufs(psi_list@) =~= bufs(pl0).push(finish(h1 + entry_wire(gv.entries[i0])))); }
//@ at after loop 0
proof { lemma_pf_end(gv, bufs(psi_list@)); }
//@ at after let midnight
proof {
    lemma_schedule(gv, 0);
    lemma_schedule(gv, gn - 1);
    assert(gv.entries[0] == self.items@[0].ev());
    assert(gv.entries[gn - 1] == self.items@[gn - 1].ev());
}
//@ at after let service_segments
proof { lemma_low8_u64((service_segments / 32) as u64); }
//@ loop 1
    invariant
        vx_i1 <= vx_e1 + 1,
        vx_e1 < 8,
        gv == self.tv(),
        gv.version < 32,
        0x50 <= gv.id < 0x70,
        gm <= 2155593599,
        current_table_id == gv.id / 16 * 16,
        h0 == head(Tab::Eit, gv, Seq::empty(), 0),
        h0.len() == 14,
        psi.size == 0,
        psi.buffer@ == h0.update(0, psi.buffer@[0]).update(6, psi.buffer@[6]),
        midnight == gm + vx_i1 * 10800,
        current_section == vx_i1 * 8,
        psi_list@.len() == vx_i1,
        eit_laid(gv, Seq::empty(), bufs(psi_list@), parts),
        all_open(psi_list@),
        vx_i1 > 0 ==> bufs(psi_list@).last()[0] == current_table_id && bufs(psi_list@).last()[6] == current_section - 8,
    decreases vx_e1 + 1 - vx_i1,
//@ at before loop 1
proof {
    lemma_eit_other(gv, empty_eit.tv());
    assert(psi.buffer@ =~= h0.update(0, psi.buffer@[0]).update(6, psi.buffer@[6]));
    lemma_eit_start(gv);
}
//@ at loop 1 entry
let ghost pl1 = psi_list@;
let ghost c1 = current_section;
//@ at loop 1 exit
proof {
    let h = h0.update(0, current_table_id).update(6, c1);
    assert(psi.buffer@ =~= h);
    assert(bufs(psi_list@) =~= bufs(pl1).push(h));
    lemma_eit_head(gv, h, current_table_id, c1);
    lemma_eit_empty(gv, Seq::empty(), bufs(pl1), parts, h);
    parts = parts.push(Seq::empty());
}
//@ at after let next_midnight
let ghost pl1b = psi_list@;
//@ loop 2
    invariant
        vx_i2 <= gn,
        gn == self.items@.len(),
        gv == self.tv(),
        ws == entry_wires(gv.entries),
        eit_fits(gv),
        0x50 <= gv.id < 0x70,
        gv.version < 32,
        gm == first_midnight(gv),
        h0 == head(Tab::Eit, gv, Seq::empty(), 0),
        h0.len() == 14,
        eit_laid(gv, ws.subrange(0, vx_i2 as int), bufs(psi_list@), parts),
        all_open(psi_list@),
        1 <= psi_list@.len() <= vx_i2 + 9,
        segment(gv, gs, vx_i2 as int, gk, bufs(psi_list@).last().len() - 14),
        0 <= gb < 512,
        0 <= gs < gn,
        starts(gv.entries[gs]) + 21600 >= next_midnight,
        current_section == 8 * (gb % 32) + gk - 1,
        current_table_id == gv.id / 16 * 16 + gb / 32,
        next_midnight == gm + (gb + 1) * 10800,
        bufs(psi_list@).last()[6] == current_section,
        bufs(psi_list@).last()[0] == current_table_id,
        SEG_DURATION == 10800,
    decreases gn - vx_i2,
//@ at before loop 2
proof {
    let c = current_section;
    let h = h0.update(0, current_table_id).update(6, c);
    assert(psi_list@.last().buffer@ =~= h);
    let secs = bufs(pl1b);
    assert(bufs(psi_list@) =~= secs.push(h));
    lemma_eit_head(gv, h, current_table_id, c);
    lemma_eit_empty(gv, Seq::empty(), secs, parts, h);
    parts = parts.push(Seq::empty());
    lemma_wires_ends(gv.entries);
    lemma_segment_first(gv, 0);
    gb = c as int / 8;
}
//@ at loop 2 entry
let ghost pl2 = psi_list@;
let ghost next2 = next_midnight;
let ghost i2 = vx_i2 as int - 1;
let ghost w = entry_wire(gv.entries[i2]);
let ghost l2 = bufs(pl2).last().len() - 14;
let ghost ok = starts(gv.entries[i2]) < next_midnight && w.len() + l2 >= 4078;
proof {
    assert(gv.entries[i2] == self.items@[i2].ev());
    lemma_table_entry(Tab::Eit, gv, i2);
    lemma_schedule(gv, i2);
    lemma_wires_take(gv.entries, i2);
    lemma_last_buf(pl2);
    lemma_eit_len(gv, ws.subrange(0, i2), bufs(pl2), parts, pl2.len() - 1);
    lemma_segment_range(gv, gs, i2, gk, l2);
    lemma_next_base(gb, gk);
    if ok { lemma_segment_open(gv, gs, i2, gk, l2); }
}
//@ at continue 0
proof {
    if psi_list@.len() == pl2.len() {
        assert(bufs(psi_list@) =~= bufs(pl2).update(pl2.len() - 1, bufs(pl2).last() + w));
        lemma_eit_grow(gv, ws.subrange(0, i2), bufs(pl2), parts, w, bufs(psi_list@));
        parts = parts.update(parts.len() - 1, parts.last().push(w));
        lemma_segment_grow(gv, gs, i2, gk, l2);
    } else {
        let h = h0.update(0, current_table_id).update(6, current_section);
        lemma_eit_head(gv, h, current_table_id, current_section);
        assert(bufs(psi_list@) =~= bufs(pl2).push(h + w));
        lemma_eit_event(gv, ws.subrange(0, i2), bufs(pl2), parts, h, w);
        lemma_eit_more(gv, h, Seq::empty(), w);
        parts = parts.push(Seq::empty().push(w));
        if next_midnight == next2 {
            gk = gk + 1;
        } else {
            lemma_segment_next(gv, i2);
            gb = gb + 1;
            gk = 1;
            gs = i2;
        }
    }
}
//@ at continue 1
proof {
    if psi_list@.len() == pl2.len() {
        assert(bufs(psi_list@) =~= bufs(pl2).update(pl2.len() - 1, bufs(pl2).last() + w));
        lemma_eit_grow(gv, ws.subrange(0, i2), bufs(pl2), parts, w, bufs(psi_list@));
        parts = parts.update(parts.len() - 1, parts.last().push(w));
        lemma_segment_grow(gv, gs, i2, gk, l2);
    } else {
        let h = h0.update(0, current_table_id).update(6, current_section);
        lemma_eit_head(gv, h, current_table_id, current_section);
        assert(bufs(psi_list@) =~= bufs(pl2).push(h + w));
        lemma_eit_event(gv, ws.subrange(0, i2), bufs(pl2), parts, h, w);
        lemma_eit_more(gv, h, Seq::empty(), w);
        parts = parts.push(Seq::empty().push(w));
        if next_midnight == next2 {
            gk = gk + 1;
        } else {
            lemma_segment_next(gv, i2);
            gb = gb + 1;
            gk = 1;
            gs = i2;
        }
    }
}
//@ at loop 2 exit
proof {
    if psi_list@.len() == pl2.len() {
        assert(bufs(psi_list@) =~= bufs(pl2).update(pl2.len() - 1, bufs(pl2).last() + w));
        lemma_eit_grow(gv, ws.subrange(0, i2), bufs(pl2), parts, w, bufs(psi_list@));
        parts = parts.update(parts.len() - 1, parts.last().push(w));
        lemma_segment_grow(gv, gs, i2, gk, l2);
    } else {
        let h = h0.update(0, current_table_id).update(6, current_section);
        lemma_eit_head(gv, h, current_table_id, current_section);
        assert(bufs(psi_list@) =~= bufs(pl2).push(h + w));
        lemma_eit_event(gv, ws.subrange(0, i2), bufs(pl2), parts, h, w);
        lemma_eit_more(gv, h, Seq::empty(), w);
        parts = parts.push(Seq::empty().push(w));
        if next_midnight == next2 {
            gk = gk + 1;
        } else {
            lemma_segment_next(gv, i2);
            gb = gb + 1;
            gk = 1;
            gs = i2;
        }
    }
}
//@ loop 3
    invariant
        vx_i3 <= psi_list@.len() == open.len(),
        0x50 <= gv.id < 0x70,
        cur == bufs(psi_list@),
        eit_closing(gv, open, parts, vx_i3 as int, cur),
        vx_i3 == 0 ==> current_table_id == 0,
        vx_i3 > 0 ==> current_table_id == open[open.len() - vx_i3][0] && open[open.len() - vx_i3][6] <= last_section_number && last_section_number == cur[open.len() - vx_i3][7],
        forall|j: int| 0 <= j < psi_list@.len() - vx_i3 ==> (#[trigger] psi_list@[j]).size == 0,
        forall|j: int| psi_list@.len() - vx_i3 <= j < psi_list@.len() ==> (#[trigger] psi_list@[j]).size == psi_list@[j].buffer@.len(),
    decreases psi_list@.len() - vx_i3,
//@ at before loop 3
let ghost open = bufs(psi_list@);
let ghost mut cur = open;
proof { lemma_wires_ends(gv.entries); lemma_closing_first(gv, open, parts); }
//@ at loop 3 entry
let ghost i3 = vx_i3 as int - 1;
let ghost k3 = open.len() - 1 - i3;
proof { lemma_closing_next(gv, open, parts, i3, cur); assert(psi.buffer@ == open[k3]); }
//@ at loop 3 exit
proof {
    let z = last_section_number;
    let sl = open[k3][6];
    let sb = open[k3].update(7, z).update(12, sl).update(13, last_table_id);
    lemma_eit_finish(gv, open[k3], parts[k3], z, sl, last_table_id, sb);
    lemma_finish_ext(sb);
    assert(bufs(psi_list@) =~= cur.update(k3, finish(sb)));
    lemma_closing_put(gv, open, parts, i3, cur, bufs(psi_list@), finish(sb));
    cur = bufs(psi_list@);
}
//@ at after loop 3
proof { lemma_closing_last(gv, open, parts, cur); }
//@ fn PsiDemux for Eit::finalize
    ensures *final(_psi) == *old(_psi),
//@ fn PsiDemux for Eit::demux
    requires
        eit_fits(self.tv()),
        pid < 8192,
        *old(cc) < 16,
        old(dst)@.len() + (self.items@.len() + 9) * 4512 <= usize::MAX,
    ensures eit_sent(self.tv(), pid as int, *old(cc) as int, *final(cc) as int, old(dst)@, final(dst)@),
//@ at entry
let ghost v = self.tv();
let ghost cc0 = *old(cc) as int;
let ghost d0 = old(dst)@;
//@ loop 0
    invariant
        vx_i0 <= psi_list@.len() == secs.len(),
        secs.len() <= self.items@.len() + 9,
        forall|j: int| 0 <= j < secs.len() ==> 18 <= (#[trigger] secs[j]).len() <= 4096,
        forall|j: int| vx_i0 <= j < secs.len() ==> (#[trigger] psi_list@[j]).buffer@ == secs[j] && psi_list@[j].size == secs[j].len(),
        flow(d0, dst@, secs, vx_i0 as int, pid as int, cc0, *cc as int),
        0 <= *cc < 16,
    decreases psi_list@.len() - vx_i0,
//@ at after let psi_list
let ghost secs = bufs(psi_list@);
proof {
    lemma_eit_count(v, secs);
    assert(v.entries.len() == self.items@.len());
    lemma_flow_start(d0, secs, pid as int, cc0);
    if secs.len() == 0 { lemma_eit_sent(v, secs, pid as int, cc0, cc0, d0, d0); }
}
//@ at loop 0 entry
let ghost i0 = vx_i0 as int - 1;
let ghost dst0 = dst@;
let ghost c0 = *cc as int;
proof {
    assert(psi.buffer@ == secs[i0]);
    lemma_flow_room(d0, dst0, secs, i0, pid as int, cc0, c0, self.items@.len() as int + 8, usize::MAX as int);
}
//@ at loop 0 exit
proof { lemma_flow_step(d0, dst0, dst@, secs, i0, pid as int, cc0, c0, *cc as int, secs[i0], secs[i0].len() as int); }
//@ at after loop 0
proof { lemma_eit_sent(v, secs, pid as int, cc0, *cc as int, d0, dst@); }
'''


def text(d):
    t = d['t']
    first = d['ds'] is not None
    init = 'if first { self.tv().ds } else { Seq::empty() }' if first else 'Seq::empty()'
    sub = {
        'PARSE': PARSE_FIXED if t == 'Pat' else PARSE_SIZED,
        'INITREQ': {'Pmt': ', self.pcr < 8192', }.get(t, '') + (', list_fits(self.tv().ds), list_wire(self.tv().ds).len() <= 1008' if first else ''),
        'INITDS': init,
        'CLOSE': '' if t == 'Nit' else ' lemma_laid_close(Tab::T, v, bufs(psi_list@), parts);',
        'LOOP1': NIT_LOOP if t == 'Nit' else '',
        'ITEMDEF': 'true' if t == 'Pat' else 'r.descriptors.dv().len() == 0',
        'ITEMPARSE': '' if t == 'Pat' else '''//@ at exit
proof { assert(Seq::<DescV>::empty() + list_of(from(slice@, H)) =~= list_of(from(slice@, H))); assert(vx_ret.descriptors.dv() =~= list_of(from(slice@, H))); }
''',
        'ITEMASM': ' lemma_datetime(self.start as int); lemma_duration(self.duration as int); lemma_time6(self.start as int);' if t == 'Eit' else '',
        'DSDEF': ' assert(vx_ret.tv().ds =~= Seq::<DescV>::empty());',
        'FIELDS': d['fields'], 'ID': d['id'], 'EXT': d['ext'], 'YY': d['y'], 'ZZ': d.get('z', '0'), 'DSV': d['ds'] or 'Seq::empty()',
        'HEAD': 'head_len(Tab::T)', 'BROADCAST': 'crate::spec::group_bits, crate::spec::group_or',
        'MOD': d['mod'],
    }
    s = TEXT
    if t == 'Eit':
        a = s.index('//@ fn PsiDemux for T::psi_list_assemble')
        b = s.index('//@ flatten From<&Psi>')
        s = s[:a] + EIT_BUILD + s[b:]
    for k in sorted(sub, key=len, reverse=True):
        s = s.replace(k, sub[k])
    import re
    s = re.sub(r'\bG\b', 'tab_group(Tab::T)', s)
    s = re.sub(r'\bH\b', str(d['h']), s)
    s = re.sub(r'\bT(?=Item\b|\b)', t, s)
    if t == 'Pmt':
        s += PMT_EXTRA
    return s


out = pathlib.Path(__file__).resolve().parent.parent / 'contracts/60_tables.vc'
out.write_text('\n'.join(text(d) for d in TABS))
