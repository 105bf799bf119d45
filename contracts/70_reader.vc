//@ module reader
//@ prelude
broadcast use {crate::spec::lemma_scan_step, crate::spec::lemma_fill_step, crate::spec::lemma_took};
//@ inside trait TsRead
    /// packets and faults still to come
    spec fn left(&self) -> Seq<Found>;
//@ fn trait TsRead::read
    requires old(packet)@.len() >= 188,
    ensures
        final(packet)@.len() == old(packet)@.len(),
        forall|i: int| 188 <= i < old(packet)@.len() ==> final(packet)@[i] == #[trigger] old(packet)@[i],
        r matches Ok(n) ==> n == 0 || n == 188,
        took_one(old(self).left(), final(self).left(), outcome_of(r, final(packet)@)),
//@ inside TsReader
    /// what the source is going to deliver
    pub closed spec fn source(&self) -> Seq<Event> { self.inner.events() }
//@ fn TsReader::new
    ensures r.source() == inner.events(),
//@ fn TsReader::get_ref
    ensures r.events() == self.source(),
//@ fn TsReader::into_inner
    ensures r.events() == self.source(),
//@ fn TsReader::parse
    requires packet@.len() >= 3,
    ensures final(self).source() == old(self).source(),
//@ inside TsRead for TsReader<R>
    closed spec fn left(&self) -> Seq<Found> { packets_of(self.source()) }
//@ fn TsRead for TsReader<R>::read
    ensures read_ends(old(self).source(), final(self).source(), outcome_of(r, final(packet)@)),
//@ at entry
    let ghost s0 = self.inner.events();
    proof { lemma_scan_start(s0); }
//@ loop 0
    invariant
        skip == 0 || skip == 1,
        s0 == old(self).inner.events(),
        packet@.len() == old(packet)@.len(), packet@.len() >= 188,
        forall|i: int| 188 <= i < old(packet)@.len() ==> packet@[i] == #[trigger] old(packet)@[i],
        skip == 0 ==> scanned_to(s0, self.inner.events()),
        skip == 1 ==> filled_to(s0, self.inner.events(), packet@.take(1)),
    decreases self.inner.events().len() + 1 - skip,
//@ at loop 0 exit
    assert(packet@.take(1) =~= packet@.subrange(0, 1));
//@ loop 1
    invariant
        1 <= skip <= 188,
        s0 == old(self).inner.events(),
        packet@.len() == old(packet)@.len(), packet@.len() >= 188,
        forall|i: int| 188 <= i < old(packet)@.len() ==> packet@[i] == #[trigger] old(packet)@[i],
        filled_to(s0, self.inner.events(), packet@.take(skip as int)),
    decreases self.inner.events().len(),
//@ at loop 1 entry
    let ghost pk = packet@.take(skip as int);
    let ghost at0 = skip as int;
//@ at loop 1 exit
    assert(packet@.take(skip as int) =~= pk + packet@.subrange(at0, 188).take(skip - at0));
//@ at after loop 1
    proof { lemma_fill_end(s0, self.inner.events(), packet@.take(188)); }
//@ module reader::drain
//@ prelude
broadcast use {crate::spec::lemma_spread, crate::spec::lemma_got_none, crate::spec::axiom_slice_source, crate::spec::lemma_given};
//@ flatten Read for TsDrain<R>
//@ inside TsDrain
    pub closed spec fn sound(&self) -> bool { self.buf@.len() == 188 && self.pos < 188 }
    /// bytes and faults still to come: the rest of the packet at hand, then the packets
    pub closed spec fn stream(&self) -> Seq<Event> {
        if self.pos == 0 { spread_out(self.inner.left()) } else { as_events(self.buf@.skip(self.pos as int)) + spread_out(self.inner.left()) }
    }
//@ fn TsDrain::new
    ensures
        r.sound(),
        r.stream() == spread_out(inner.left()),
//@ fn Read for TsDrain<R>::read
    requires old(self).sound(),
    ensures
        final(self).sound(),
        final(buf)@.len() == old(buf)@.len(),
        got_some(r, old(self).stream(), final(self).stream(), old(buf)@.len() as int, final(buf)@),
//@ at exit
proof {
    if let Ok(n) = vx_ret {
        let i = old(self).pos as int;
        if 0 < n && n <= 188 - i && n <= buf@.len() && forall|k: int| 0 <= k < n ==> #[trigger] buf@[k] == self.buf@[i + k] {
            lemma_copied(self.buf@, i, n, buf@.len() as int, buf@, self.inner.left());
        }
    }
}
