//@ module psi::tdt
//@ prelude
broadcast use {crate::spec::group_bits, crate::spec::group_or};

//@ fn Default for Tdt::default
    ensures r.time == 0,
//@ fn Tdt::check
    ensures r == tdt_accepts(psi.buffer@, psi.size as int),
//@ fn Tdt::parse
    ensures
        tdt_accepts(psi.buffer@, psi.size as int) ==> final(self).time == utc_of(psi.buffer@),
        !tdt_accepts(psi.buffer@, psi.size as int) ==> final(self).time == old(self).time,
//@ fn PsiDemux for Tdt::psi_list_assemble
    requires self.time <= 2155593599,
    ensures r@.len() == 1, r@[0].buffer@ == tdt_wire(self.time as int), r@[0].size == 0,
//@ at entry
proof { lemma_datetime(self.time as int); lemma_time6(self.time as int); reveal(byte); }
//@ at exit
proof { assert(vx_ret@[0].buffer@ =~= tdt_wire(self.time as int)); }
//@ fn PsiDemux for Tdt::finalize
    ensures *final(_psi) == *old(_psi),
//@ fn PsiDemux for Tdt::demux
    requires self.time <= 2155593599, pid < 8192, *old(cc) < 16, old(dst)@.len() <= usize::MAX - 188 * 24,
    ensures
        final(dst)@ == old(dst)@ + packets(tdt_wire(self.time as int), pid as int, *old(cc) as int),
        *final(cc) == (*old(cc) + packet_count(8)) % 16,
//@ at entry
proof {
    lemma_tdt_back(self.time as int);
    assert(tdt_wire(self.time as int).subrange(0, 8) =~= tdt_wire(self.time as int));
}
//@ flatten From<&Psi> for Tdt
//@ fn From<&Psi> for Tdt::from
    ensures
        tdt_accepts(psi.buffer@, psi.size as int) ==> r.time == utc_of(psi.buffer@),
        !tdt_accepts(psi.buffer@, psi.size as int) ==> r.time == 0,

//@ module psi::tot
//@ prelude
broadcast use {crate::spec::group_bits, crate::spec::group_or};

//@ fn Default for Tot::default
    ensures r.time == 0, r.descriptors.dv().len() == 0,
//@ fn Tot::check
    requires psi.size > 0 ==> psi.buffer@.len() > 0,
    ensures r == tot_accepts(psi.buffer@, psi.size as int),
//@ fn Tot::parse
    requires psi.size > 0 ==> psi.buffer@.len() > 0, psi.size <= 0x1000_0000,
    ensures
        tot_accepts(psi.buffer@, psi.size as int) ==> final(self).time == utc_of(psi.buffer@)
            && final(self).descriptors.dv() == tot_list(old(self).descriptors.dv(), psi.buffer@, psi.size as int),
        !tot_accepts(psi.buffer@, psi.size as int) ==> *final(self) == *old(self),
//@ fn PsiDemux for Tot::psi_list_assemble
    requires self.time <= 2155593599, tot_fits(self.descriptors.dv()),
    ensures r@.len() == 1, r@[0].buffer@ == tot_open(self.time as int, self.descriptors.dv()), r@[0].size == 0,
//@ at entry
proof { lemma_datetime(self.time as int); lemma_time6(self.time as int); reveal(byte); }
//@ at exit
proof { assert(vx_ret@[0].buffer@ =~= tot_open(self.time as int, self.descriptors.dv())); }
//@ fn PsiDemux for Tot::finalize
    ensures *final(_psi) == *old(_psi),
//@ fn PsiDemux for Tot::demux
    requires self.time <= 2155593599, tot_fits(self.descriptors.dv()), pid < 8192, *old(cc) < 16, old(dst)@.len() <= usize::MAX - 188 * 24,
    ensures
        final(dst)@ == old(dst)@ + packets(finish(tot_open(self.time as int, self.descriptors.dv())), pid as int, *old(cc) as int),
        *final(cc) == (*old(cc) + packet_count(14 + list_wire(self.descriptors.dv()).len() as int)) % 16,
//@ at entry
let ghost f = finish(tot_open(self.time as int, self.descriptors.dv()));
proof {
    lemma_tot_back(self.time as int, self.descriptors.dv());
    assert(f.subrange(0, f.len() as int) =~= f);
}
//@ flatten From<&Psi> for Tot
//@ fn From<&Psi> for Tot::from
    requires psi.size > 0 ==> psi.buffer@.len() > 0, psi.size <= 0x1000_0000,
    ensures
        tot_accepts(psi.buffer@, psi.size as int) ==> r.time == utc_of(psi.buffer@)
            && r.descriptors.dv() == tot_list(Seq::empty(), psi.buffer@, psi.size as int),
        !tot_accepts(psi.buffer@, psi.size as int) ==> r.time == 0 && r.descriptors.dv().len() == 0,
//@ at entry
proof { assert forall|s: Seq<DescV>| s.len() == 0 implies s =~= Seq::<DescV>::empty() by {} }
