//@ module psi::descriptors
//@ drop trait AsAny
//@ drop AsAny for T
//@ prelude
pub open spec fn dvs(s: Seq<Descriptor>) -> Seq<DescV> { s.map_values(|d: Descriptor| d.dv()) }

impl Descriptor {
    pub open spec fn dv(&self) -> DescV { self.0.dv() }
}

impl Descriptors {
    pub open spec fn dv(&self) -> Seq<DescV> { dvs(self.0@) }
}

impl<T: 'static + Desc> vstd::std_specs::convert::FromSpecImpl<T> for Descriptor {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: T) -> Descriptor { arbitrary() }
}

/// `x.as_any_ref().downcast_ref::<T>()`: the object itself if it has that type
#[verifier::external_body]
pub fn vx_downcast_ref<T: 'static + Desc>(x: &Box<dyn Desc>) -> (r: Option<&T>)
    ensures r is Some <==> T::kind(x.dv()), r matches Some(y) ==> y.dv() == x.dv(),
{ unimplemented!() }
//@ inside trait Desc
    spec fn dv(&self) -> DescV;
    /// values of this type
    spec fn kind(d: DescV) -> bool where Self: Sized;
//@ fn trait Desc::tag
    ensures r == desc_tag(self.dv()),
//@ fn trait Desc::size
    requires desc_fits(self.dv()),
    ensures r == desc_wire(self.dv()).len(),
//@ fn trait Desc::assemble
    requires desc_fits(self.dv()), old(buffer)@.len() <= 0x1000_0000,
    ensures final(buffer)@ == old(buffer)@ + desc_wire(self.dv()),

//@ fn Clone for Descriptor::clone
    ensures r.dv() == self.dv(),
//@ fn From<T> for Descriptor::from
    ensures r.dv() == desc.dv(),
//@ trusted boxing keeps the object: the verifier loses the link between a value and the same value as a trait object
//@ fn Descriptor::parse
    requires gfit(g_desc(), slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Descriptor::assemble
    requires desc_fits(self.dv()), old(buffer)@.len() <= 0x1000_0000,
    ensures final(buffer)@ == old(buffer)@ + desc_wire(self.dv()),
//@ fn Descriptor::size
    requires desc_fits(self.dv()),
    ensures r == desc_wire(self.dv()).len(),
//@ fn Descriptor::tag
    ensures r == desc_tag(self.dv()),
//@ fn Descriptor::downcast_ref
    requires T::kind(self.dv()),
    ensures r.dv() == self.dv(),
//@ fn Descriptor::downcast_mut
//@ skip mutable access to a trait object, not used by the crate
//@ fn Default for Descriptors::default
    ensures r.dv().len() == 0,
//@ fn Clone for Descriptors::clone
    ensures r.dv() == self.dv(),
//@ at exit
proof { assert(vx_ret.dv() =~= self.dv()); }
//@ fn Descriptors::parse
    requires slice@.len() <= 0x1000_0000,
    ensures final(self).dv() == old(self).dv() + list_of(slice@),
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
//@ loop 0
    invariant
        skip <= slice@.len() <= 0x1000_0000,
        self.dv() == old(self).dv() + descs_of(done),
        done + split(g_desc(), from(slice@, skip as int)) == split(g_desc(), slice@),
    decreases slice@.len() - skip,
//@ at before loop 0
proof {
    assert(from(slice@, 0) =~= slice@);
    assert(self.dv() =~= old(self).dv() + descs_of(done));
    assert(done + split(g_desc(), slice@) =~= split(g_desc(), slice@));
}
//@ at loop 0 entry
let ghost items0 = self.0@;
let ghost skip0 = skip as int;
proof {
    assert(from(slice@, skip0)[1] == slice@[skip0 + 1]);
    if glen(g_desc(), from(slice@, skip0)) <= slice@.len() - skip0 { lemma_split_step(g_desc(), slice@, skip0); }
    else { lemma_split_end(g_desc(), slice@, skip0); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
}
//@ at after call push
proof {
    let g = slice@.subrange(skip0, next as int);
    assert(dvs(self.0@) =~= dvs(items0).push(desc_of(g)));
    assert(descs_of(done.push(g)) =~= descs_of(done).push(desc_of(g)));
    assert(self.dv() =~= old(self).dv() + descs_of(done.push(g)));
    assert(done + (Seq::empty().push(g) + split(g_desc(), from(slice@, next as int))) =~= done.push(g) + split(g_desc(), from(slice@, next as int)));
    done = done.push(g);
}
//@ at after loop 0
proof {
    if slice@.len() - skip < 2 { lemma_split_end(g_desc(), slice@, skip as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
}
//@ fn Descriptors::assemble
    requires list_fits(self.dv()), old(buffer)@.len() + list_wire(self.dv()).len() <= 0x1000_0000,
    ensures
        final(buffer)@ == old(buffer)@ + list_wire(self.dv()),
        r == list_wire(self.dv()).len(),
//@ at entry
hide(desc_wire);
hide(desc_fits);
let ghost ws = desc_wires(self.dv());
proof { lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.0@.len(),
        buffer@ == old(buffer)@ + flat(ws.subrange(0, vx_i0 as int)),
        ws == desc_wires(self.dv()),
        list_fits(self.dv()),
        old(buffer)@.len() + flat(ws).len() <= 0x1000_0000,
    decreases self.0@.len() - vx_i0,
//@ at before loop 0
proof { assert(buffer@ =~= old(buffer)@ + flat(ws.subrange(0, 0))); }
//@ at loop 0 entry
proof {
    assert(desc_fits(self.dv()[vx_i0 - 1]));
    lemma_flat_take(ws, vx_i0 - 1);
    lemma_flat_take_le(ws, vx_i0 as int);
}
//@ at loop 0 exit
proof { assert(buffer@ =~= old(buffer)@ + flat(ws.subrange(0, vx_i0 as int))); }
//@ fn Descriptors::size
    requires list_fits(self.dv()), list_wire(self.dv()).len() <= 0x1000_0000,
    ensures r == list_wire(self.dv()).len(),
//@ at entry
hide(desc_wire);
hide(desc_fits);
let ghost ws = desc_wires(self.dv());
proof { lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.0@.len(),
        vx_acc0 == flat(ws.subrange(0, vx_i0 as int)).len(),
        ws == desc_wires(self.dv()),
        list_fits(self.dv()),
        flat(ws).len() <= 0x1000_0000,
    decreases self.0@.len() - vx_i0,
//@ at loop 0 entry
proof {
    assert(desc_fits(self.dv()[vx_i0 - 1]));
    lemma_flat_take(ws, vx_i0 - 1);
    lemma_flat_take_le(ws, vx_i0 as int);
}
//@ fn Descriptors::is_empty
    ensures r == (self.dv().len() == 0),
//@ fn Descriptors::len
    ensures r == self.dv().len(),
//@ fn Descriptors::get
    ensures
        *final(self) == *old(self),
        index < old(self).dv().len() ==> (r matches Some(d) && d.dv() == old(self).dv()[index as int]),
        index >= old(self).dv().len() ==> r is None,
//@ fn Descriptors::get_mut
//@ skip mutable access to a trait object, not used by the crate
//@ fn Descriptors::push
    ensures
        final(self).0@.len() == old(self).0@.len() + 1,
        final(self).0@.drop_last() == old(self).0@,
        call_ensures(<T as Into<Descriptor>>::into, (desc,), final(self).0@.last()),
//@ at exit
proof { assert(self.0@.drop_last() =~= old(self).0@); }
//@ fn Descriptors::iter
//@ skip inlined where it is used

//@ module psi::descriptors::raw
//@ prelude

//@ inside Desc for DescRaw
    open spec fn dv(&self) -> DescV { DescV::Raw { tag: self.tag, data: self.data@ } }
    open spec fn kind(d: DescV) -> bool { d is Raw }
//@ fn Default for DescRaw::default
    ensures true,
//@ fn Clone for DescRaw::clone
    ensures r.dv() == self.dv(),
//@ fn DescRaw::parse
    requires gfit(g_desc(), slice@),
    ensures r.dv() == (DescV::Raw { tag: slice@[0], data: from(slice@, 2) }),
//@ at exit
proof { assert(vx_ret.data@ =~= from(slice@, 2)); }
//@ fn Desc for DescRaw::tag
//@ fn Desc for DescRaw::size
//@ fn Desc for DescRaw::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x09
//@ prelude
broadcast use {crate::spec::group_mask, crate::spec::group_or};

//@ inside Desc for Desc09
    open spec fn dv(&self) -> DescV { DescV::D09 { caid: self.caid, pid: self.pid, data: self.data@ } }
    open spec fn kind(d: DescV) -> bool { d is D09 }
//@ fn Default for Desc09::default
    ensures true,
//@ fn Clone for Desc09::clone
    ensures r.dv() == self.dv(),
//@ fn Desc09::check
    requires tagged(slice@, 0x09),
    ensures r == desc_layout(slice@),
//@ fn Desc09::parse
    requires tagged(slice@, 0x09), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc09::tag
//@ fn Desc for Desc09::size
//@ fn Desc for Desc09::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x0e
//@ prelude
broadcast use {crate::spec::group_mask, crate::spec::group_or};

//@ inside Desc for Desc0E
    open spec fn dv(&self) -> DescV { DescV::D0E { bitrate: self.bitrate } }
    open spec fn kind(d: DescV) -> bool { d is D0E }
//@ fn Default for Desc0E::default
    ensures true,
//@ fn Clone for Desc0E::clone
    ensures r.dv() == self.dv(),
//@ fn Desc0E::check
    requires tagged(slice@, 0x0E),
    ensures r == desc_layout(slice@),
//@ fn Desc0E::parse
    requires tagged(slice@, 0x0E), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc0E::tag
//@ fn Desc for Desc0E::size
//@ fn Desc for Desc0E::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x40
//@ prelude

//@ inside Desc for Desc40
    open spec fn dv(&self) -> DescV { DescV::D40 { name: self.name.tv() } }
    open spec fn kind(d: DescV) -> bool { d is D40 }
//@ fn Default for Desc40::default
    ensures true,
//@ fn Clone for Desc40::clone
    ensures r.dv() == self.dv(),
//@ fn Desc40::check
    requires tagged(slice@, 0x40),
    ensures r == desc_layout(slice@),
//@ fn Desc40::parse
    requires tagged(slice@, 0x40), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc40::tag
//@ fn Desc for Desc40::size
//@ fn Desc for Desc40::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x43
//@ prelude
broadcast use {crate::spec::group_mask, crate::spec::group_or};

//@ inside Desc for Desc43
    open spec fn dv(&self) -> DescV { 
        DescV::D43 { v: SatV {
            frequency: self.frequency, position: self.orbital_position, east: self.west_east_flag, polarization: self.polarization,
            rof: self.rof, s2: self.s2, modulation: self.modulation, symbol_rate: self.symbol_rate, fec: self.fec } }
     }
    open spec fn kind(d: DescV) -> bool { d is D43 }
//@ fn Default for Desc43::default
    ensures true,
//@ fn Clone for Desc43::clone
    ensures r.dv() == self.dv(),
//@ fn Desc43::check
    requires tagged(slice@, 0x43),
    ensures r == desc_layout(slice@),
//@ fn Desc43::parse
    requires tagged(slice@, 0x43), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc43::tag
//@ fn Desc for Desc43::size
//@ fn Desc for Desc43::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x44
//@ prelude
broadcast use {crate::spec::group_mask, crate::spec::group_or};

//@ inside Desc for Desc44
    open spec fn dv(&self) -> DescV { 
        DescV::D44 { v: CableV {
            frequency: self.frequency, fec_outer: self.fec_outer, modulation: self.modulation, symbol_rate: self.symbol_rate, fec: self.fec } }
     }
    open spec fn kind(d: DescV) -> bool { d is D44 }
//@ fn Default for Desc44::default
    ensures true,
//@ fn Clone for Desc44::clone
    ensures r.dv() == self.dv(),
//@ fn Desc44::check
    requires tagged(slice@, 0x44),
    ensures r == desc_layout(slice@),
//@ fn Desc44::parse
    requires tagged(slice@, 0x44), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc44::tag
//@ fn Desc for Desc44::size
//@ fn Desc for Desc44::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x48
//@ prelude

//@ inside Desc for Desc48
    open spec fn dv(&self) -> DescV { DescV::D48 { kind: self.service_type, provider: self.provider.tv(), name: self.name.tv() } }
    open spec fn kind(d: DescV) -> bool { d is D48 }
//@ fn Default for Desc48::default
    ensures true,
//@ fn Clone for Desc48::clone
    ensures r.dv() == self.dv(),
//@ fn Desc48::check
    requires tagged(slice@, 0x48),
    ensures r == desc_layout(slice@),
//@ fn Desc48::parse
    requires tagged(slice@, 0x48), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc48::tag
//@ fn Desc for Desc48::size
//@ fn Desc for Desc48::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x4d
//@ prelude

//@ inside Desc for Desc4D
    open spec fn dv(&self) -> DescV { DescV::D4D { lang: self.lang.tv(), name: self.name.tv(), text: self.text.tv() } }
    open spec fn kind(d: DescV) -> bool { d is D4D }
//@ fn Default for Desc4D::default
    ensures true,
//@ fn Clone for Desc4D::clone
    ensures r.dv() == self.dv(),
//@ fn Desc4D::check
    requires tagged(slice@, 0x4D),
    ensures r == desc_layout(slice@),
//@ fn Desc4D::parse
    requires tagged(slice@, 0x4D), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc4D::tag
//@ fn Desc for Desc4D::size
//@ fn Desc for Desc4D::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x52
//@ prelude

//@ inside Desc for Desc52
    open spec fn dv(&self) -> DescV { DescV::D52 { tag: self.tag } }
    open spec fn kind(d: DescV) -> bool { d is D52 }
//@ fn Default for Desc52::default
    ensures true,
//@ fn Clone for Desc52::clone
    ensures r.dv() == self.dv(),
//@ fn Desc52::check
    requires tagged(slice@, 0x52),
    ensures r == desc_layout(slice@),
//@ fn Desc52::parse
    requires tagged(slice@, 0x52), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc52::tag
//@ fn Desc for Desc52::size
//@ fn Desc for Desc52::assemble
//@ at entry
proof { reveal(byte); }
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x5a
//@ prelude
broadcast use {crate::spec::group_mask, crate::spec::group_or};

//@ inside Desc for Desc5A
    open spec fn dv(&self) -> DescV { 
        DescV::D5A { v: TerrV {
            frequency: self.frequency, bandwidth: self.bandwidth, priority: self.priority, time_slicing: self.time_slicing, mpe_fec: self.mpe_fec,
            modulation: self.modulation, hierarchy: self.hierarchy, rate_hp: self.code_rate_hp, rate_lp: self.code_rate_lp,
            guard: self.guard_interval, mode: self.transmission, other: self.other_frequency_flag } }
     }
    open spec fn kind(d: DescV) -> bool { d is D5A }
//@ fn Default for Desc5A::default
    ensures true,
//@ fn Clone for Desc5A::clone
    ensures r.dv() == self.dv(),
//@ fn Desc5A::check
    requires tagged(slice@, 0x5A),
    ensures r == desc_layout(slice@),
//@ fn Desc5A::parse
    requires tagged(slice@, 0x5A), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Desc for Desc5A::tag
//@ fn Desc for Desc5A::size
//@ fn Desc for Desc5A::assemble
//@ at exit
proof {
    assert(put32(0xFFFF_FFFF) =~= Seq::empty().push(0xFFu8).push(0xFFu8).push(0xFFu8).push(0xFFu8)) by { reveal(byte); }
    let b = from(buffer@, old(buffer)@.len() as int);
    assert(b.subrange(9, 13) =~= put32(0xFFFF_FFFF));
    assert forall|i: int| 9 <= i < 13 implies b[i] == 0xFF by { assert(b[i] == b.subrange(9, 13)[i - 9]); }
    assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv()));
}

//@ module psi::descriptors::x0a
//@ prelude
impl Desc0Ai {
    pub open spec fn v(&self) -> LangV { LangV { code: self.code.tv(), kind: self.audio_type } }
}
pub open spec fn items_v(s: Seq<Desc0Ai>) -> Seq<LangV> { s.map_values(|x: Desc0Ai| x.v()) }
//@ inside Desc for Desc0A
    open spec fn dv(&self) -> DescV { DescV::D0A { items: items_v(self.items@) } }
    open spec fn kind(d: DescV) -> bool { d is D0A }
//@ fn Clone for Desc0Ai::clone
    ensures r.v() == self.v(),
//@ fn Default for Desc0A::default
    ensures r.items@.len() == 0,
//@ fn Clone for Desc0A::clone
    ensures r.dv() == self.dv(),
//@ at exit
proof { assert(items_v(vx_ret.items@) =~= items_v(self.items@)); }
//@ fn Desc0A::check
    requires tagged(slice@, 0x0A),
    ensures r == desc_layout(slice@),
//@ fn Desc0A::parse
    requires tagged(slice@, 0x0A), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
//@ loop 0
    invariant
        2 <= skip <= slice@.len(),
        (slice@.len() - skip) % 4 == 0,
        slice@.len() <= 257,
        items_v(result.items@) == langs_of(done),
        done + split(4, from(slice@, skip as int)) == split(4, from(slice@, 2)),
    decreases slice@.len() - skip,
//@ at before loop 0
proof { assert(items_v(result.items@) =~= langs_of(done)); assert(done + split(4, from(slice@, 2)) =~= split(4, from(slice@, 2))); }
//@ at loop 0 entry
let ghost items0 = result.items@;
let ghost skip0 = skip as int;
//@ at loop 0 exit
proof {
    let g = slice@.subrange(skip0, skip0 + 4);
    lemma_split_step(4, slice@, skip0);
    assert(result.items@.last().v() == lang_of(g)) by { assert(g.subrange(0, 3) =~= slice@.subrange(skip0, skip0 + 3)); }
    assert(result.items@.drop_last() =~= items0);
    assert(items_v(result.items@) =~= items_v(items0).push(lang_of(g)));
    assert(langs_of(done.push(g)) =~= langs_of(done).push(lang_of(g)));
    assert((done + (Seq::empty().push(g) + split(4, from(slice@, skip0 + 4)))) =~= (done.push(g) + split(4, from(slice@, skip0 + 4))));
    done = done.push(g);
}
//@ at after loop 0
proof { lemma_split_end(4, slice@, slice@.len() as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
//@ fn Desc for Desc0A::tag
//@ fn Desc for Desc0A::size
//@ at entry
proof { lemma_lang_len(items_v(self.items@)); }
//@ fn Desc for Desc0A::assemble
//@ at entry
let ghost n0 = old(buffer)@;
let ghost iv = items_v(self.items@);
let ghost ws = lang_wires(iv);
let ghost head = Seq::empty().push(desc_tag(self.dv())).push(desc_body(self.dv()).len() as u8);
proof { lemma_lang_len(iv); lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        buffer@ == n0 + head + flat(ws.subrange(0, vx_i0 as int)),
        flat(ws.subrange(0, vx_i0 as int)).len() == vx_i0 * 4,
        n0.len() <= 0x1000_0000,
        self.items@.len() * 4 <= 255,
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof { assert(buffer@ =~= n0 + head + flat(ws.subrange(0, 0))); }
//@ at loop 0 entry
let ghost b0 = buffer@;
proof { assert(lang_fits(iv[vx_i0 - 1])); }
//@ at loop 0 exit
proof {
    let x = iv[vx_i0 - 1];
    lemma_flat_take(ws, vx_i0 - 1);
    assert(buffer@ =~= b0 + lang_wire(x));
    assert(buffer@ =~= n0 + head + flat(ws.subrange(0, vx_i0 as int)));
}
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x41
//@ prelude
impl Desc41i {
    pub open spec fn v(&self) -> ServV { ServV { id: self.service_id, kind: self.service_type } }
}
pub open spec fn items_v(s: Seq<Desc41i>) -> Seq<ServV> { s.map_values(|x: Desc41i| x.v()) }
//@ inside Desc for Desc41
    open spec fn dv(&self) -> DescV { DescV::D41 { items: items_v(self.items@) } }
    open spec fn kind(d: DescV) -> bool { d is D41 }
//@ fn Clone for Desc41i::clone
    ensures r.v() == self.v(),
//@ fn Default for Desc41::default
    ensures r.items@.len() == 0,
//@ fn Clone for Desc41::clone
    ensures r.dv() == self.dv(),
//@ at exit
proof { assert(items_v(vx_ret.items@) =~= items_v(self.items@)); }
//@ fn Desc41::check
    requires tagged(slice@, 0x41),
    ensures r == desc_layout(slice@),
//@ fn Desc41::parse
    requires tagged(slice@, 0x41), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
//@ loop 0
    invariant
        2 <= skip <= slice@.len(),
        (slice@.len() - skip) % 3 == 0,
        slice@.len() <= 257,
        items_v(result.items@) == servs_of(done),
        done + split(3, from(slice@, skip as int)) == split(3, from(slice@, 2)),
    decreases slice@.len() - skip,
//@ at before loop 0
proof { assert(items_v(result.items@) =~= servs_of(done)); assert(done + split(3, from(slice@, 2)) =~= split(3, from(slice@, 2))); }
//@ at loop 0 entry
let ghost items0 = result.items@;
let ghost skip0 = skip as int;
//@ at loop 0 exit
proof {
    let g = slice@.subrange(skip0, skip0 + 3);
    lemma_split_step(3, slice@, skip0);
    assert(result.items@.last().v() == serv_of(g)) by {  }
    assert(result.items@.drop_last() =~= items0);
    assert(items_v(result.items@) =~= items_v(items0).push(serv_of(g)));
    assert(servs_of(done.push(g)) =~= servs_of(done).push(serv_of(g)));
    assert((done + (Seq::empty().push(g) + split(3, from(slice@, skip0 + 3)))) =~= (done.push(g) + split(3, from(slice@, skip0 + 3))));
    done = done.push(g);
}
//@ at after loop 0
proof { lemma_split_end(3, slice@, slice@.len() as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
//@ fn Desc for Desc41::tag
//@ fn Desc for Desc41::size
//@ at entry
proof { lemma_serv_len(items_v(self.items@)); }
//@ fn Desc for Desc41::assemble
//@ at entry
let ghost n0 = old(buffer)@;
let ghost iv = items_v(self.items@);
let ghost ws = serv_wires(iv);
let ghost head = Seq::empty().push(desc_tag(self.dv())).push(desc_body(self.dv()).len() as u8);
proof { lemma_serv_len(iv); lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        buffer@.len() == n0.len() + 2 + self.items@.len() * 3,
        skip == n0.len() + 2 + vx_i0 * 3,
        buffer@.subrange(0, skip as int) == n0 + head + flat(ws.subrange(0, vx_i0 as int)),
        flat(ws.subrange(0, vx_i0 as int)).len() == vx_i0 * 3,
        n0.len() <= 0x1000_0000,
        self.items@.len() * 3 <= 255,
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof { assert(buffer@.subrange(0, skip as int) =~= n0 + head + flat(ws.subrange(0, 0))); }
//@ at loop 0 entry
let ghost b0 = buffer@;
let ghost skip0 = skip as int;
proof { assert(true); }
//@ at loop 0 exit
proof {
    let x = iv[vx_i0 - 1];
    lemma_flat_take(ws, vx_i0 - 1);
    assert(buffer@.subrange(skip0, skip0 + 3) =~= serv_wire(x));
    assert(buffer@.subrange(0, skip as int) =~= b0.subrange(0, skip0) + buffer@.subrange(skip0, skip0 + 3));
    assert(buffer@.subrange(0, skip as int) =~= n0 + head + flat(ws.subrange(0, vx_i0 as int)));
}
//@ at exit
proof { assert(buffer@.subrange(0, skip as int) =~= buffer@); assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x58
//@ prelude
broadcast use {crate::spec::group_mask, crate::spec::group_or};
impl Desc58i {
    pub open spec fn v(&self) -> OffV { OffV { code: self.country_code.tv(), region: self.region_id, polarity: self.offset_polarity, offset: self.offset, change: self.time_of_change, next: self.next_offset } }
}
pub open spec fn items_v(s: Seq<Desc58i>) -> Seq<OffV> { s.map_values(|x: Desc58i| x.v()) }
//@ inside Desc for Desc58
    open spec fn dv(&self) -> DescV { DescV::D58 { items: items_v(self.items@) } }
    open spec fn kind(d: DescV) -> bool { d is D58 }
//@ fn Default for Desc58i::default
    ensures true,
//@ fn Clone for Desc58i::clone
    ensures r.v() == self.v(),
//@ fn Default for Desc58::default
    ensures r.items@.len() == 0,
//@ fn Clone for Desc58::clone
    ensures r.dv() == self.dv(),
//@ at exit
proof { assert(items_v(vx_ret.items@) =~= items_v(self.items@)); }
//@ fn Desc58::check
    requires tagged(slice@, 0x58),
    ensures r == desc_layout(slice@),
//@ fn Desc58::parse
    requires tagged(slice@, 0x58), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
//@ loop 0
    invariant
        2 <= skip <= slice@.len(),
        (slice@.len() - skip) % 13 == 0,
        slice@.len() <= 257,
        items_v(result.items@) == offs_of(done),
        done + split(13, from(slice@, skip as int)) == split(13, from(slice@, 2)),
    decreases slice@.len() - skip,
//@ at before loop 0
proof { assert(items_v(result.items@) =~= offs_of(done)); assert(done + split(13, from(slice@, 2)) =~= split(13, from(slice@, 2))); }
//@ at loop 0 entry
let ghost items0 = result.items@;
let ghost skip0 = skip as int;
//@ at loop 0 exit
proof {
    let g = slice@.subrange(skip0, skip0 + 13);
    lemma_split_step(13, slice@, skip0);
    assert(result.items@.last().v() == off_of(g)) by { assert(g.subrange(0, 3) =~= slice@.subrange(skip0, skip0 + 3)); }
    assert(result.items@.drop_last() =~= items0);
    assert(items_v(result.items@) =~= items_v(items0).push(off_of(g)));
    assert(offs_of(done.push(g)) =~= offs_of(done).push(off_of(g)));
    assert((done + (Seq::empty().push(g) + split(13, from(slice@, skip0 + 13)))) =~= (done.push(g) + split(13, from(slice@, skip0 + 13))));
    done = done.push(g);
}
//@ at after loop 0
proof { lemma_split_end(13, slice@, slice@.len() as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
//@ fn Desc for Desc58::tag
//@ fn Desc for Desc58::size
//@ at entry
proof { lemma_off_len(items_v(self.items@)); }
//@ fn Desc for Desc58::assemble
//@ at entry
let ghost n0 = old(buffer)@;
let ghost iv = items_v(self.items@);
let ghost ws = off_wires(iv);
let ghost head = Seq::empty().push(desc_tag(self.dv())).push(desc_body(self.dv()).len() as u8);
proof { lemma_off_len(iv); lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        buffer@ == n0 + head + flat(ws.subrange(0, vx_i0 as int)),
        flat(ws.subrange(0, vx_i0 as int)).len() == vx_i0 * 13,
        n0.len() <= 0x1000_0000,
        self.items@.len() * 13 <= 255,
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof { assert(buffer@ =~= n0 + head + flat(ws.subrange(0, 0))); }
//@ at loop 0 entry
let ghost b0 = buffer@;
proof { assert(off_fits(iv[vx_i0 - 1])); }
//@ at loop 0 exit
proof {
    let x = iv[vx_i0 - 1];
    lemma_flat_take(ws, vx_i0 - 1);
    let n = b0.len() as int;
    assert(buffer@.subrange(0, n) =~= b0);
    assert(buffer@.subrange(n, n + 3) =~= tw(x.code));
    assert(buffer@[n + 3] == x.region * 4 + 2 + x.polarity);
    assert(buffer@.subrange(n + 4, n + 6) =~= put16(time_enc4(x.offset as int)));
    assert(buffer@.subrange(n + 6, n + 8) =~= put16(mjd_enc(x.change as int)));
    assert(buffer@.subrange(n + 8, n + 11) =~= put24(time_enc6(x.change as int)));
    assert(buffer@.subrange(n + 11, n + 13) =~= put16(time_enc4(x.next as int)));
    assert(buffer@ =~= b0 + off_wire(x));
    assert(buffer@ =~= n0 + head + flat(ws.subrange(0, vx_i0 as int)));
}
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x83
//@ prelude
broadcast use {crate::spec::group_mask, crate::spec::group_or};
impl Desc83i {
    pub open spec fn v(&self) -> LcnV { LcnV { id: self.service_id, visible: self.visible, lcn: self.lcn } }
}
pub open spec fn items_v(s: Seq<Desc83i>) -> Seq<LcnV> { s.map_values(|x: Desc83i| x.v()) }
//@ inside Desc for Desc83
    open spec fn dv(&self) -> DescV { DescV::D83 { items: items_v(self.items@) } }
    open spec fn kind(d: DescV) -> bool { d is D83 }
//@ fn Clone for Desc83i::clone
    ensures r.v() == self.v(),
//@ fn Default for Desc83::default
    ensures r.items@.len() == 0,
//@ fn Clone for Desc83::clone
    ensures r.dv() == self.dv(),
//@ at exit
proof { assert(items_v(vx_ret.items@) =~= items_v(self.items@)); }
//@ fn Desc83::check
    requires tagged(slice@, 0x83),
    ensures r == desc_layout(slice@),
//@ fn Desc83::parse
    requires tagged(slice@, 0x83), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
//@ loop 0
    invariant
        2 <= skip <= slice@.len(),
        (slice@.len() - skip) % 4 == 0,
        slice@.len() <= 257,
        items_v(result.items@) == lcns_of(done),
        done + split(4, from(slice@, skip as int)) == split(4, from(slice@, 2)),
    decreases slice@.len() - skip,
//@ at before loop 0
proof { assert(items_v(result.items@) =~= lcns_of(done)); assert(done + split(4, from(slice@, 2)) =~= split(4, from(slice@, 2))); }
//@ at loop 0 entry
let ghost items0 = result.items@;
let ghost skip0 = skip as int;
//@ at loop 0 exit
proof {
    let g = slice@.subrange(skip0, skip0 + 4);
    lemma_split_step(4, slice@, skip0);
    assert(result.items@.last().v() == lcn_of(g)) by {  }
    assert(result.items@.drop_last() =~= items0);
    assert(items_v(result.items@) =~= items_v(items0).push(lcn_of(g)));
    assert(lcns_of(done.push(g)) =~= lcns_of(done).push(lcn_of(g)));
    assert((done + (Seq::empty().push(g) + split(4, from(slice@, skip0 + 4)))) =~= (done.push(g) + split(4, from(slice@, skip0 + 4))));
    done = done.push(g);
}
//@ at after loop 0
proof { lemma_split_end(4, slice@, slice@.len() as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
//@ fn Desc for Desc83::tag
//@ fn Desc for Desc83::size
//@ at entry
proof { lemma_lcn_len(items_v(self.items@)); }
//@ fn Desc for Desc83::assemble
//@ at entry
let ghost n0 = old(buffer)@;
let ghost iv = items_v(self.items@);
let ghost ws = lcn_wires(iv);
let ghost head = Seq::empty().push(desc_tag(self.dv())).push(desc_body(self.dv()).len() as u8);
proof { lemma_lcn_len(iv); lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        buffer@.len() == n0.len() + 2 + self.items@.len() * 4,
        skip == n0.len() + 2 + vx_i0 * 4,
        buffer@.subrange(0, skip as int) == n0 + head + flat(ws.subrange(0, vx_i0 as int)),
        flat(ws.subrange(0, vx_i0 as int)).len() == vx_i0 * 4,
        n0.len() <= 0x1000_0000,
        self.items@.len() * 4 <= 255,
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof { assert(buffer@.subrange(0, skip as int) =~= n0 + head + flat(ws.subrange(0, 0))); }
//@ at loop 0 entry
let ghost b0 = buffer@;
let ghost skip0 = skip as int;
proof { assert(lcn_fits(iv[vx_i0 - 1])); }
//@ at loop 0 exit
proof {
    let x = iv[vx_i0 - 1];
    lemma_flat_take(ws, vx_i0 - 1);
    assert(buffer@.subrange(skip0, skip0 + 4) =~= lcn_wire(x));
    assert(buffer@.subrange(0, skip as int) =~= b0.subrange(0, skip0) + buffer@.subrange(skip0, skip0 + 4));
    assert(buffer@.subrange(0, skip as int) =~= n0 + head + flat(ws.subrange(0, vx_i0 as int)));
}
//@ at exit
proof { assert(buffer@.subrange(0, skip as int) =~= buffer@); assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

//@ module psi::descriptors::x4e
//@ prelude
broadcast use {crate::spec::group_mask, crate::spec::group_or};
pub open spec fn pair_v(x: (StringDVB, StringDVB)) -> PairV { PairV { name: x.0.tv(), text: x.1.tv() } }
pub open spec fn items_v(s: Seq<(StringDVB, StringDVB)>) -> Seq<PairV> { s.map_values(|x: (StringDVB, StringDVB)| pair_v(x)) }
//@ inside Desc for Desc4E
    open spec fn dv(&self) -> DescV { 
        DescV::D4E { v: ExtV { number: self.number, last: self.last_number, lang: self.lang.tv(), items: items_v(self.items@), text: self.text.tv() } }
     }
    open spec fn kind(d: DescV) -> bool { d is D4E }

//@ fn Clone for Desc4E::clone
    ensures r.dv() == self.dv(),
//@ at exit
proof { assert(items_v(vx_ret.items@) =~= items_v(self.items@)); }
//@ fn Desc4E::check
    requires tagged(slice@, 0x4E),
    ensures r == desc_layout(slice@),
//@ at entry
let ghost body = slice@.subrange(7, 7 + slice@[6]);
//@ loop 0
    invariant
        7 <= skip <= 900,
        items_e == 7 + slice@[6], items_e < slice@.len(), slice@.len() <= 257,
        skip <= items_e ==> tiles(g_pair(), body) == tiles(g_pair(), from(body, skip - 7)),
        skip > items_e ==> !tiles(g_pair(), body),
    decreases 1000 - skip,
//@ at before loop 0
proof { assert(from(body, 0) =~= body); }
//@ at loop 0 entry
proof {
    let r = from(body, skip - 7);
    assert(r[0] == slice@[skip as int]);
    if 1 + r[0] < r.len() {
        assert(r[1 + r[0]] == slice@[skip + 1 + r[0]]);
        if glen(g_pair(), r) <= r.len() { assert(r.subrange(glen(g_pair(), r), r.len() as int) =~= from(body, skip - 7 + glen(g_pair(), r))); }
    }
}
//@ fn Desc4E::parse
    requires tagged(slice@, 0x4E), desc_layout(slice@),
    ensures r.dv() == desc_of(slice@),
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
let ghost all = split(g_pair(), slice@.subrange(7, 7 + slice@[6]));
//@ loop 0
    invariant
        7 <= items_s <= items_e,
        items_e == 7 + slice@[6], items_e < slice@.len(), slice@.len() <= 257,
        tiles(g_pair(), slice@.subrange(items_s as int, items_e as int)),
        items_v(out@) == pairs_of(done),
        done + split(g_pair(), slice@.subrange(items_s as int, items_e as int)) == all,
    decreases items_e - items_s,
//@ at before loop 0
proof { assert(items_v(out@) =~= pairs_of(done)); assert(done + all =~= all); }
//@ at loop 0 entry
let ghost out0 = out@;
let ghost s0 = items_s as int;
proof { lemma_ext_step(slice@, s0, items_e as int); }
//@ at loop 0 exit
proof {
    let g = slice@.subrange(s0, items_s as int);
    let rest = split(g_pair(), slice@.subrange(items_s as int, items_e as int));
    assert(out@.drop_last() =~= out0);
    assert(items_v(out@) =~= items_v(out0).push(pair_of(g)));
    assert(pairs_of(done.push(g)) =~= pairs_of(done).push(pair_of(g)));
    assert(done + (Seq::empty().push(g) + rest) =~= done.push(g) + rest);
    done = done.push(g);
}
//@ at after loop 0
proof { assert(done + Seq::<Seq<u8>>::empty() =~= done); }
//@ fn Desc for Desc4E::tag
//@ fn Desc for Desc4E::size
//@ at entry
let ghost iv = items_v(self.items@);
let ghost ws = pair_wires(iv);
proof { lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        items_size == flat(ws.subrange(0, vx_i0 as int)).len(),
        flat(ws).len() <= 255,
    decreases self.items@.len() - vx_i0,
//@ at loop 0 entry
proof {
    assert(pair_fits(iv[vx_i0 - 1]));
    lemma_flat_take(ws, vx_i0 - 1);
    lemma_flat_take_le(ws, vx_i0 as int);
}
//@ fn Desc for Desc4E::assemble
//@ at entry
let ghost n0 = old(buffer)@;
let ghost iv = items_v(self.items@);
let ghost ws = pair_wires(iv);
proof { lemma_flat_all(ws); }
let ghost mut b1 = Seq::<u8>::empty();
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        buffer@ == b1 + flat(ws.subrange(0, vx_i0 as int)),
        flat(ws).len() <= 255,
        b1.len() <= 0x1000_0010,
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof { b1 = buffer@; assert(buffer@ =~= b1 + flat(ws.subrange(0, 0))); }
//@ at loop 0 entry
let ghost b0 = buffer@;
proof {
    assert(pair_fits(iv[vx_i0 - 1]));
    lemma_flat_take(ws, vx_i0 - 1);
    lemma_flat_take_le(ws, vx_i0 as int);
}
//@ at loop 0 exit
proof {
    assert(buffer@ =~= b0 + pair_wire(iv[vx_i0 - 1]));
    assert(buffer@ =~= b1 + flat(ws.subrange(0, vx_i0 as int)));
}
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }

