"""writes contracts/50_desc.vc: the descriptor types share most of their annotations"""
import os
out=[]
def w(s): out.append(s)
w('''//@ module psi::descriptors
//@ drop trait AsAny
//@ drop AsAny for T
//@ prelude
pub open spec fn dvs(s: Seq<Descriptor>) -> Seq<DescV> { s.map_values(|d: Descriptor| d.dv()) }

impl Descriptor {
    pub open spec fn dv(&self) -> DescV { self.0.dv() }
}

impl Descriptors {
    pub open spec fn dv(&self) -> Seq<DescV> { dvs(self.0@) }
}

impl<T: 'static + Desc> vstd::std_specs::convert::FromSpecImpl<T> for Descriptor {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: T) -> Descriptor { arbitrary() }
}

/// `x.as_any_ref().downcast_ref::<T>()`: the object itself if it has that type
#[verifier::external_body]
pub fn vx_downcast_ref<T: 'static + Desc>(x: &Box<dyn Desc>) -> (r: Option<&T>)
    ensures r is Some <==> T::kind(x.dv()), r matches Some(y) ==> y.dv() == x.dv(),
{ unimplemented!() }
//@ inside trait Desc
    spec fn dv(&self) -> DescV;
    /// values of this type
    spec fn kind(d: DescV) -> bool where Self: Sized;
//@ fn trait Desc::tag
    ensures r == desc_tag(self.dv()),
//@ fn trait Desc::size
    requires desc_fits(self.dv()),
    ensures r == desc_wire(self.dv()).len(),
//@ fn trait Desc::assemble
    requires desc_fits(self.dv()), old(buffer)@.len() <= 0x1000_0000,
    ensures final(buffer)@ == old(buffer)@ + desc_wire(self.dv()),
''')
w('''//@ fn Clone for Descriptor::clone
    ensures r.dv() == self.dv(),
//@ fn From<T> for Descriptor::from
    ensures r.dv() == desc.dv(),
//@ trusted boxing keeps the object: the verifier loses the link between a value and the same value as a trait object
//@ fn Descriptor::parse
    requires gfit(g_desc(), slice@),
    ensures r.dv() == desc_of(slice@),
//@ fn Descriptor::assemble
    requires desc_fits(self.dv()), old(buffer)@.len() <= 0x1000_0000,
    ensures final(buffer)@ == old(buffer)@ + desc_wire(self.dv()),
//@ fn Descriptor::size
    requires desc_fits(self.dv()),
    ensures r == desc_wire(self.dv()).len(),
//@ fn Descriptor::tag
    ensures r == desc_tag(self.dv()),
//@ fn Descriptor::downcast_ref
    requires T::kind(self.dv()),
    ensures r.dv() == self.dv(),
//@ fn Descriptor::downcast_mut
//@ skip mutable access to a trait object, not used by the crate
//@ fn Default for Descriptors::default
    ensures r.dv().len() == 0,
//@ fn Clone for Descriptors::clone
    ensures r.dv() == self.dv(),
//@ at exit
proof { assert(vx_ret.dv() =~= self.dv()); }
//@ fn Descriptors::parse
    requires slice@.len() <= 0x1000_0000,
    ensures final(self).dv() == old(self).dv() + list_of(slice@),
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
//@ loop 0
    invariant
        skip <= slice@.len() <= 0x1000_0000,
        self.dv() == old(self).dv() + descs_of(done),
        done + split(g_desc(), from(slice@, skip as int)) == split(g_desc(), slice@),
    decreases slice@.len() - skip,
//@ at before loop 0
proof {
    assert(from(slice@, 0) =~= slice@);
    assert(self.dv() =~= old(self).dv() + descs_of(done));
    assert(done + split(g_desc(), slice@) =~= split(g_desc(), slice@));
}
//@ at loop 0 entry
let ghost items0 = self.0@;
let ghost skip0 = skip as int;
proof {
    assert(from(slice@, skip0)[1] == slice@[skip0 + 1]);
    if glen(g_desc(), from(slice@, skip0)) <= slice@.len() - skip0 { lemma_split_step(g_desc(), slice@, skip0); }
    else { lemma_split_end(g_desc(), slice@, skip0); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
}
//@ at after call push
proof {
    let g = slice@.subrange(skip0, next as int);
    assert(dvs(self.0@) =~= dvs(items0).push(desc_of(g)));
    assert(descs_of(done.push(g)) =~= descs_of(done).push(desc_of(g)));
    assert(self.dv() =~= old(self).dv() + descs_of(done.push(g)));
    assert(done + (Seq::empty().push(g) + split(g_desc(), from(slice@, next as int))) =~= done.push(g) + split(g_desc(), from(slice@, next as int)));
    done = done.push(g);
}
//@ at after loop 0
proof {
    if slice@.len() - skip < 2 { lemma_split_end(g_desc(), slice@, skip as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }
}
//@ fn Descriptors::assemble
    requires list_fits(self.dv()), old(buffer)@.len() + list_wire(self.dv()).len() <= 0x1000_0000,
    ensures
        final(buffer)@ == old(buffer)@ + list_wire(self.dv()),
        r == list_wire(self.dv()).len(),
//@ at entry
hide(desc_wire);
hide(desc_fits);
let ghost ws = desc_wires(self.dv());
proof { lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.0@.len(),
        buffer@ == old(buffer)@ + flat(ws.subrange(0, vx_i0 as int)),
        ws == desc_wires(self.dv()),
        list_fits(self.dv()),
        old(buffer)@.len() + flat(ws).len() <= 0x1000_0000,
    decreases self.0@.len() - vx_i0,
//@ at before loop 0
proof { assert(buffer@ =~= old(buffer)@ + flat(ws.subrange(0, 0))); }
//@ at loop 0 entry
proof {
    assert(desc_fits(self.dv()[vx_i0 - 1]));
    lemma_flat_take(ws, vx_i0 - 1);
    lemma_flat_take_le(ws, vx_i0 as int);
}
//@ at loop 0 exit
proof { assert(buffer@ =~= old(buffer)@ + flat(ws.subrange(0, vx_i0 as int))); }
//@ fn Descriptors::size
    requires list_fits(self.dv()), list_wire(self.dv()).len() <= 0x1000_0000,
    ensures r == list_wire(self.dv()).len(),
//@ at entry
hide(desc_wire);
hide(desc_fits);
let ghost ws = desc_wires(self.dv());
proof { lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.0@.len(),
        vx_acc0 == flat(ws.subrange(0, vx_i0 as int)).len(),
        ws == desc_wires(self.dv()),
        list_fits(self.dv()),
        flat(ws).len() <= 0x1000_0000,
    decreases self.0@.len() - vx_i0,
//@ at loop 0 entry
proof {
    assert(desc_fits(self.dv()[vx_i0 - 1]));
    lemma_flat_take(ws, vx_i0 - 1);
    lemma_flat_take_le(ws, vx_i0 as int);
}
//@ fn Descriptors::is_empty
    ensures r == (self.dv().len() == 0),
//@ fn Descriptors::len
    ensures r == self.dv().len(),
//@ fn Descriptors::get
    ensures
        *final(self) == *old(self),
        index < old(self).dv().len() ==> (r matches Some(d) && d.dv() == old(self).dv()[index as int]),
        index >= old(self).dv().len() ==> r is None,
//@ fn Descriptors::get_mut
//@ skip mutable access to a trait object, not used by the crate
//@ fn Descriptors::push
    ensures
        final(self).0@.len() == old(self).0@.len() + 1,
        final(self).0@.drop_last() == old(self).0@,
        call_ensures(<T as Into<Descriptor>>::into, (desc,), final(self).0@.last()),
//@ at exit
proof { assert(self.0@.drop_last() =~= old(self).0@); }
//@ fn Descriptors::iter
//@ skip inlined where it is used
''')
def mod(m,T,tag,dv,items=None,bits=False,extra='',parse='',parse_loop='',asm='',asm_loop='',check='',size='',pre='',default=True):
    w('//@ module psi::descriptors::%s'%m)
    w('//@ prelude')
    if bits: w('broadcast use {crate::spec::group_mask, crate::spec::group_or};')
    w(pre.strip('\n'))
    w('//@ inside Desc for %s'%T)
    w('    open spec fn dv(&self) -> DescV { %s }'%dv)
    w('    open spec fn kind(d: DescV) -> bool { d is %s }'%('Raw' if T=='DescRaw' else T.replace('Desc','D')))
    if items:
        it,dvi=items
        w(dvi.strip('\n'))
    if default:
        w('//@ fn Default for %s::default'%T)
        w('    ensures %s'%('r.items@.len() == 0,' if items else 'true,'))
    w('//@ fn Clone for %s::clone'%T)
    w('    ensures r.dv() == self.dv(),')
    if items: w('//@ at exit\nproof { assert(items_v(vx_ret.items@) =~= items_v(self.items@)); }')
    if T!='DescRaw':
        w('//@ fn %s::check'%T)
        w('    requires tagged(slice@, %s),'%tag)
        w('    ensures r == desc_layout(slice@),')
        if check: w(check.strip('\n'))
        w('//@ fn %s::parse'%T)
        w('    requires tagged(slice@, %s), desc_layout(slice@),'%tag)
        w('    ensures r.dv() == desc_of(slice@),')
        if parse: w(parse.strip('\n'))
    else:
        w('//@ fn DescRaw::parse')
        w('    requires gfit(g_desc(), slice@),')
        w('    ensures r.dv() == (DescV::Raw { tag: slice@[0], data: from(slice@, 2) }),')
        w('//@ at exit\nproof { assert(vx_ret.data@ =~= from(slice@, 2)); }')
    w('//@ fn Desc for %s::tag'%T)
    w('//@ fn Desc for %s::size'%T)
    if size: w(size.strip('\n'))
    w('//@ fn Desc for %s::assemble'%T)
    if asm: w(asm.strip('\n'))
    else: w('//@ at entry\nproof { reveal(byte); }\n//@ at exit\nproof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }')
    w('')
mod('raw','DescRaw',None,'DescV::Raw { tag: self.tag, data: self.data@ }')
mod('x09','Desc09','0x09','DescV::D09 { caid: self.caid, pid: self.pid, data: self.data@ }',bits=True)
mod('x0e','Desc0E','0x0E','DescV::D0E { bitrate: self.bitrate }',bits=True)
mod('x40','Desc40','0x40','DescV::D40 { name: self.name.tv() }')
mod('x43','Desc43','0x43','''
        DescV::D43 { v: SatV {
            frequency: self.frequency, position: self.orbital_position, east: self.west_east_flag, polarization: self.polarization,
            rof: self.rof, s2: self.s2, modulation: self.modulation, symbol_rate: self.symbol_rate, fec: self.fec } }
    ''',bits=True)
mod('x44','Desc44','0x44','''
        DescV::D44 { v: CableV {
            frequency: self.frequency, fec_outer: self.fec_outer, modulation: self.modulation, symbol_rate: self.symbol_rate, fec: self.fec } }
    ''',bits=True)
mod('x48','Desc48','0x48','DescV::D48 { kind: self.service_type, provider: self.provider.tv(), name: self.name.tv() }')
mod('x4d','Desc4D','0x4D','DescV::D4D { lang: self.lang.tv(), name: self.name.tv(), text: self.text.tv() }')
mod('x52','Desc52','0x52','DescV::D52 { tag: self.tag }')
mod('x5a','Desc5A','0x5A','''
        DescV::D5A { v: TerrV {
            frequency: self.frequency, bandwidth: self.bandwidth, priority: self.priority, time_slicing: self.time_slicing, mpe_fec: self.mpe_fec,
            modulation: self.modulation, hierarchy: self.hierarchy, rate_hp: self.code_rate_hp, rate_lp: self.code_rate_lp,
            guard: self.guard_interval, mode: self.transmission, other: self.other_frequency_flag } }
    ''',bits=True,asm='''
//@ at exit
proof {
    assert(put32(0xFFFF_FFFF) =~= Seq::empty().push(0xFFu8).push(0xFFu8).push(0xFFu8).push(0xFFu8)) by { reveal(byte); }
    let b = from(buffer@, old(buffer)@.len() as int);
    assert(b.subrange(9, 13) =~= put32(0xFFFF_FFFF));
    assert forall|i: int| 9 <= i < 13 implies b[i] == 0xFF by { assert(b[i] == b.subrange(9, 13)[i - 9]); }
    assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv()));
}
''')

def plist(k,fn):
    return f'''
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
//@ loop 0
    invariant
        2 <= skip <= slice@.len(),
        (slice@.len() - skip) % {k} == 0,
        slice@.len() <= 257,
        items_v(result.items@) == {fn}s_of(done),
        done + split({k}, from(slice@, skip as int)) == split({k}, from(slice@, 2)),
    decreases slice@.len() - skip,
//@ at before loop 0
proof {{ assert(items_v(result.items@) =~= {fn}s_of(done)); assert(done + split({k}, from(slice@, 2)) =~= split({k}, from(slice@, 2))); }}
//@ at loop 0 entry
let ghost items0 = result.items@;
let ghost skip0 = skip as int;
//@ at loop 0 exit
proof {{
    let g = slice@.subrange(skip0, skip0 + {k});
    lemma_split_step({k}, slice@, skip0);
    assert(result.items@.last().v() == {fn}_of(g)) by {{ HINT }}
    assert(result.items@.drop_last() =~= items0);
    assert(items_v(result.items@) =~= items_v(items0).push({fn}_of(g)));
    assert({fn}s_of(done.push(g)) =~= {fn}s_of(done).push({fn}_of(g)));
    assert((done + (Seq::empty().push(g) + split({k}, from(slice@, skip0 + {k})))) =~= (done.push(g) + split({k}, from(slice@, skip0 + {k}))));
    done = done.push(g);
}}
//@ at after loop 0
proof {{ lemma_split_end({k}, slice@, slice@.len() as int); assert(done + Seq::<Seq<u8>>::empty() =~= done); }}
'''
def items(T,V,body):
    return f'''
impl {T} {{
    pub open spec fn v(&self) -> {V} {{ {body} }}
}}
pub open spec fn items_v(s: Seq<{T}>) -> Seq<{V}> {{ s.map_values(|x: {T}| x.v()) }}
'''
# fixed size lists whose bytes are pushed
def alist_push(k,fn,hint=''):
    return f'''
//@ at entry
let ghost n0 = old(buffer)@;
let ghost iv = items_v(self.items@);
let ghost ws = {fn}_wires(iv);
let ghost head = Seq::empty().push(desc_tag(self.dv())).push(desc_body(self.dv()).len() as u8);
proof {{ lemma_{fn}_len(iv); lemma_flat_all(ws); }}
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        buffer@ == n0 + head + flat(ws.subrange(0, vx_i0 as int)),
        flat(ws.subrange(0, vx_i0 as int)).len() == vx_i0 * {k},
        n0.len() <= 0x1000_0000,
        self.items@.len() * {k} <= 255,
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof {{ assert(buffer@ =~= n0 + head + flat(ws.subrange(0, 0))); }}
//@ at loop 0 entry
let ghost b0 = buffer@;
proof {{ assert({FITS[fn]}); }}
//@ at loop 0 exit
proof {{
    let x = iv[vx_i0 - 1];
    lemma_flat_take(ws, vx_i0 - 1);
    {AHINT.get(fn,'')}assert(buffer@ =~= b0 + {fn}_wire(x));
    assert(buffer@ =~= n0 + head + flat(ws.subrange(0, vx_i0 as int)));
}}
//@ at exit
proof {{ assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }}
'''
# fixed size lists whose bytes are stored
def alist_set(k,fn):
    return f'''
//@ at entry
let ghost n0 = old(buffer)@;
let ghost iv = items_v(self.items@);
let ghost ws = {fn}_wires(iv);
let ghost head = Seq::empty().push(desc_tag(self.dv())).push(desc_body(self.dv()).len() as u8);
proof {{ lemma_{fn}_len(iv); lemma_flat_all(ws); }}
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        buffer@.len() == n0.len() + 2 + self.items@.len() * {k},
        skip == n0.len() + 2 + vx_i0 * {k},
        buffer@.subrange(0, skip as int) == n0 + head + flat(ws.subrange(0, vx_i0 as int)),
        flat(ws.subrange(0, vx_i0 as int)).len() == vx_i0 * {k},
        n0.len() <= 0x1000_0000,
        self.items@.len() * {k} <= 255,
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof {{ assert(buffer@.subrange(0, skip as int) =~= n0 + head + flat(ws.subrange(0, 0))); }}
//@ at loop 0 entry
let ghost b0 = buffer@;
let ghost skip0 = skip as int;
proof {{ assert({FITS[fn]}); }}
//@ at loop 0 exit
proof {{
    let x = iv[vx_i0 - 1];
    lemma_flat_take(ws, vx_i0 - 1);
    assert(buffer@.subrange(skip0, skip0 + {k}) =~= {fn}_wire(x));
    assert(buffer@.subrange(0, skip as int) =~= b0.subrange(0, skip0) + buffer@.subrange(skip0, skip0 + {k}));
    assert(buffer@.subrange(0, skip as int) =~= n0 + head + flat(ws.subrange(0, vx_i0 as int)));
}}
//@ at exit
proof {{ assert(buffer@.subrange(0, skip as int) =~= buffer@); assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }}
'''
AHINT=dict(off='''let n = b0.len() as int;
    assert(buffer@.subrange(0, n) =~= b0);
    assert(buffer@.subrange(n, n + 3) =~= tw(x.code));
    assert(buffer@[n + 3] == x.region * 4 + 2 + x.polarity);
    assert(buffer@.subrange(n + 4, n + 6) =~= put16(time_enc4(x.offset as int)));
    assert(buffer@.subrange(n + 6, n + 8) =~= put16(mjd_enc(x.change as int)));
    assert(buffer@.subrange(n + 8, n + 11) =~= put24(time_enc6(x.change as int)));
    assert(buffer@.subrange(n + 11, n + 13) =~= put16(time_enc4(x.next as int)));
    ''')
FITS=dict(lang='lang_fits(iv[vx_i0 - 1])',serv='true',off='off_fits(iv[vx_i0 - 1])',lcn='lcn_fits(iv[vx_i0 - 1])')
SZ=lambda fn: f'//@ at entry\nproof {{ lemma_{fn}_len(items_v(self.items@)); }}'
CL='//@ fn Clone for %s::clone\n    ensures r.v() == self.v(),'
mod('x0a','Desc0A','0x0A','DescV::D0A { items: items_v(self.items@) }',
  items=('Desc0Ai',CL%'Desc0Ai'), pre=items('Desc0Ai','LangV','LangV { code: self.code.tv(), kind: self.audio_type }'),
  parse=plist(4,'lang').replace('HINT','assert(g.subrange(0, 3) =~= slice@.subrange(skip0, skip0 + 3));'),
  asm=alist_push(4,'lang'), size=SZ('lang'))
mod('x41','Desc41','0x41','DescV::D41 { items: items_v(self.items@) }',
  items=('Desc41i',CL%'Desc41i'), pre=items('Desc41i','ServV','ServV { id: self.service_id, kind: self.service_type }'),
  parse=plist(3,'serv').replace('HINT',''), asm=alist_set(3,'serv'), size=SZ('serv'))
mod('x58','Desc58','0x58','DescV::D58 { items: items_v(self.items@) }',
  items=('Desc58i','//@ fn Default for Desc58i::default\n    ensures true,\n'+CL%'Desc58i'), bits=True,
  pre=items('Desc58i','OffV','OffV { code: self.country_code.tv(), region: self.region_id, polarity: self.offset_polarity, offset: self.offset, change: self.time_of_change, next: self.next_offset }'),
  parse=plist(13,'off').replace('HINT','assert(g.subrange(0, 3) =~= slice@.subrange(skip0, skip0 + 3));'),
  asm=alist_push(13,'off'), size=SZ('off'))
mod('x83','Desc83','0x83','DescV::D83 { items: items_v(self.items@) }',
  items=('Desc83i',CL%'Desc83i'), bits=True, pre=items('Desc83i','LcnV','LcnV { id: self.service_id, visible: self.visible, lcn: self.lcn }'),
  parse=plist(4,'lcn').replace('HINT',''), asm=alist_set(4,'lcn'), size=SZ('lcn'))

mod('x4e','Desc4E','0x4E','''
        DescV::D4E { v: ExtV { number: self.number, last: self.last_number, lang: self.lang.tv(), items: items_v(self.items@), text: self.text.tv() } }
    ''',items=('',''),default=False,bits=True,
  pre='''
pub open spec fn pair_v(x: (StringDVB, StringDVB)) -> PairV { PairV { name: x.0.tv(), text: x.1.tv() } }
pub open spec fn items_v(s: Seq<(StringDVB, StringDVB)>) -> Seq<PairV> { s.map_values(|x: (StringDVB, StringDVB)| pair_v(x)) }
''',
  check='''
//@ at entry
let ghost body = slice@.subrange(7, 7 + slice@[6]);
//@ loop 0
    invariant
        7 <= skip <= 900,
        items_e == 7 + slice@[6], items_e < slice@.len(), slice@.len() <= 257,
        skip <= items_e ==> tiles(g_pair(), body) == tiles(g_pair(), from(body, skip - 7)),
        skip > items_e ==> !tiles(g_pair(), body),
    decreases 1000 - skip,
//@ at before loop 0
proof { assert(from(body, 0) =~= body); }
//@ at loop 0 entry
proof {
    let r = from(body, skip - 7);
    assert(r[0] == slice@[skip as int]);
    if 1 + r[0] < r.len() {
        assert(r[1 + r[0]] == slice@[skip + 1 + r[0]]);
        if glen(g_pair(), r) <= r.len() { assert(r.subrange(glen(g_pair(), r), r.len() as int) =~= from(body, skip - 7 + glen(g_pair(), r))); }
    }
}
''',
  parse='''
//@ at entry
let ghost done: Seq<Seq<u8>> = Seq::empty();
let ghost all = split(g_pair(), slice@.subrange(7, 7 + slice@[6]));
//@ loop 0
    invariant
        7 <= items_s <= items_e,
        items_e == 7 + slice@[6], items_e < slice@.len(), slice@.len() <= 257,
        tiles(g_pair(), slice@.subrange(items_s as int, items_e as int)),
        items_v(out@) == pairs_of(done),
        done + split(g_pair(), slice@.subrange(items_s as int, items_e as int)) == all,
    decreases items_e - items_s,
//@ at before loop 0
proof { assert(items_v(out@) =~= pairs_of(done)); assert(done + all =~= all); }
//@ at loop 0 entry
let ghost out0 = out@;
let ghost s0 = items_s as int;
proof { lemma_ext_step(slice@, s0, items_e as int); }
//@ at loop 0 exit
proof {
    let g = slice@.subrange(s0, items_s as int);
    let rest = split(g_pair(), slice@.subrange(items_s as int, items_e as int));
    assert(out@.drop_last() =~= out0);
    assert(items_v(out@) =~= items_v(out0).push(pair_of(g)));
    assert(pairs_of(done.push(g)) =~= pairs_of(done).push(pair_of(g)));
    assert(done + (Seq::empty().push(g) + rest) =~= done.push(g) + rest);
    done = done.push(g);
}
//@ at after loop 0
proof { assert(done + Seq::<Seq<u8>>::empty() =~= done); }
''',
  size='''
//@ at entry
let ghost iv = items_v(self.items@);
let ghost ws = pair_wires(iv);
proof { lemma_flat_all(ws); }
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        items_size == flat(ws.subrange(0, vx_i0 as int)).len(),
        flat(ws).len() <= 255,
    decreases self.items@.len() - vx_i0,
//@ at loop 0 entry
proof {
    assert(pair_fits(iv[vx_i0 - 1]));
    lemma_flat_take(ws, vx_i0 - 1);
    lemma_flat_take_le(ws, vx_i0 as int);
}
''',
  asm='''
//@ at entry
let ghost n0 = old(buffer)@;
let ghost iv = items_v(self.items@);
let ghost ws = pair_wires(iv);
proof { lemma_flat_all(ws); }
let ghost mut b1 = Seq::<u8>::empty();
//@ loop 0
    invariant
        vx_i0 <= self.items@.len(),
        buffer@ == b1 + flat(ws.subrange(0, vx_i0 as int)),
        flat(ws).len() <= 255,
        b1.len() <= 0x1000_0010,
    decreases self.items@.len() - vx_i0,
//@ at before loop 0
proof { b1 = buffer@; assert(buffer@ =~= b1 + flat(ws.subrange(0, 0))); }
//@ at loop 0 entry
let ghost b0 = buffer@;
proof {
    assert(pair_fits(iv[vx_i0 - 1]));
    lemma_flat_take(ws, vx_i0 - 1);
    lemma_flat_take_le(ws, vx_i0 as int);
}
//@ at loop 0 exit
proof {
    assert(buffer@ =~= b0 + pair_wire(iv[vx_i0 - 1]));
    assert(buffer@ =~= b1 + flat(ws.subrange(0, vx_i0 as int)));
}
//@ at exit
proof { assert(buffer@ =~= old(buffer)@ + desc_wire(self.dv())); }
''')
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', '50_desc.vc'), 'w').write('\n'.join(out)+'\n')
