verus! {

// ---------------------------------------------------------------------------
// byte strings made of groups that announce their own length

/// descriptors: tag, length, data
pub open spec fn g_desc() -> int { 100 }
/// pairs of sized texts
pub open spec fn g_pair() -> int { 101 }
/// entries with 5 header bytes, 12 bit length in the last two
pub open spec fn g_es() -> int { 102 }
/// entries with 6 header bytes, 12 bit length in the last two
pub open spec fn g_ts() -> int { 103 }
/// entries with 12 header bytes, 12 bit length in the last two
pub open spec fn g_event() -> int { 104 }

/// least number of bytes of a group; numbers below 100 stand for groups of that size
pub open spec fn ghead(k: int) -> int {
    if k < 100 { k }
    else if k == 102 { 5 }
    else if k == 103 { 6 }
    else if k == 104 { 12 }
    else { 2 }
}

/// number of bytes of the group at the start of w
pub open spec fn glen(k: int, w: Seq<u8>) -> int {
    if k < 100 { k }
    else if k == 100 { 2 + w[1] }
    else if k == 101 { if 1 + w[0] < w.len() { 2 + w[0] + w[1 + w[0]] } else { w.len() as int + 1 } }
    else if k == 102 { 5 + be16(w, 3) % 4096 }
    else if k == 103 { 6 + be16(w, 4) % 4096 }
    else { 12 + be16(w, 10) % 4096 }
}

/// the complete groups of a byte string, in order, up to the first that does not fit
pub open spec fn split(k: int, w: Seq<u8>) -> Seq<Seq<u8>>
    decreases w.len(),
{
    if ghead(k) < 1 || w.len() < ghead(k) || glen(k, w) > w.len() { Seq::empty() }
    else { Seq::empty().push(w.subrange(0, glen(k, w))) + split(k, w.subrange(glen(k, w), w.len() as int)) }
}

/// the byte string is made of groups without a rest
pub open spec fn tiles(k: int, w: Seq<u8>) -> bool
    decreases w.len(),
{
    w.len() == 0 || (ghead(k) >= 1 && w.len() >= ghead(k) && glen(k, w) <= w.len() && tiles(k, w.subrange(glen(k, w), w.len() as int)))
}

pub open spec fn gfit(k: int, g: Seq<u8>) -> bool { 1 <= ghead(k) <= g.len() && glen(k, g) == g.len() }

pub open spec fn gfits(k: int, gs: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < gs.len() ==> gfit(k, #[trigger] gs[i]) }

/// bytes of a complete descriptor with this tag
pub open spec fn tagged(w: Seq<u8>, tag: int) -> bool { gfit(g_desc(), w) && w[0] == tag }

pub open spec fn from(w: Seq<u8>, a: int) -> Seq<u8> { w.subrange(a, w.len() as int) }

pub proof fn lemma_split_step(k: int, w: Seq<u8>, a: int)
    requires 0 <= a <= w.len(), 1 <= ghead(k) <= w.len() - a, glen(k, from(w, a)) <= w.len() - a,
    ensures ({
        let n = glen(k, from(w, a));
        split(k, from(w, a)) == Seq::empty().push(w.subrange(a, a + n)) + split(k, from(w, a + n))
    }),
{
    let r = from(w, a);
    let n = glen(k, r);
    assert(r.subrange(0, n) =~= w.subrange(a, a + n));
    assert(r.subrange(n, r.len() as int) =~= from(w, a + n));
}

pub proof fn lemma_split_end(k: int, w: Seq<u8>, a: int)
    requires 0 <= a <= w.len(), w.len() - a < ghead(k) || glen(k, from(w, a)) > w.len() - a,
    ensures split(k, from(w, a)) == Seq::<Seq<u8>>::empty(),
{
}

pub proof fn lemma_flat_cons(p: Seq<Seq<u8>>)
    requires p.len() > 0,
    ensures flat(p) == p[0] + flat(p.subrange(1, p.len() as int)),
    decreases p.len(),
{
    let r = p.subrange(1, p.len() as int);
    if p.len() == 1 {
        assert(r =~= Seq::<Seq<u8>>::empty());
        assert(p.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(flat(p) == flat(p.drop_last()) + p.last());
        assert(flat(p.drop_last()) =~= Seq::<u8>::empty());
        assert(flat(r) =~= Seq::<u8>::empty());
        assert(flat(p) =~= p[0] + flat(r));
    } else {
        let q = p.drop_last();
        lemma_flat_cons(q);
        assert(q.subrange(1, q.len() as int) =~= r.drop_last());
        assert(flat(p) =~= p[0] + (flat(r.drop_last()) + p.last()));
    }
}

pub proof fn lemma_flat_take(p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len(),
    ensures flat(p.subrange(0, i + 1)) == flat(p.subrange(0, i)) + p[i],
{
    assert(p.subrange(0, i + 1).drop_last() =~= p.subrange(0, i));
}

pub proof fn lemma_flat_take_le(p: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= p.len(),
    ensures flat(p.subrange(0, i)).len() <= flat(p).len(),
    decreases p.len() - i,
{
    if i < p.len() {
        lemma_flat_take(p, i);
        lemma_flat_take_le(p, i + 1);
    } else {
        assert(p.subrange(0, i) =~= p);
    }
}

pub proof fn lemma_flat_all(p: Seq<Seq<u8>>)
    ensures flat(p.subrange(0, p.len() as int)) == flat(p), flat(p.subrange(0, 0)) == Seq::<u8>::empty(), p.subrange(0, p.len() as int) == p,
{
    assert(p.subrange(0, p.len() as int) =~= p);
    assert(p.subrange(0, 0) =~= Seq::<Seq<u8>>::empty());
}

/// groups of equal size
pub proof fn lemma_flat_len(p: Seq<Seq<u8>>, k: int)
    requires forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() == k,
    ensures flat(p).len() == p.len() * k,
    decreases p.len(),
{
    if p.len() > 0 {
        let q = p.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() == k by { assert(q[i] == p[i]); }
        lemma_flat_len(q, k);
        assert(p[p.len() - 1].len() == k);
        assert(p.len() * k == (p.len() - 1) * k + k) by (nonlinear_arith);
    }
}

proof fn lemma_glen_stable(k: int, g: Seq<u8>, x: Seq<u8>)
    requires gfit(k, g),
    ensures glen(k, g + x) == g.len(),
{
}

/// Groups put after each other are found again.
pub proof fn lemma_split_flat(k: int, gs: Seq<Seq<u8>>)
    requires gfits(k, gs),
    ensures split(k, flat(gs)) == gs, tiles(k, flat(gs)),
    decreases gs.len(),
{
    if gs.len() == 0 {
        assert(gs =~= Seq::<Seq<u8>>::empty());
        assert(flat(gs) =~= Seq::<u8>::empty());
        assert(split(k, flat(gs)) =~= gs);
    } else {
        let r = gs.subrange(1, gs.len() as int);
        assert forall|i: int| 0 <= i < r.len() implies gfit(k, #[trigger] r[i]) by { assert(r[i] == gs[i + 1]); }
        lemma_split_flat(k, r);
        lemma_flat_cons(gs);
        let w = flat(gs);
        assert(gfit(k, gs[0]));
        lemma_glen_stable(k, gs[0], flat(r));
        let n = gs[0].len() as int;
        assert(w.subrange(0, n) =~= gs[0]);
        assert(w.subrange(n, w.len() as int) =~= flat(r));
        assert(Seq::empty().push(gs[0]) + r =~= gs);
    }
}

/// every group found is complete
pub proof fn lemma_split_fit(k: int, w: Seq<u8>)
    ensures gfits(k, split(k, w)), flat(split(k, w)).len() <= w.len(), flat(split(k, w)) == w.subrange(0, flat(split(k, w)).len() as int),
        tiles(k, w) ==> flat(split(k, w)) == w,
    decreases w.len(),
{
    if ghead(k) < 1 || w.len() < ghead(k) || glen(k, w) > w.len() {
        assert(flat(split(k, w)) =~= Seq::<u8>::empty());
        assert(w.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(tiles(k, w) ==> w =~= Seq::<u8>::empty());
    } else {
        let n = glen(k, w);
        let g = w.subrange(0, n);
        let r = w.subrange(n, w.len() as int);
        lemma_split_fit(k, r);
        let s = split(k, w);
        assert(s.subrange(1, s.len() as int) =~= split(k, r));
        assert(s[0] == g);
        lemma_flat_cons(s);
        assert(glen(k, g) == n);
        assert forall|i: int| 0 <= i < s.len() implies gfit(k, #[trigger] s[i]) by {
            if i > 0 { assert(s[i] == split(k, r)[i - 1]); }
        }
        let m = flat(split(k, r)).len() as int;
        assert(flat(s) =~= w.subrange(0, n + m));
        assert(tiles(k, w) ==> flat(s) =~= w);
    }
}

// ---------------------------------------------------------------------------
// descriptors as values

pub struct TextV { pub cp: int, pub d: Seq<u8> }

pub open spec fn tw(t: TextV) -> Seq<u8> { text_wire(t.cp, t.d) }

pub open spec fn text_of(w: Seq<u8>) -> TextV { TextV { cp: wire_cp(w), d: wire_text(w) } }

/// text with its length in front
pub open spec fn sized(t: TextV) -> Seq<u8> { Seq::empty().push(tw(t).len() as u8) + tw(t) }

/// texts that decode to themselves: not mistaken for a codepage identifier, and no codepage without text
pub open spec fn text_canon(t: TextV) -> bool { text_clear(t.cp, t.d) && (t.d.len() == 0 ==> t.cp == 0) }

pub proof fn lemma_text_of(t: TextV)
    requires text_canon(t),
    ensures text_of(tw(t)) == t,
{
    lemma_wire_back(t.cp, t.d);
    if t.d.len() == 0 { assert(tw(t) =~= Seq::<u8>::empty()); }
}

pub struct LangV { pub code: TextV, pub kind: u8 }
pub struct ServV { pub id: u16, pub kind: u8 }
pub struct OffV { pub code: TextV, pub region: u8, pub polarity: u8, pub offset: u16, pub change: u64, pub next: u16 }
pub struct LcnV { pub id: u16, pub visible: u8, pub lcn: u16 }
pub struct PairV { pub name: TextV, pub text: TextV }

pub struct SatV { pub frequency: u32, pub position: u16, pub east: u8, pub polarization: u8, pub rof: u8, pub s2: u8, pub modulation: u8, pub symbol_rate: u32, pub fec: u8 }
pub struct CableV { pub frequency: u32, pub fec_outer: u8, pub modulation: u8, pub symbol_rate: u32, pub fec: u8 }
pub struct TerrV {
    pub frequency: u32, pub bandwidth: u8, pub priority: u8, pub time_slicing: u8, pub mpe_fec: u8,
    pub modulation: u8, pub hierarchy: u8, pub rate_hp: u8, pub rate_lp: u8, pub guard: u8, pub mode: u8, pub other: u8,
}
pub struct ExtV { pub number: u8, pub last: u8, pub lang: TextV, pub items: Seq<PairV>, pub text: TextV }

pub enum DescV {
    Raw { tag: u8, data: Seq<u8> },
    D09 { caid: u16, pid: u16, data: Seq<u8> },
    D0A { items: Seq<LangV> },
    D0E { bitrate: u32 },
    D40 { name: TextV },
    D41 { items: Seq<ServV> },
    D43 { v: SatV },
    D44 { v: CableV },
    D48 { kind: u8, provider: TextV, name: TextV },
    D4D { lang: TextV, name: TextV, text: TextV },
    D4E { v: ExtV },
    D52 { tag: u8 },
    D58 { items: Seq<OffV> },
    D5A { v: TerrV },
    D83 { items: Seq<LcnV> },
}

// items

pub open spec fn lang_wire(x: LangV) -> Seq<u8> { tw(x.code).push(x.kind) }
pub open spec fn lang_of(g: Seq<u8>) -> LangV { LangV { code: text_of(g.subrange(0, 3)), kind: g[3] } }
pub open spec fn lang_fits(x: LangV) -> bool { cp_ok(x.code.cp) && tw(x.code).len() == 3 }
pub open spec fn lang_wires(s: Seq<LangV>) -> Seq<Seq<u8>> { s.map_values(|x: LangV| lang_wire(x)) }
pub open spec fn langs_of(s: Seq<Seq<u8>>) -> Seq<LangV> { s.map_values(|g: Seq<u8>| lang_of(g)) }

pub open spec fn serv_wire(x: ServV) -> Seq<u8> { put16(x.id as int).push(x.kind) }
pub open spec fn serv_of(g: Seq<u8>) -> ServV { ServV { id: be16(g, 0) as u16, kind: g[2] } }
pub open spec fn serv_wires(s: Seq<ServV>) -> Seq<Seq<u8>> { s.map_values(|x: ServV| serv_wire(x)) }
pub open spec fn servs_of(s: Seq<Seq<u8>>) -> Seq<ServV> { s.map_values(|g: Seq<u8>| serv_of(g)) }

pub open spec fn off_wire(x: OffV) -> Seq<u8> {
    tw(x.code) + Seq::empty().push((x.region * 4 + 2 + x.polarity) as u8) + put16(time_enc4(x.offset as int)) + put16(mjd_enc(x.change as int))
        + put24(time_enc6(x.change as int)) + put16(time_enc4(x.next as int))
}
pub open spec fn off_of(g: Seq<u8>) -> OffV {
    OffV {
        code: text_of(g.subrange(0, 3)),
        region: (g[3] / 4) as u8,
        polarity: (g[3] % 2) as u8,
        offset: time_dec4(be16(g, 4)) as u16,
        change: (mjd_dec(be16(g, 6)) + time_dec6(be24(g, 8))) as u64,
        next: time_dec4(be16(g, 11)) as u16,
    }
}
pub open spec fn off_fits(x: OffV) -> bool {
    cp_ok(x.code.cp) && tw(x.code).len() == 3 && x.region < 64 && x.polarity < 2 && x.offset < 1440 && x.next < 1440 && x.change <= 2155593599
}
pub open spec fn off_wires(s: Seq<OffV>) -> Seq<Seq<u8>> { s.map_values(|x: OffV| off_wire(x)) }
pub open spec fn offs_of(s: Seq<Seq<u8>>) -> Seq<OffV> { s.map_values(|g: Seq<u8>| off_of(g)) }

pub open spec fn lcn_wire(x: LcnV) -> Seq<u8> { put16(x.id as int) + put16(x.visible * 32768 + 31744 + x.lcn) }
pub open spec fn lcn_of(g: Seq<u8>) -> LcnV { LcnV { id: be16(g, 0) as u16, visible: (g[2] / 128) as u8, lcn: (be16(g, 2) % 1024) as u16 } }
pub open spec fn lcn_fits(x: LcnV) -> bool { x.visible < 2 && x.lcn < 1024 }
pub open spec fn lcn_wires(s: Seq<LcnV>) -> Seq<Seq<u8>> { s.map_values(|x: LcnV| lcn_wire(x)) }
pub open spec fn lcns_of(s: Seq<Seq<u8>>) -> Seq<LcnV> { s.map_values(|g: Seq<u8>| lcn_of(g)) }

pub open spec fn pair_wire(x: PairV) -> Seq<u8> { sized(x.name) + sized(x.text) }
pub open spec fn pair_of(g: Seq<u8>) -> PairV {
    PairV { name: text_of(g.subrange(1, 1 + g[0])), text: text_of(g.subrange(2 + g[0], 2 + g[0] + g[1 + g[0]])) }
}
pub open spec fn pair_fits(x: PairV) -> bool { cp_ok(x.name.cp) && cp_ok(x.text.cp) && tw(x.name).len() <= 255 && tw(x.text).len() <= 255 }
pub open spec fn pair_wires(s: Seq<PairV>) -> Seq<Seq<u8>> { s.map_values(|x: PairV| pair_wire(x)) }
pub open spec fn pairs_of(s: Seq<Seq<u8>>) -> Seq<PairV> { s.map_values(|g: Seq<u8>| pair_of(g)) }

// whole descriptors

pub open spec fn desc_tag(d: DescV) -> u8 {
    match d {
        DescV::Raw { tag, .. } => tag,
        DescV::D09 { .. } => 0x09,
        DescV::D0A { .. } => 0x0A,
        DescV::D0E { .. } => 0x0E,
        DescV::D40 { .. } => 0x40,
        DescV::D41 { .. } => 0x41,
        DescV::D43 { .. } => 0x43,
        DescV::D44 { .. } => 0x44,
        DescV::D48 { .. } => 0x48,
        DescV::D4D { .. } => 0x4D,
        DescV::D4E { .. } => 0x4E,
        DescV::D52 { .. } => 0x52,
        DescV::D58 { .. } => 0x58,
        DescV::D5A { .. } => 0x5A,
        DescV::D83 { .. } => 0x83,
    }
}

pub open spec fn sat_body(v: SatV) -> Seq<u8> {
    put32(bcd_enc8(v.frequency as int / 10)) + put16(bcd_enc4(v.position as int / 6))
        + Seq::empty().push((v.east * 128 + v.polarization * 32 + v.rof * 8 + v.s2 * 4 + v.modulation) as u8)
        + put24(bcd_enc8(v.symbol_rate as int)) + Seq::empty().push(v.fec)
}
pub open spec fn sat_of(w: Seq<u8>) -> SatV {
    SatV {
        frequency: (bcd_dec8(be32(w, 2)) * 10) as u32,
        position: (bcd_dec4(be16(w, 6)) * 6) as u16,
        east: (w[8] / 128) as u8,
        polarization: (w[8] / 32 % 4) as u8,
        rof: (w[8] / 8 % 4) as u8,
        s2: (w[8] / 4 % 2) as u8,
        modulation: (w[8] % 4) as u8,
        symbol_rate: bcd_dec8(be24(w, 9)) as u32,
        fec: (w[12] % 16) as u8,
    }
}
pub open spec fn sat_fits(v: SatV) -> bool {
    v.frequency % 10 == 0 && v.frequency < 1000000000 && v.position % 6 == 0 && v.position < 60000
        && v.east < 2 && v.polarization < 4 && v.rof < 4 && v.s2 < 2 && v.modulation < 4
        && v.symbol_rate < 1000000 && v.fec < 16
}

pub open spec fn cable_body(v: CableV) -> Seq<u8> {
    put32(bcd_enc8(v.frequency as int / 100)) + Seq::empty().push(0xFFu8).push((0xF0 + v.fec_outer) as u8).push(v.modulation)
        + put24(bcd_enc8(v.symbol_rate as int)) + Seq::empty().push(v.fec)
}
pub open spec fn cable_of(w: Seq<u8>) -> CableV {
    CableV {
        frequency: (bcd_dec8(be32(w, 2)) * 100) as u32,
        fec_outer: (w[7] % 16) as u8,
        modulation: w[8],
        symbol_rate: bcd_dec8(be24(w, 9)) as u32,
        fec: (w[12] % 16) as u8,
    }
}
pub open spec fn cable_fits(v: CableV) -> bool {
    v.frequency % 100 == 0 && v.fec_outer < 16 && v.symbol_rate < 1000000 && v.fec < 16
}

pub open spec fn terr_body(v: TerrV) -> Seq<u8> {
    put32(v.frequency as int / 10)
        + Seq::empty().push((v.bandwidth * 32 + v.priority * 16 + v.time_slicing * 8 + v.mpe_fec * 4 + 3) as u8).push((v.modulation * 64 + v.hierarchy * 8 + v.rate_hp) as u8).push((v.rate_lp * 32 + v.guard * 8 + v.mode * 2 + v.other) as u8)
        + Seq::empty().push(0xFFu8).push(0xFFu8).push(0xFFu8).push(0xFFu8)
}
pub open spec fn terr_of(w: Seq<u8>) -> TerrV {
    TerrV {
        frequency: (be32(w, 2) * 10) as u32,
        bandwidth: (w[6] / 32) as u8,
        priority: (w[6] / 16 % 2) as u8,
        time_slicing: (w[6] / 8 % 2) as u8,
        mpe_fec: (w[6] / 4 % 2) as u8,
        modulation: (w[7] / 64) as u8,
        hierarchy: (w[7] / 8 % 8) as u8,
        rate_hp: (w[7] % 8) as u8,
        rate_lp: (w[8] / 32) as u8,
        guard: (w[8] / 8 % 4) as u8,
        mode: (w[8] / 2 % 4) as u8,
        other: (w[8] % 2) as u8,
    }
}
pub open spec fn terr_fits(v: TerrV) -> bool {
    v.frequency % 10 == 0 && v.bandwidth < 8 && v.priority < 2 && v.time_slicing < 2 && v.mpe_fec < 2
        && v.modulation < 4 && v.hierarchy < 8 && v.rate_hp < 8 && v.rate_lp < 8 && v.guard < 4 && v.mode < 4 && v.other < 2
}

pub open spec fn ext_body(v: ExtV) -> Seq<u8> {
    Seq::empty().push((v.number * 16 + v.last) as u8) + tw(v.lang) + Seq::empty().push(flat(pair_wires(v.items)).len() as u8) + flat(pair_wires(v.items)) + sized(v.text)
}
pub open spec fn ext_of(w: Seq<u8>) -> ExtV {
    let e = 7 + w[6];
    ExtV {
        number: (w[2] / 16) as u8,
        last: (w[2] % 16) as u8,
        lang: text_of(w.subrange(3, 6)),
        items: pairs_of(split(g_pair(), w.subrange(7, e))),
        text: text_of(w.subrange(e + 1, e + 1 + w[e])),
    }
}
pub open spec fn ext_fits(v: ExtV) -> bool {
    v.number < 16 && v.last < 16 && cp_ok(v.lang.cp) && tw(v.lang).len() == 3 && cp_ok(v.text.cp)
        && forall|i: int| 0 <= i < v.items.len() ==> pair_fits(#[trigger] v.items[i])
}

/// data after tag and length
pub open spec fn desc_body(d: DescV) -> Seq<u8> {
    match d {
        DescV::Raw { tag, data } => data,
        DescV::D09 { caid, pid, data } => put16(caid as int) + put16(0xE000 + pid) + data,
        DescV::D0A { items } => flat(lang_wires(items)),
        DescV::D0E { bitrate } => put24(0xC0_0000 + bitrate),
        DescV::D40 { name } => tw(name),
        DescV::D41 { items } => flat(serv_wires(items)),
        DescV::D43 { v } => sat_body(v),
        DescV::D44 { v } => cable_body(v),
        DescV::D48 { kind, provider, name } => Seq::empty().push(kind) + sized(provider) + sized(name),
        DescV::D4D { lang, name, text } => tw(lang) + sized(name) + sized(text),
        DescV::D4E { v } => ext_body(v),
        DescV::D52 { tag } => Seq::empty().push(tag),
        DescV::D58 { items } => flat(off_wires(items)),
        DescV::D5A { v } => terr_body(v),
        DescV::D83 { items } => flat(lcn_wires(items)),
    }
}

pub open spec fn desc_wire(d: DescV) -> Seq<u8> { Seq::empty().push(desc_tag(d)).push(desc_body(d).len() as u8) + desc_body(d) }

/// fields in range and the data within 255 bytes
pub open spec fn desc_fits(d: DescV) -> bool {
    desc_body(d).len() <= 255 && match d {
        DescV::Raw { tag, data } => true,
        DescV::D09 { caid, pid, data } => pid < 8192,
        DescV::D0A { items } => forall|i: int| 0 <= i < items.len() ==> lang_fits(#[trigger] items[i]),
        DescV::D0E { bitrate } => bitrate < 0x40_0000,
        DescV::D40 { name } => cp_ok(name.cp),
        DescV::D41 { items } => true,
        DescV::D43 { v } => sat_fits(v),
        DescV::D44 { v } => cable_fits(v),
        DescV::D48 { kind, provider, name } => cp_ok(provider.cp) && cp_ok(name.cp),
        DescV::D4D { lang, name, text } => cp_ok(lang.cp) && cp_ok(name.cp) && cp_ok(text.cp) && tw(lang).len() == 3,
        DescV::D4E { v } => ext_fits(v),
        DescV::D52 { tag } => true,
        DescV::D58 { items } => forall|i: int| 0 <= i < items.len() ==> off_fits(#[trigger] items[i]),
        DescV::D5A { v } => terr_fits(v),
        DescV::D83 { items } => forall|i: int| 0 <= i < items.len() ==> lcn_fits(#[trigger] items[i]),
    }
}

/// values that bytes can stand for exactly: raw only where no dedicated type applies, texts in the form they decode to
pub open spec fn desc_canon(d: DescV) -> bool {
    match d {
        DescV::Raw { tag, data } => !desc_layout(desc_wire(d)),
        DescV::D0A { items } => forall|i: int| 0 <= i < items.len() ==> text_canon((#[trigger] items[i]).code),
        DescV::D40 { name } => text_canon(name),
        DescV::D48 { kind, provider, name } => text_canon(provider) && text_canon(name),
        DescV::D4D { lang, name, text } => text_canon(lang) && text_canon(name) && text_canon(text),
        DescV::D4E { v } => text_canon(v.lang) && text_canon(v.text)
            && forall|i: int| 0 <= i < v.items.len() ==> text_canon((#[trigger] v.items[i]).name) && text_canon(v.items[i].text),
        DescV::D58 { items } => forall|i: int| 0 <= i < items.len() ==> text_canon((#[trigger] items[i]).code),
        _ => true,
    }
}

/// the tag has a dedicated type and the data have its layout
pub open spec fn desc_layout(w: Seq<u8>) -> bool {
    let t = w[0];
    let n = w.len();
    if t == 0x09 { n >= 6 }
    else if t == 0x0A { (n - 2) % 4 == 0 }
    else if t == 0x0E { n == 5 }
    else if t == 0x40 { true }
    else if t == 0x41 { (n - 2) % 3 == 0 }
    else if t == 0x43 { n == 13 && bcd_dec4(be16(w, 6)) * 6 <= 65535 }
    else if t == 0x44 { n == 13 && bcd_dec8(be32(w, 2)) * 100 <= 0xFFFF_FFFF }
    else if t == 0x48 { n >= 5 && n >= 5 + w[3] && n == 5 + w[3] + w[4 + w[3]] }
    else if t == 0x4D { n >= 7 && n >= 7 + w[5] && n == 7 + w[5] + w[6 + w[5]] }
    else if t == 0x4E { n >= 8 && n >= 8 + w[6] && n == 8 + w[6] + w[7 + w[6]] && tiles(g_pair(), w.subrange(7, 7 + w[6])) }
    else if t == 0x52 { n == 3 }
    else if t == 0x58 { (n - 2) % 13 == 0 }
    else if t == 0x5A { n == 13 && be32(w, 2) * 10 <= 0xFFFF_FFFF }
    else if t == 0x83 { (n - 2) % 4 == 0 }
    else { false }
}

/// the descriptor a complete group stands for
pub open spec fn desc_of(w: Seq<u8>) -> DescV {
    let t = w[0];
    let n = w.len() as int;
    if !desc_layout(w) { DescV::Raw { tag: t, data: w.subrange(2, n) } }
    else if t == 0x09 { DescV::D09 { caid: be16(w, 2) as u16, pid: (be16(w, 4) % 8192) as u16, data: w.subrange(6, n) } }
    else if t == 0x0A { DescV::D0A { items: langs_of(split(4, w.subrange(2, n))) } }
    else if t == 0x0E { DescV::D0E { bitrate: (be24(w, 2) % 0x40_0000) as u32 } }
    else if t == 0x40 { DescV::D40 { name: text_of(w.subrange(2, n)) } }
    else if t == 0x41 { DescV::D41 { items: servs_of(split(3, w.subrange(2, n))) } }
    else if t == 0x43 { DescV::D43 { v: sat_of(w) } }
    else if t == 0x44 { DescV::D44 { v: cable_of(w) } }
    else if t == 0x48 { DescV::D48 { kind: w[2], provider: text_of(w.subrange(4, 4 + w[3])), name: text_of(w.subrange(5 + w[3], n)) } }
    else if t == 0x4D {
        DescV::D4D { lang: text_of(w.subrange(2, 5)), name: text_of(w.subrange(6, 6 + w[5])), text: text_of(w.subrange(7 + w[5], n)) }
    }
    else if t == 0x4E { DescV::D4E { v: ext_of(w) } }
    else if t == 0x52 { DescV::D52 { tag: w[2] } }
    else if t == 0x58 { DescV::D58 { items: offs_of(split(13, w.subrange(2, n))) } }
    else if t == 0x5A { DescV::D5A { v: terr_of(w) } }
    else { DescV::D83 { items: lcns_of(split(4, w.subrange(2, n))) } }
}

pub open spec fn desc_wires(s: Seq<DescV>) -> Seq<Seq<u8>> { s.map_values(|d: DescV| desc_wire(d)) }
pub open spec fn descs_of(s: Seq<Seq<u8>>) -> Seq<DescV> { s.map_values(|g: Seq<u8>| desc_of(g)) }
/// bytes of a list of descriptors
pub open spec fn list_wire(s: Seq<DescV>) -> Seq<u8> { flat(desc_wires(s)) }
/// descriptors of a loop
pub open spec fn list_of(w: Seq<u8>) -> Seq<DescV> { descs_of(split(g_desc(), w)) }
pub open spec fn list_fits(s: Seq<DescV>) -> bool { forall|i: int| 0 <= i < s.len() ==> desc_fits(#[trigger] s[i]) }
pub open spec fn list_canon(s: Seq<DescV>) -> bool { forall|i: int| 0 <= i < s.len() ==> desc_canon(#[trigger] s[i]) }


// ---------------------------------------------------------------------------
// decoding what was encoded

pub proof fn lemma_put_back(v: int, s: Seq<u8>, i: int)
    ensures
        0 <= v < 65536 && 0 <= i && i + 2 <= s.len() && s.subrange(i, i + 2) == put16(v) ==> be16(s, i) == v,
        0 <= v < 0x100_0000 && 0 <= i && i + 3 <= s.len() && s.subrange(i, i + 3) == put24(v) ==> be24(s, i) == v,
        0 <= v < 0x1_0000_0000 && 0 <= i && i + 4 <= s.len() && s.subrange(i, i + 4) == put32(v) ==> be32(s, i) == v,
{
    lemma_be_roundtrip(v);
    if 0 <= i && i + 2 <= s.len() && s.subrange(i, i + 2) == put16(v) {
        assert(s[i] == put16(v)[0]); assert(s[i + 1] == put16(v)[1]);
    }
    if 0 <= i && i + 3 <= s.len() && s.subrange(i, i + 3) == put24(v) {
        assert(s[i] == put24(v)[0]); assert(s[i + 1] == put24(v)[1]); assert(s[i + 2] == put24(v)[2]);
    }
    if 0 <= i && i + 4 <= s.len() && s.subrange(i, i + 4) == put32(v) {
        assert(s[i] == put32(v)[0]); assert(s[i + 1] == put32(v)[1]); assert(s[i + 2] == put32(v)[2]); assert(s[i + 3] == put32(v)[3]);
    }
}

proof fn lemma_lang_back(x: LangV)
    requires lang_fits(x), text_canon(x.code),
    ensures lang_of(lang_wire(x)) == x, lang_wire(x).len() == 4,
{
    lemma_text_of(x.code);
    assert(lang_wire(x).subrange(0, 3) =~= tw(x.code));
}

proof fn lemma_serv_back(x: ServV)
    ensures serv_of(serv_wire(x)) == x, serv_wire(x).len() == 3,
{
    let g = serv_wire(x);
    assert(g.subrange(0, 2) =~= put16(x.id as int));
    lemma_put_back(x.id as int, g, 0);
}

proof fn lemma_off_back(x: OffV)
    requires off_fits(x), text_canon(x.code),
    ensures off_of(off_wire(x)) == x, off_wire(x).len() == 13,
{
    let g = off_wire(x);
    lemma_text_of(x.code);
    assert(g.subrange(0, 3) =~= tw(x.code));
    let f = (x.region * 4 + 2 + x.polarity) as u8;
    assert(g[3] == f);
    assert(f / 4 == x.region && f % 2 == x.polarity);
    assert(g.subrange(4, 6) =~= put16(time_enc4(x.offset as int)));
    lemma_time4(x.offset as int);
    lemma_put_back(time_enc4(x.offset as int), g, 4);
    assert(g.subrange(6, 8) =~= put16(mjd_enc(x.change as int)));
    lemma_datetime(x.change as int);
    lemma_put_back(mjd_enc(x.change as int), g, 6);
    assert(g.subrange(8, 11) =~= put24(time_enc6(x.change as int)));
    lemma_time6(x.change as int);
    lemma_put_back(time_enc6(x.change as int), g, 8);
    assert(g.subrange(11, 13) =~= put16(time_enc4(x.next as int)));
    lemma_time4(x.next as int);
    lemma_put_back(time_enc4(x.next as int), g, 11);
}

proof fn lemma_lcn_back(x: LcnV)
    requires lcn_fits(x),
    ensures lcn_of(lcn_wire(x)) == x, lcn_wire(x).len() == 4,
{
    let g = lcn_wire(x);
    let v = x.visible * 32768 + 31744 + x.lcn;
    assert(g.subrange(0, 2) =~= put16(x.id as int));
    lemma_put_back(x.id as int, g, 0);
    assert(g.subrange(2, 4) =~= put16(v));
    lemma_put_back(v, g, 2);
    assert(g[2] == be16(g, 2) / 256);
    assert(v / 256 / 128 == x.visible);
}

proof fn lemma_pair_back(x: PairV)
    requires pair_fits(x), text_canon(x.name), text_canon(x.text),
    ensures pair_of(pair_wire(x)) == x,
{
    let g = pair_wire(x);
    let a = tw(x.name).len() as int;
    let b = tw(x.text).len() as int;
    assert(g[0] == a);
    assert(g.subrange(1, 1 + a) =~= tw(x.name));
    assert(g[1 + a] == sized(x.text)[0]);
    assert(g.subrange(2 + a, 2 + a + b) =~= tw(x.text));
    lemma_text_of(x.name);
    lemma_text_of(x.text);
}

proof fn lemma_pair_fit(x: PairV)
    requires pair_fits(x),
    ensures gfit(g_pair(), pair_wire(x)),
{
    let g = pair_wire(x);
    let a = tw(x.name).len() as int;
    assert(g[0] == a);
    assert(g[1 + a] == sized(x.text)[0]);
}

proof fn lemma_sat_back(v: SatV, w: Seq<u8>)
    requires sat_fits(v), w.len() == 13, w.subrange(2, 13) == sat_body(v),
    ensures sat_of(w) == v, bcd_dec4(be16(w, 6)) * 6 <= 65535,
{
    let b = sat_body(v);
    assert forall|i: int| 2 <= i < 13 implies w[i] == b[i - 2] by { assert(w.subrange(2, 13)[i - 2] == w[i]); }
    let (f, o, r) = (v.frequency as int / 10, v.position as int / 6, v.symbol_rate as int);
    assert(w.subrange(2, 6) =~= put32(bcd_enc8(f)));
    lemma_bcd8(f);
    lemma_put_back(bcd_enc8(f), w, 2);
    assert(w.subrange(6, 8) =~= put16(bcd_enc4(o)));
    lemma_bcd4(o);
    lemma_put_back(bcd_enc4(o), w, 6);
    assert(w.subrange(9, 12) =~= put24(bcd_enc8(r)));
    lemma_bcd6(r);
    lemma_put_back(bcd_enc8(r), w, 9);
    assert(w[8] == v.east * 128 + v.polarization * 32 + v.rof * 8 + v.s2 * 4 + v.modulation);
}

proof fn lemma_cable_back(v: CableV, w: Seq<u8>)
    requires cable_fits(v), w.len() == 13, w.subrange(2, 13) == cable_body(v),
    ensures cable_of(w) == v, bcd_dec8(be32(w, 2)) * 100 <= 0xFFFF_FFFF,
{
    let b = cable_body(v);
    assert forall|i: int| 2 <= i < 13 implies w[i] == b[i - 2] by { assert(w.subrange(2, 13)[i - 2] == w[i]); }
    let (f, r) = (v.frequency as int / 100, v.symbol_rate as int);
    assert(w.subrange(2, 6) =~= put32(bcd_enc8(f)));
    lemma_bcd8(f);
    lemma_put_back(bcd_enc8(f), w, 2);
    assert(w.subrange(9, 12) =~= put24(bcd_enc8(r)));
    lemma_bcd6(r);
    lemma_put_back(bcd_enc8(r), w, 9);
    assert(w[7] == 0xF0 + v.fec_outer);
}

proof fn lemma_fields5(a: int, b: int, c: int, d: int, e: int)
    requires 0 <= a < 8, 0 <= b < 2, 0 <= c < 2, 0 <= d < 2, 0 <= e < 4,
    ensures ({
        let x = a * 32 + b * 16 + c * 8 + d * 4 + e;
        0 <= x < 256 && x / 32 == a && x / 16 % 2 == b && x / 8 % 2 == c && x / 4 % 2 == d && x % 4 == e
    }),
{
    let x = a * 32 + b * 16 + c * 8 + d * 4 + e;
    assert(x / 16 == a * 2 + b);
    assert(x / 8 == a * 4 + b * 2 + c);
    assert(x / 4 == a * 8 + b * 4 + c * 2 + d);
}

proof fn lemma_fields3(a: int, b: int, c: int)
    requires 0 <= a < 4, 0 <= b < 8, 0 <= c < 8,
    ensures ({
        let x = a * 64 + b * 8 + c;
        0 <= x < 256 && x / 64 == a && x / 8 % 8 == b && x % 8 == c
    }),
{
    let x = a * 64 + b * 8 + c;
    assert(x / 8 == a * 8 + b);
}

proof fn lemma_fields4(a: int, b: int, c: int, d: int)
    requires 0 <= a < 8, 0 <= b < 4, 0 <= c < 4, 0 <= d < 2,
    ensures ({
        let x = a * 32 + b * 8 + c * 2 + d;
        0 <= x < 256 && x / 32 == a && x / 8 % 4 == b && x / 2 % 4 == c && x % 2 == d
    }),
{
    let x = a * 32 + b * 8 + c * 2 + d;
    assert(x / 8 == a * 4 + b);
    assert(x / 2 == a * 16 + b * 4 + c);
}

proof fn lemma_terr_back(v: TerrV, w: Seq<u8>)
    requires terr_fits(v), w.len() == 13, w.subrange(2, 13) == terr_body(v),
    ensures terr_of(w) == v, be32(w, 2) * 10 <= 0xFFFF_FFFF,
{
    let b = terr_body(v);
    assert forall|i: int| 2 <= i < 13 implies w[i] == b[i - 2] by { assert(w.subrange(2, 13)[i - 2] == w[i]); }
    let f = v.frequency as int / 10;
    assert(w.subrange(2, 6) =~= put32(f));
    lemma_put_back(f, w, 2);
    lemma_fields5(v.bandwidth as int, v.priority as int, v.time_slicing as int, v.mpe_fec as int, 3);
    lemma_fields3(v.modulation as int, v.hierarchy as int, v.rate_hp as int);
    lemma_fields4(v.rate_lp as int, v.guard as int, v.mode as int, v.other as int);
    assert(w[6] == v.bandwidth * 32 + v.priority * 16 + v.time_slicing * 8 + v.mpe_fec * 4 + 3);
    assert(w[7] == v.modulation * 64 + v.hierarchy * 8 + v.rate_hp);
    assert(w[8] == v.rate_lp * 32 + v.guard * 8 + v.mode * 2 + v.other);
}

pub proof fn lemma_ext_len(v: ExtV)
    requires ext_fits(v), ext_body(v).len() <= 255,
    ensures
        ext_body(v).len() == 6 + flat(pair_wires(v.items)).len() + tw(v.text).len(),
        gfits(g_pair(), pair_wires(v.items)),
{
    assert forall|i: int| 0 <= i < pair_wires(v.items).len() implies gfit(g_pair(), #[trigger] pair_wires(v.items)[i]) by {
        assert(pair_fits(v.items[i]));
        lemma_pair_fit(v.items[i]);
    }
}

proof fn lemma_ext_back(v: ExtV, w: Seq<u8>)
    requires
        ext_fits(v), ext_body(v).len() <= 255, w.len() >= 2, w[0] == 0x4E, from(w, 2) == ext_body(v),
        desc_canon(DescV::D4E { v }),
    ensures ext_of(w) == v, desc_layout(w),
{
    let b = ext_body(v);
    let p = flat(pair_wires(v.items));
    lemma_ext_len(v);
    assert forall|i: int| 2 <= i < w.len() implies w[i] == b[i - 2] by { assert(from(w, 2)[i - 2] == w[i]); }
    assert(w[2] == v.number * 16 + v.last);
    lemma_text_of(v.lang);
    assert(w.subrange(3, 6) =~= tw(v.lang));
    assert(w[6] == p.len());
    let e = 7 + p.len() as int;
    assert(w.subrange(7, e) =~= p);
    lemma_split_flat(g_pair(), pair_wires(v.items));
    assert(w[e] == sized(v.text)[0]);
    assert(w[e] == tw(v.text).len());
    assert(w.subrange(e + 1, e + 1 + w[e]) =~= tw(v.text));
    lemma_text_of(v.text);
    assert(pairs_of(pair_wires(v.items)) =~= v.items) by {
        assert forall|i: int| 0 <= i < v.items.len() implies pairs_of(pair_wires(v.items))[i] == v.items[i] by {
            assert(pair_fits(v.items[i]));
            assert(text_canon(v.items[i].name));
            lemma_pair_back(v.items[i]);
        }
    }
}

proof fn lemma_back_raw(d: DescV)
    requires d is Raw, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::Raw { tag, data } = d {}
}

proof fn lemma_back_d09(d: DescV)
    requires d is D09, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D09 { caid, pid, data } = d {
        assert(w.subrange(2, 4) =~= put16(caid as int));
        lemma_put_back(caid as int, w, 2);
        assert(w.subrange(4, 6) =~= put16(0xE000 + pid));
        lemma_put_back(0xE000 + pid, w, 4);
        assert(w.subrange(6, n) =~= data);
    }
}

proof fn lemma_back_d0a(d: DescV)
    requires d is D0A, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D0A { items } = d {
        let gs = lang_wires(items);
        assert forall|i: int| 0 <= i < gs.len() implies gfit(4, #[trigger] gs[i]) && gs[i].len() == 4 && lang_of(gs[i]) == items[i] by {
            assert(lang_fits(items[i]));
            assert(text_canon(items[i].code));
            lemma_lang_back(items[i]);
        }
        lemma_flat_len(gs, 4);
        lemma_split_flat(4, gs);
        assert(langs_of(gs) =~= items);
    }
}

proof fn lemma_back_d0e(d: DescV)
    requires d is D0E, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D0E { bitrate } = d {
        assert(w.subrange(2, 5) =~= put24(0xC0_0000 + bitrate));
        lemma_put_back(0xC0_0000 + bitrate, w, 2);
    }
}

proof fn lemma_back_d40(d: DescV)
    requires d is D40, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D40 { name } = d { lemma_text_of(name); }
}

proof fn lemma_back_d41(d: DescV)
    requires d is D41, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D41 { items } = d {
        let gs = serv_wires(items);
        assert forall|i: int| 0 <= i < gs.len() implies gfit(3, #[trigger] gs[i]) && gs[i].len() == 3 && serv_of(gs[i]) == items[i] by {
            lemma_serv_back(items[i]);
        }
        lemma_flat_len(gs, 3);
        lemma_split_flat(3, gs);
        assert(servs_of(gs) =~= items);
    }
}

proof fn lemma_back_d43(d: DescV)
    requires d is D43, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D43 { v } = d { lemma_sat_back(v, w); }
}

proof fn lemma_back_d44(d: DescV)
    requires d is D44, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D44 { v } = d { lemma_cable_back(v, w); }
}

proof fn lemma_back_d48(d: DescV)
    requires d is D48, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D48 { kind, provider, name } = d {
        let p = tw(provider).len() as int;
        assert(w[2] == kind);
        assert(w[3] == p);
        assert(w.subrange(4, 4 + p) =~= tw(provider));
        assert(w[4 + p] == sized(name)[0]);
        assert(w[4 + p] == tw(name).len());
        assert(w.subrange(5 + p, n) =~= tw(name));
        lemma_text_of(provider);
        lemma_text_of(name);
    }
}

proof fn lemma_back_d4d(d: DescV)
    requires d is D4D, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D4D { lang, name, text } = d {
        let p = tw(name).len() as int;
        assert(w.subrange(2, 5) =~= tw(lang));
        assert(w[5] == sized(name)[0]);
        assert(w[5] == p);
        assert(w.subrange(6, 6 + p) =~= tw(name));
        assert(w[6 + p] == sized(text)[0]);
        assert(w[6 + p] == tw(text).len());
        assert(w.subrange(7 + p, n) =~= tw(text));
        lemma_text_of(lang);
        lemma_text_of(name);
        lemma_text_of(text);
    }
}

proof fn lemma_back_d4e(d: DescV)
    requires d is D4E, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D4E { v } = d { lemma_ext_back(v, w); }
}

proof fn lemma_back_d52(d: DescV)
    requires d is D52, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D52 { tag } = d {}
}

proof fn lemma_back_d58(d: DescV)
    requires d is D58, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D58 { items } = d {
        let gs = off_wires(items);
        assert forall|i: int| 0 <= i < gs.len() implies gfit(13, #[trigger] gs[i]) && gs[i].len() == 13 && off_of(gs[i]) == items[i] by {
            assert(off_fits(items[i]));
            assert(text_canon(items[i].code));
            lemma_off_back(items[i]);
        }
        lemma_flat_len(gs, 13);
        lemma_split_flat(13, gs);
        assert(offs_of(gs) =~= items);
    }
}

proof fn lemma_back_d5a(d: DescV)
    requires d is D5A, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D5A { v } = d { lemma_terr_back(v, w); }
}

proof fn lemma_back_d83(d: DescV)
    requires d is D83, desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    let w = desc_wire(d);
    let b = desc_body(d);
    let n = w.len() as int;
    assert(w.subrange(2, n) =~= b);
    assert(w[0] == desc_tag(d));
    assert forall|i: int| 2 <= i < n implies w[i] == b[i - 2] by {}
    if let DescV::D83 { items } = d {
        let gs = lcn_wires(items);
        assert forall|i: int| 0 <= i < gs.len() implies gfit(4, #[trigger] gs[i]) && gs[i].len() == 4 && lcn_of(gs[i]) == items[i] by {
            assert(lcn_fits(items[i]));
            lemma_lcn_back(items[i]);
        }
        lemma_flat_len(gs, 4);
        lemma_split_flat(4, gs);
        assert(lcns_of(gs) =~= items);
    }
}

/// The bytes of a descriptor decode to the descriptor.
pub proof fn lemma_desc_back(d: DescV)
    requires desc_fits(d), desc_canon(d),
    ensures desc_of(desc_wire(d)) == d,
{
    hide(desc_of); hide(desc_wire); hide(desc_fits); hide(desc_canon);
    match d {
        DescV::Raw { .. } => lemma_back_raw(d),
        DescV::D09 { .. } => lemma_back_d09(d),
        DescV::D0A { .. } => lemma_back_d0a(d),
        DescV::D0E { .. } => lemma_back_d0e(d),
        DescV::D40 { .. } => lemma_back_d40(d),
        DescV::D41 { .. } => lemma_back_d41(d),
        DescV::D43 { .. } => lemma_back_d43(d),
        DescV::D44 { .. } => lemma_back_d44(d),
        DescV::D48 { .. } => lemma_back_d48(d),
        DescV::D4D { .. } => lemma_back_d4d(d),
        DescV::D4E { .. } => lemma_back_d4e(d),
        DescV::D52 { .. } => lemma_back_d52(d),
        DescV::D58 { .. } => lemma_back_d58(d),
        DescV::D5A { .. } => lemma_back_d5a(d),
        DescV::D83 { .. } => lemma_back_d83(d),
    }
}

pub proof fn lemma_desc_fit(d: DescV)
    requires desc_fits(d),
    ensures gfit(g_desc(), desc_wire(d)), desc_wire(d).len() <= 257, desc_wire(d).len() == 2 + desc_body(d).len(),
{
}

/// The bytes of a list of descriptors decode to the list.
pub proof fn lemma_list_back(s: Seq<DescV>)
    requires list_fits(s), list_canon(s),
    ensures list_of(list_wire(s)) == s,
{
    let gs = desc_wires(s);
    assert forall|i: int| 0 <= i < gs.len() implies gfit(g_desc(), #[trigger] gs[i]) by {
        assert(desc_fits(s[i]));
        lemma_desc_fit(s[i]);
    }
    lemma_split_flat(g_desc(), gs);
    assert forall|i: int| 0 <= i < s.len() implies descs_of(gs)[i] == s[i] by {
        assert(desc_fits(s[i]) && desc_canon(s[i]));
        lemma_desc_back(s[i]);
    }
    assert(descs_of(gs) =~= s);
}

/// Groups without a dedicated layout are kept byte for byte.
pub proof fn lemma_raw_kept(w: Seq<u8>)
    requires gfit(g_desc(), w), !desc_layout(w),
    ensures desc_of(w) == (DescV::Raw { tag: w[0], data: from(w, 2) }), desc_wire(desc_of(w)) == w,
{
    assert(desc_wire(desc_of(w)) =~= w);
}

pub proof fn lemma_list_push(s: Seq<DescV>, d: DescV)
    ensures list_wire(s.push(d)) == list_wire(s) + desc_wire(d),
{
    assert(desc_wires(s.push(d)) =~= desc_wires(s).push(desc_wire(d)));
    lemma_flat_push(desc_wires(s), desc_wire(d));
}

pub proof fn lemma_lang_len(s: Seq<LangV>)
    requires forall|i: int| 0 <= i < s.len() ==> lang_fits(#[trigger] s[i]),
    ensures flat(lang_wires(s)).len() == s.len() * 4, lang_wires(s).len() == s.len(),
{
    let gs = lang_wires(s);
    assert forall|i: int| 0 <= i < gs.len() implies (#[trigger] gs[i]).len() == 4 by { let x = s[i]; }
    lemma_flat_len(gs, 4);
}

pub proof fn lemma_serv_len(s: Seq<ServV>)
    ensures flat(serv_wires(s)).len() == s.len() * 3, serv_wires(s).len() == s.len(),
{
    let gs = serv_wires(s);
    assert forall|i: int| 0 <= i < gs.len() implies (#[trigger] gs[i]).len() == 3 by { let x = s[i]; }
    lemma_flat_len(gs, 3);
}

pub proof fn lemma_off_len(s: Seq<OffV>)
    requires forall|i: int| 0 <= i < s.len() ==> off_fits(#[trigger] s[i]),
    ensures flat(off_wires(s)).len() == s.len() * 13, off_wires(s).len() == s.len(),
{
    let gs = off_wires(s);
    assert forall|i: int| 0 <= i < gs.len() implies (#[trigger] gs[i]).len() == 13 by { let x = s[i]; }
    lemma_flat_len(gs, 13);
}

pub proof fn lemma_lcn_len(s: Seq<LcnV>)
    ensures flat(lcn_wires(s)).len() == s.len() * 4, lcn_wires(s).len() == s.len(),
{
    let gs = lcn_wires(s);
    assert forall|i: int| 0 <= i < gs.len() implies (#[trigger] gs[i]).len() == 4 by { let x = s[i]; }
    lemma_flat_len(gs, 4);
}


/// one pair of texts in the loop over w[s .. e]
pub proof fn lemma_ext_step(w: Seq<u8>, s: int, e: int)
    requires 0 <= s < e <= w.len(), tiles(g_pair(), w.subrange(s, e)),
    ensures
        s + 1 + w[s] < e,
        s + 2 + w[s] + w[s + 1 + w[s]] <= e,
        ({
            let t = s + 2 + w[s] + w[s + 1 + w[s]];
            let g = w.subrange(s, t);
            &&& tiles(g_pair(), w.subrange(t, e))
            &&& split(g_pair(), w.subrange(s, e)) == Seq::empty().push(g) + split(g_pair(), w.subrange(t, e))
            &&& pair_of(g) == PairV { name: text_of(w.subrange(s + 1, s + 1 + w[s])), text: text_of(w.subrange(s + 2 + w[s], t)) }
        }),
{
    let r = w.subrange(s, e);
    assert(r[0] == w[s]);
    assert(1 + r[0] < r.len());
    assert(r[1 + r[0]] == w[s + 1 + w[s]]);
    let n = glen(g_pair(), r);
    let g = w.subrange(s, s + n);
    assert(r.subrange(0, n) =~= g);
    assert(r.subrange(n, r.len() as int) =~= w.subrange(s + n, e));
    assert(g[0] == w[s]);
    assert(g[1 + g[0]] == w[s + 1 + w[s]]);
    assert(g.subrange(1, 1 + g[0]) =~= w.subrange(s + 1, s + 1 + w[s]));
    assert(g.subrange(2 + g[0], 2 + g[0] + g[1 + g[0]]) =~= w.subrange(s + 2 + w[s], s + n));
}

} // verus!
