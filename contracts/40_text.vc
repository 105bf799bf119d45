//@ module textcode::data
//@ prelude
pub proof fn lemma_data()
    ensures
        ISO6937_lit() == table_0(),
        ISO8859_1_lit() == table_1(),
        ISO8859_2_lit() == table_2(),
        ISO8859_3_lit() == table_3(),
        ISO8859_4_lit() == table_4(),
        ISO8859_5_lit() == table_5(),
        ISO8859_6_lit() == table_6(),
        ISO8859_7_lit() == table_7(),
        ISO8859_8_lit() == table_8(),
        ISO8859_9_lit() == table_9(),
        ISO8859_10_lit() == table_10(),
        ISO8859_11_lit() == table_11(),
        ISO8859_13_lit() == table_13(),
        ISO8859_14_lit() == table_14(),
        ISO8859_15_lit() == table_15(),
{
    reveal(table_0); assert(ISO6937_lit() =~= table_0()) by (compute_only);
    reveal(table_1); assert(ISO8859_1_lit() =~= table_1()) by (compute_only);
    reveal(table_2); assert(ISO8859_2_lit() =~= table_2()) by (compute_only);
    reveal(table_3); assert(ISO8859_3_lit() =~= table_3()) by (compute_only);
    reveal(table_4); assert(ISO8859_4_lit() =~= table_4()) by (compute_only);
    reveal(table_5); assert(ISO8859_5_lit() =~= table_5()) by (compute_only);
    reveal(table_6); assert(ISO8859_6_lit() =~= table_6()) by (compute_only);
    reveal(table_7); assert(ISO8859_7_lit() =~= table_7()) by (compute_only);
    reveal(table_8); assert(ISO8859_8_lit() =~= table_8()) by (compute_only);
    reveal(table_9); assert(ISO8859_9_lit() =~= table_9()) by (compute_only);
    reveal(table_10); assert(ISO8859_10_lit() =~= table_10()) by (compute_only);
    reveal(table_11); assert(ISO8859_11_lit() =~= table_11()) by (compute_only);
    reveal(table_13); assert(ISO8859_13_lit() =~= table_13()) by (compute_only);
    reveal(table_14); assert(ISO8859_14_lit() =~= table_14()) by (compute_only);
    reveal(table_15); assert(ISO8859_15_lit() =~= table_15()) by (compute_only);
}
//@ module textcode
//@ prelude
broadcast use crate::spec::group_bits;

impl vstd::std_specs::convert::FromSpecImpl<&[u8]> for StringDVB {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &[u8]) -> StringDVB { arbitrary() }
}

impl StringDVB {
    pub open spec fn cp(&self) -> int { self.codepage as int }
    pub open spec fn wf(&self) -> bool { cp_ok(self.cp()) }
    pub open spec fn tv(&self) -> TextV { TextV { cp: self.cp(), d: self.data@ } }
    pub open spec fn wire(&self) -> Seq<u8> { text_wire(self.cp(), self.data@) }
}

pub open spec fn datas(v: Seq<StringDVB>) -> Seq<Seq<u8>> { v.map_values(|s: StringDVB| s.data@) }

/// what the text looks like
pub open spec fn shown(s: &StringDVB) -> Seq<char> {
    if s.data@.len() == 0 { Seq::empty() }
    else if s.cp() == utf8() { utf8_lossy(s.data@) }
    else { bytes_text(table(s.cp())->Some_0, s.data@) }
}
//@ fn get_codepage_map
    ensures
        table(codepage as int) is None ==> r is None,
        table(codepage as int) is Some ==> (r matches Some(m) && m@ == table(codepage as int)->Some_0),
//@ at entry
proof { data::lemma_data(); }
//@ inside fmt::Display for StringDVB
    open spec fn fmt_pre(&self) -> bool { self.wf() }
//@ fn fmt::Display for StringDVB::fmt
    ensures
        r is Ok || final(f).failed(),
        r is Ok ==> final(f)@ == old(f)@ + shown(self),
        r is Ok && self.cp() == utf8() && self.data@.len() > 0 && vstd::utf8::valid_utf8(self.data@) ==> final(f)@ == old(f)@ + vstd::utf8::decode_utf8(self.data@),
//@ at entry
let ghost t0 = if self.cp() == utf8() { Seq::<u16>::empty() } else { table(self.cp())->Some_0 };
proof {
    if self.cp() != utf8() { lemma_tables_sane(self.cp()); }
    assert(self.data@.len() == 0 ==> self.data@ =~= Seq::<u8>::empty());
    assert(old(f)@ + Seq::<char>::empty() =~= old(f)@);
}
//@ loop 0
    invariant
        vx_i0 <= self.data@.len(),
        f@ == old(f)@ + bytes_text(t0, self.data@.subrange(0, vx_i0 as int)),
    decreases self.data@.len() - vx_i0,
//@ at before loop 0
proof { assert(self.data@.subrange(0, 0) =~= Seq::<u8>::empty()); assert(bytes_text(t0, self.data@.subrange(0, 0)) =~= Seq::<char>::empty()); assert(f@ =~= old(f)@ + Seq::<char>::empty()); }
//@ at loop 0 entry
let ghost f0 = f@;
proof { lemma_bytes_text_push(t0, self.data@, vx_i0 - 1); }
//@ at loop 0 exit
proof { assert(f@ =~= f0 + byte_chars(t0, c)); assert(f@ =~= old(f)@ + bytes_text(t0, self.data@.subrange(0, vx_i0 as int))); }
//@ at after loop 0
proof { assert(self.data@.subrange(0, self.data@.len() as int) =~= self.data@); }
//@ fn Default for StringDVB::default
    ensures r.codepage == 0, r.data@.len() == 0,
//@ fn Clone for StringDVB::clone
    ensures r.codepage == self.codepage, r.data@ == self.data@,
//@ fn StringDVB::from_str
    ensures
        r.wf(),
        table(codepage as int) is None ==> r.cp() == utf8() && r.data@ == vstd::utf8::encode_utf8(s@),
        table(codepage as int) is Some ==> r.codepage == codepage && r.data@ == text_bytes(table(codepage as int)->Some_0, s@),
    decreases (if codepage == 21 { 0int } else { 1 }),
//@ at entry
let ghost t0 = table(codepage as int)->Some_0;
proof { assert(s@.subrange(0, s@.len() as int) =~= s@); if table(codepage as int) is Some { lemma_tables_sane(codepage as int); } }
//@ at after call extend_from_slice
proof { assert(data@ =~= vstd::utf8::encode_utf8(s@)); }
//@ loop 0
    invariant
        vx_i0 <= vx_s0@.len(),
        vx_s0@ == s@,
        map@ == t0,
        table_sane(t0),
        data@ == text_bytes(t0, s@.subrange(0, vx_i0 as int)),
    decreases vx_s0@.len() - vx_i0,
//@ at before loop 0
proof { assert(data@ =~= text_bytes(t0, s@.subrange(0, 0))); }
//@ at loop 0 entry
let ghost d0 = data@;
let ghost ch = c;
proof { lemma_text_bytes_push(t0, s@, vx_i0 - 1); lemma_table_pos(t0, ch as int, 0); }
//@ loop 1
    invariant
        vx_i1 <= map@.len(),
        map@ == t0,
        vx_acc1 is None,
        forall|j: int| 0 <= j < vx_i1 ==> #[trigger] t0[j] != c,
    decreases map@.len() - vx_i1,
//@ at after loop 1
proof {
    if let Some(k) = vx_acc1 { lemma_table_first(t0, ch as int, k as int); }
}
//@ at loop 0 exit
proof {
    assert(c as int == if ch as int > 0xFFFF { 0xFFFF } else { ch as int });
    let p = table_pos(t0, ch as int, 0);
    if c < 0x80 { assert(data@ =~= d0 + char_bytes(t0, ch)); }
    else if c < 0xA0 { assert(data@ =~= d0 + char_bytes(t0, ch)); }
    else if p >= 0 { assert(t0[p] == c); assert(data@ =~= d0.push((p + 0xA0) as u8)); assert(data@ =~= d0 + char_bytes(t0, ch)); }
    else { assert(data@ =~= d0 + substitute(c as int)); assert(data@ =~= d0 + char_bytes(t0, ch)); }
}
//@ fn StringDVB::get_codepage
    ensures r == self.codepage,
//@ fn StringDVB::as_bytes
    ensures r@ == self.data@,
//@ fn StringDVB::is_empty
    ensures r == (self.data@.len() == 0),
//@ fn StringDVB::size
    requires self.data@.len() < 0x1000_0000,
    ensures r == self.wire().len(),
//@ fn StringDVB::assemble
    ensures final(dst)@ == old(dst)@ + self.wire(),
//@ at exit
proof { assert(dst@ =~= old(dst)@ + self.wire()); }
//@ fn StringDVB::assemble_sized
    requires self.wire().len() <= 255,
    ensures final(dst)@ == old(dst)@ + Seq::empty().push(self.wire().len() as u8) + self.wire(),
//@ at exit
proof { assert(dst@ =~= old(dst)@ + Seq::empty().push(self.wire().len() as u8) + self.wire()); }
//@ fn StringDVB::truncate
    ensures
        final(self).codepage == old(self).codepage,
        final(self).data@ == text_cut(old(self).data@, size as int),
        final(self).data@.len() <= size,
//@ loop 0
    invariant
        vx_i0 <= vx_s0@.len(),
        forall|j: int| 0 <= j < vx_i0 ==> vx_s0@[j] == 46,
    decreases vx_s0@.len() - vx_i0,
//@ at exit
proof { assert(self.data@ =~= text_cut(old(self).data@, size as int)); }
//@ fn StringDVB::split
    requires
        size >= 5,
        self.wf(),
        self.data@.len() + size <= usize::MAX,
    ensures
        flat(datas(r@)) == self.data@,
        r@.len() >= 1,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).codepage == self.codepage && r@[i].wire().len() <= size,
        self.cp() == utf8() && self.data@.len() > 0 && cut_able(self.data@) ==> leads(datas(r@)),
//@ at entry
let ghost size0 = size;
let ghost next0: int = 0;
//@ loop 0
    invariant
        skip <= self.data@.len(),
        self.data@.len() + size0 <= usize::MAX,
        size0 >= 5,
        size == (if self.codepage == 0 { size0 as int } else if self.codepage == 21 { size0 - 1 } else { size0 - 3 }),
        self.wf(),
        flat(datas(out@)) == self.data@.subrange(0, skip as int),
        skip > 0 ==> out@.len() >= 1,
        forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).codepage == self.codepage && out@[i].wire().len() <= size0,
        self.cp() == utf8() && cut_able(self.data@) ==> leads(datas(out@)) && (skip < self.data@.len() ==> !is_cont(self.data@[skip as int])),
    decreases self.data@.len() - skip,
//@ at after call push
proof { assert(datas(out@) =~= Seq::<Seq<u8>>::empty().push(self.data@)); lemma_flat_push(Seq::<Seq<u8>>::empty(), self.data@); assert(flat(datas(out@)) =~= self.data@); }
//@ at loop 0 entry
let ghost out0 = out@;
let ghost skip0 = skip as int;
let ghost next0 = if self.data@.len() < skip + size { self.data@.len() as int } else { skip + size };
//@ loop 1
    invariant
        1 <= vx_i1 <= 4,
        next == next0 - (vx_i1 - 1),
        next0 == skip + size,
        next0 < self.data@.len(),
        vx_i1 >= 2 ==> is_cont(self.data@[next0]),
        vx_i1 >= 3 ==> is_cont(self.data@[next0 - 1]),
        vx_i1 >= 4 ==> is_cont(self.data@[next0 - 2]),
    decreases 4 - vx_i1,
//@ at loop 0 exit
proof {
    let p = self.data@.subrange(skip0, next as int);
    assert(out@.last().data@ =~= p);
    assert(datas(out@) =~= datas(out0).push(p));
    lemma_flat_push(datas(out0), p);
    assert(self.data@.subrange(0, skip0) + p =~= self.data@.subrange(0, next as int));
}
//@ at exit
proof { assert(self.data@.subrange(0, self.data@.len() as int) =~= self.data@); }
//@ fn From<&[u8]> for StringDVB::from
    ensures
        r.wf(),
        r.cp() == wire_cp(data@),
        r.data@ == wire_text(data@),
//@ at exit
proof { assert(vx_ret.data@ =~= wire_text(data@)); }
