//@ module psi
//@ prelude
broadcast use crate::spec::group_bits;

impl vstd::std_specs::cmp::PartialEqSpecImpl for Psi {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Psi) -> bool { true }
}

impl Psi {
    pub open spec fn ras(&self) -> Ras { Ras { buffer: self.buffer@, size: self.size as int, cc: self.cc as int } }
}

pub open spec fn bufs(s: Seq<Psi>) -> Seq<Seq<u8>> { s.map_values(|p: Psi| p.buffer@) }

/// no section is finished
pub open spec fn all_open(s: Seq<Psi>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).size == 0 }

pub proof fn lemma_last_buf(s: Seq<Psi>)
    ensures bufs(s).len() == s.len(), s.len() > 0 ==> bufs(s).last() == s.last().buffer@,
{
}
//@ fn Default for Psi::default
    ensures r.buffer@.len() == 0, r.size == 0, r.pid == 0, r.cc == 0,
//@ fn Clone for Psi::clone
    ensures r.buffer@ == self.buffer@, r.size == self.size, r.pid == self.pid, r.cc == self.cc,
//@ fn PartialEq for Psi::eq
    ensures
        (7 <= self.size <= self.buffer@.len() && 7 <= other.size <= other.buffer@.len()) ==>
            r == (self.size == other.size && section_crc(self.buffer@, self.size as int) == section_crc(other.buffer@, other.size as int)),
//@ fn Psi::new
    requires size >= 3,
    ensures
        r.buffer@ == psi_header(table_id, size as int, version as int),
        r.size == 0, r.pid == 0, r.cc == 0,
//@ at entry
proof { broadcast use crate::spec::group_or;  lemma_version_byte(version); }
//@ at exit
proof { assert(vx_ret.buffer@ =~= psi_header(table_id, size as int, version as int)); }
//@ fn Psi::clear
    ensures final(self).ras() == old(self).ras().cleared(), final(self).pid == old(self).pid,
//@ at exit
proof { assert(self.buffer@ =~= Seq::<u8>::empty()); }
//@ fn Psi::push
    ensures
        final(self).ras() == old(self).ras().append(payload@),
        payload@.len() == 0 ==> final(self).buffer@ == old(self).buffer@,
        final(self).pid == old(self).pid,
//@ at exit
proof { assert(self.buffer@ =~= old(self).buffer@ + payload@); }
proof { assert(payload@.len() == 0 ==> self.buffer@ =~= old(self).buffer@); }
//@ fn Psi::mux
    requires ts@.len() == 188, old(self).cc < 16,
    ensures
        final(self).ras() == old(self).ras().step(ts@),
        final(self).pid == old(self).pid,
//@ at exit
proof {
    assert(self.ras() == old(self).ras().step(ts@));
}
//@ fn Psi::get_crc32
    requires 4 <= self.size <= self.buffer@.len(),
    ensures r == section_crc(self.buffer@, self.size as int),
//@ fn Psi::calc_crc32
    requires 4 <= self.size <= self.buffer@.len(),
    ensures
        r == crc_spec(self.buffer@.subrange(0, self.size - 4)),
        forall|s: Seq<u8>| s.len() == self.size - 4 && (forall|i: int| 0 <= i < s.len() ==> s[i] == self.buffer@[i]) ==> r == #[trigger] crc_spec(s),
//@ fn Psi::check_crc32
    requires 4 <= self.size <= self.buffer@.len(),
    ensures r == (section_crc(self.buffer@, self.size as int) == crc_spec(self.buffer@.subrange(0, self.size - 4))),
//@ at entry
proof {
    let s = self.buffer@.subrange(0, self.size as int);
    lemma_crc_residue(s);
    assert(s.subrange(0, s.len() - 4) =~= self.buffer@.subrange(0, self.size - 4));
}
//@ fn Psi::check
    ensures r == section_ok(self.buffer@, self.size as int),
//@ fn Psi::finalize
    requires
        old(self).size == 0 ==> 3 <= old(self).buffer@.len() <= 4094,
        old(self).size != 0 ==> 4 <= old(self).size <= old(self).buffer@.len(),
    ensures
        old(self).size == 0 ==> final(self).buffer@ == finish(old(self).buffer@) && final(self).size == old(self).buffer@.len() + 4,
        old(self).size != 0 ==> final(self).buffer@ == put_crc(old(self).buffer@, old(self).size as int) && final(self).size == old(self).size,
        final(self).pid == old(self).pid,
        final(self).cc == old(self).cc,
//@ at entry
proof {
    if self.size == 0 { lemma_put_len(self.buffer@[1], self.buffer@.len() as int + 1); }
}
//@ at exit
proof {
    let b = old(self).buffer@;
    if old(self).size == 0 {
        assert(self.buffer@ =~= finish(b));
    } else {
        assert(self.buffer@ =~= put_crc(b, old(self).size as int));
    }
}
//@ fn Psi::demux
    requires
        1 <= old(self).size <= old(self).buffer@.len(),
        old(self).size <= 4098,
        old(self).pid < 8192,
        old(self).cc < 16,
        old(dst)@.len() <= usize::MAX - 188 * 24,
    ensures
        final(dst)@ == old(dst)@ + packets(old(self).buffer@.subrange(0, old(self).size as int), old(self).pid as int, old(self).cc as int),
        final(self).buffer@ == old(self).buffer@,
        final(self).size == old(self).size,
        final(self).pid == old(self).pid,
        final(self).cc == (old(self).cc + packet_count(old(self).size as int)) % 16,
//@ at entry
let ghost mut k: int = 0;
proof { ts::lemma_fill(); }
let ghost base = old(dst)@.len() as int;
let ghost sec = old(self).buffer@.subrange(0, old(self).size as int);
let ghost n = packet_count(old(self).size as int);
//@ loop 0
    invariant
        self.buffer@ == old(self).buffer@,
        self.size == old(self).size,
        self.pid == old(self).pid,
        self.size <= self.buffer@.len(),
        self.pid < 8192,
        self.cc == (old(self).cc + k) % 16,
        0 <= k <= n,
        1 <= self.size <= 4098,
        n == (self.size + 184) / 184,
        dst@.len() == base + 188 * n,
        base == old(dst)@.len(),
        sec.len() == self.size,
        sec == old(self).buffer@.subrange(0, old(self).size as int),
        psi_skip == (if k == 0 { 0 } else if 184 * k - 1 <= self.size { 184 * k - 1 } else { self.size as int }),
        psi_skip < self.size ==> dst_skip == base + 188 * k,
        psi_skip >= self.size ==> k == n && base + 188 * (n - 1) < dst_skip <= base + 188 * n && dst_skip - base == self.size + 4 * n + 1,
        forall|i: int| 0 <= i < base ==> dst@[i] == old(dst)@[i],
        forall|i: int| 0 <= i < dst_skip - base ==> dst@[base + i] == #[trigger] packet_byte(sec, self.pid as int, old(self).cc as int, i),
        forall|i: int| dst_skip <= i < dst@.len() ==> dst@[i] == 0,
    decreases self.size - psi_skip,
//@ at loop 0 entry
let ghost dst0 = dst@;
let ghost skip0 = psi_skip as int;
//@ at loop 0 exit
proof {
    let b0 = base + 188 * k;
    let c0 = (old(self).cc + k) % 16;
    assert(dst@.len() == dst0.len());
    assert(dst@[b0] == 0x47u8);
    assert(dst@[b0 + 1] == (self.pid as int / 256 + (if k == 0 { 64int } else { 0 })) as u8);
    assert(dst@[b0 + 2] == (self.pid as int % 256) as u8);
    assert(dst@[b0 + 3] == (16 + c0) as u8);
    assert(k == 0 ==> dst@[b0 + 4] == 0u8);
    assert forall|i: int| 0 <= i < b0 implies #[trigger] dst@[i] == dst0[i] by {}
    assert forall|i: int| dst_skip <= i < dst@.len() implies #[trigger] dst@[i] == 0 by {
        assert(dst0[i] == 0);
    }
    let h = if k == 0 { 5int } else { 4int };
    assert forall|o: int| h <= o < dst_skip - b0 implies #[trigger] dst@[b0 + o] == sec[skip0 + o - h] by {}
    lemma_packet_step(dst@, dst0, base, k, sec, self.pid as int, old(self).cc as int, dst_skip - b0);
    k = k + 1;
}
//@ at exit
proof {
    assert(k == n);
    assert forall|i: int| 0 <= i < 188 * n implies dst@[base + i] == #[trigger] packet_byte(sec, self.pid as int, old(self).cc as int, i) by {
        if i >= 188 * (n - 1) {
            lemma_packet_byte(sec, self.pid as int, old(self).cc as int, n - 1, i - 188 * (n - 1));
        }
    }
    assert(dst@ =~= old(dst)@ + packets(sec, self.pid as int, old(self).cc as int));
}
//@ flatten trait PsiDemux
