verus! {

// ---------------------------------------------------------------------------
// sections: ISO 13818-1 2.4.4, checksum Annex A

/// length announced by the first three bytes, header included
pub open spec fn section_len(s: Seq<u8>) -> int { 3 + be16(s, 1) % 4096 }

/// twelve bit length with the upper bits kept
pub open spec fn put_len(s: Seq<u8>, n: int) -> Seq<u8> {
    s.update(1, (s[1] / 16 * 16 + n / 256 % 16) as u8).update(2, (n % 256) as u8)
}

/// bytes of a length field put below kept upper bits
pub proof fn lemma_put_len(x: u8, n: int)
    requires 0 <= n < 4096,
    ensures
        byte((x - x % 16) * 256 + n, 1) == (x / 16 * 16 + n / 256 % 16) as u8,
        byte((x - x % 16) * 256 + n, 0) == (n % 256) as u8,
        x - x % 16 == x / 16 * 16,
{
    reveal(byte);
}

/// the section made of a header and a body: length and checksum added
pub open spec fn finish(b: Seq<u8>) -> Seq<u8> {
    let h = put_len(b, b.len() as int + 1);
    h + put32(crc_spec(h) as int)
}

/// checksum field of the section in the first n bytes
pub open spec fn section_crc(s: Seq<u8>, n: int) -> int { be32(s, n - 4) }

pub proof fn lemma_finish_ext(s: Seq<u8>)
    ensures forall|t: Seq<u8>| t.len() == s.len() && (forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]) ==> #[trigger] finish(t) == finish(s),
{
    assert forall|t: Seq<u8>| t.len() == s.len() && (forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]) implies #[trigger] finish(t) == finish(s) by {
        assert(t =~= s);
    }
}

pub open spec fn section_ok(s: Seq<u8>, n: int) -> bool {
    n > 7 && s.len() >= n && section_crc(s, n) == crc_spec(s.subrange(0, n - 4))
}

/// a finished section is valid, its length field is right and only the length bits of the header changed
pub proof fn lemma_finish(b: Seq<u8>)
    requires 3 < b.len() <= 4094,
    ensures
        finish(b).len() == b.len() + 4,
        section_len(finish(b)) == b.len() + 4,
        section_ok(finish(b), b.len() as int + 4),
        finish(b)[0] == b[0],
        finish(b)[1] as int / 16 == b[1] as int / 16,
        forall|i: int| 3 <= i < b.len() ==> finish(b)[i] == b[i],
{
    let n = b.len() as int + 1;
    let h = put_len(b, n);
    let f = finish(b);
    assert(f.subrange(0, b.len() as int) =~= h);
    let x = b[1] as int;
    assert(0 <= x / 16 * 16 + n / 256 <= 255);
    assert((x / 16 * 16 + n / 256 % 16) % 16 == n / 256);
    assert((x / 16 * 16 + n / 256 % 16) / 16 == x / 16);
    assert(be16(f, 1) == (x / 16 * 16 + n / 256) * 256 + n % 256);
    assert(be16(f, 1) % 4096 == n) by {
        assert(be16(f, 1) == (x / 16) * 4096 + n);
    }
    lemma_be_roundtrip(crc_spec(h) as int);
    let c = crc_spec(h) as int;
    assert(f[b.len() as int] == put32(c)[0] && f[b.len() as int + 1] == put32(c)[1] && f[b.len() as int + 2] == put32(c)[2] && f[b.len() as int + 3] == put32(c)[3]);
}

// ---------------------------------------------------------------------------
// packets of a section

pub open spec fn packet_count(n: int) -> int { (n + 1 + 183) / 184 }

/// byte i of the packets that carry section s
#[verifier::opaque]
pub open spec fn packet_byte(s: Seq<u8>, pid: int, cc: int, i: int) -> u8 {
    let k = i / 188;
    let o = i % 188;
    if o == 0 { 0x47 }
    else if o == 1 { (pid / 256 + (if k == 0 { 64int } else { 0 })) as u8 }
    else if o == 2 { (pid % 256) as u8 }
    else if o == 3 { (16 + (cc + k) % 16) as u8 }
    else if i == 4 { 0 }
    else {
        let j = 184 * k + o - 5;
        if j < s.len() { s[j] } else { 0xFF }
    }
}

/// the same by packet number and offset
pub proof fn lemma_packet_byte(s: Seq<u8>, pid: int, cc: int, k: int, o: int)
    requires 0 <= k, 0 <= o < 188,
    ensures
        packet_byte(s, pid, cc, 188 * k + o) == (
            if o == 0 { 0x47u8 }
            else if o == 1 { (pid / 256 + (if k == 0 { 64int } else { 0 })) as u8 }
            else if o == 2 { (pid % 256) as u8 }
            else if o == 3 { (16 + (cc + k) % 16) as u8 }
            else if o == 4 && k == 0 { 0u8 }
            else if 184 * k + o - 5 < s.len() { s[184 * k + o - 5] } else { 0xFFu8 }),
{
    reveal(packet_byte);
    let i = 188 * k + o;
    assert(i / 188 == k && i % 188 == o);
}

/// one more packet, filled up to offset e
pub proof fn lemma_packet_step(d: Seq<u8>, d0: Seq<u8>, base: int, k: int, s: Seq<u8>, pid: int, cc: int, e: int)
    requires
        0 <= k, 0 <= base, 4 < e <= 188, base + 188 * k + e <= d.len(),
        forall|i: int| 0 <= i < 188 * k ==> d0[base + i] == #[trigger] packet_byte(s, pid, cc, i),
        forall|i: int| 0 <= i < base + 188 * k ==> #[trigger] d[i] == d0[i],
        d[base + 188 * k] == 0x47u8,
        d[base + 188 * k + 1] == (pid / 256 + (if k == 0 { 64int } else { 0 })) as u8,
        d[base + 188 * k + 2] == (pid % 256) as u8,
        d[base + 188 * k + 3] == (16 + (cc + k) % 16) as u8,
        k == 0 ==> d[base + 188 * k + 4] == 0u8,
        184 * k + e - 5 <= s.len(),
        forall|o: int| (if k == 0 { 5int } else { 4 }) <= o < e ==> #[trigger] d[base + 188 * k + o] == s[184 * k + o - 5],
    ensures
        forall|i: int| 0 <= i < 188 * k + e ==> d[base + i] == #[trigger] packet_byte(s, pid, cc, i),
{
    assert forall|i: int| 0 <= i < 188 * k + e implies d[base + i] == #[trigger] packet_byte(s, pid, cc, i) by {
        if i < 188 * k {
            assert(d[base + i] == d0[base + i]);
        } else {
            let o = i - 188 * k;
            lemma_packet_byte(s, pid, cc, k, o);
            if o >= (if k == 0 { 5int } else { 4 }) { assert(d[base + 188 * k + o] == s[184 * k + o - 5]); }
        }
    }
}

pub open spec fn packets(s: Seq<u8>, pid: int, cc: int) -> Seq<u8> {
    Seq::new((188 * packet_count(s.len() as int)) as nat, |i: int| packet_byte(s, pid, cc, i))
}

// ---------------------------------------------------------------------------
// reassembly: state and one step

pub struct Ras {
    pub buffer: Seq<u8>,
    pub size: int,
    pub cc: int,
}

impl Ras {
    pub open spec fn cleared(self) -> Ras { Ras { buffer: Seq::empty(), size: 0, cc: self.cc } }

    pub open spec fn append(self, d: Seq<u8>) -> Ras {
        let b = self.buffer + d;
        Ras { buffer: b, size: if self.size == 0 && b.len() >= 3 { section_len(b) } else { self.size }, cc: self.cc }
    }

    /// cuts what follows the section
    pub open spec fn cut(self) -> Ras {
        if self.size != 0 && self.buffer.len() > self.size { Ras { buffer: self.buffer.subrange(0, self.size), ..self } } else { self }
    }

    pub open spec fn complete(self) -> bool { self.size != 0 && self.buffer.len() >= self.size }

    /// drops a section that was followed by the start of another one
    pub open spec fn advance(self) -> Ras {
        if self.size != 0 && self.buffer.len() > self.size {
            let b = self.buffer.subrange(self.size, self.buffer.len() as int);
            Ras { buffer: b, size: if b.len() >= 3 { section_len(b) } else { 0 }, cc: self.cc }
        } else { self }
    }

    pub open spec fn at(self, cc: int) -> Ras { Ras { cc: cc, ..self } }

    pub open spec fn step(self, p: Seq<u8>) -> Ras {
        let off = ts_payload_offset(p);
        let cc = p[3] as int % 16;
        let next = cc == (self.cc + 1) % 16;
        if !bit(p[3], 4) { self }
        else if off == 0 { self.cleared() }
        else if bit(p[1], 6) {
            let start = off + 1 + p[off];
            let a = self.advance();
            let b = if p[off] == 0 || !next || a.complete() { a.cleared() } else { a };
            if start >= 188 { self.cleared() }
            else if b.buffer.len() == 0 { b.append(p.subrange(start, 188)).cut().at(cc) }
            else { b.append(p.subrange(off + 1, 188)).at(cc) }
        }
        else if self.buffer.len() == 0 || !next { self.cleared() }
        else { self.advance().append(p.subrange(off, 188)).cut().at(cc) }
    }

    pub open spec fn steps(self, ps: Seq<Seq<u8>>) -> Ras
        decreases ps.len(),
    {
        if ps.len() == 0 { self } else { self.steps(ps.drop_last()).step(ps.last()) }
    }

    /// C02: what holds after any packet history
    pub open spec fn sound(self) -> bool {
        &&& 0 <= self.cc < 16
        &&& self.buffer.len() <= 4098 + 183
        &&& self.size != 0 ==> self.buffer.len() >= 3 && self.size == section_len(self.buffer) && self.buffer.len() <= self.size + 183
        &&& self.size == 0 ==> self.buffer.len() < 3
    }
}

/// C02: the state stays sound
pub proof fn lemma_sound_step(r: Ras, p: Seq<u8>)
    requires r.sound(), p.len() == 188,
    ensures r.step(p).sound(),
{
    let off = ts_payload_offset(p);
    let a = r.advance();
    assert(a.sound());
    if bit(p[3], 4) && off != 0 && bit(p[1], 6) {
        let start = off + 1 + p[off];
        if start < 188 {
            let next = (p[3] as int % 16) == (r.cc + 1) % 16;
            let b = if p[off] == 0 || !next || a.complete() { a.cleared() } else { a };
            lemma_append(b, p.subrange(start, 188));
            lemma_append(b, p.subrange(off + 1, 188));
        }
    } else if off != 0 {
        lemma_append(a, p.subrange(off, 188));
    }
}

proof fn lemma_append(a: Ras, d: Seq<u8>)
    requires a.sound(), d.len() <= 184,
    ensures
        a.append(d).cut().sound(),
        !a.complete() && d.len() <= 183 ==> a.append(d).sound(),
{
    let x = a.append(d);
    if a.size != 0 {
        assert(x.buffer[1] == a.buffer[1] && x.buffer[2] == a.buffer[2]);
    }
}

pub proof fn lemma_sound(r: Ras, ps: Seq<Seq<u8>>)
    requires r.sound(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() == 188,
    ensures r.steps(ps).sound(),
    decreases ps.len(),
{
    if ps.len() > 0 {
        lemma_sound(r, ps.drop_last());
        lemma_sound_step(r.steps(ps.drop_last()), ps.last());
    }
}

// ---------------------------------------------------------------------------
// C03: layouts

/// what is kept of a run of section bytes
pub open spec fn trunc(b: Seq<u8>) -> Seq<u8> {
    if b.len() >= 3 && b.len() > section_len(b) { b.subrange(0, section_len(b)) } else { b }
}

pub open spec fn announced(b: Seq<u8>) -> int { if b.len() >= 3 { section_len(b) } else { 0 } }

/// a continuation packet and its counter
pub open spec fn continues(p: Seq<u8>, cc: int) -> bool {
    p.len() == 188 && bit(p[3], 4) && ts_payload_offset(p) != 0 && !bit(p[1], 6) && p[3] as int % 16 == cc % 16
}

pub open spec fn payload(p: Seq<u8>) -> Seq<u8> { p.subrange(ts_payload_offset(p), 188) }

pub open spec fn payloads(ps: Seq<Seq<u8>>) -> Seq<u8>
    decreases ps.len(),
{
    if ps.len() == 0 { Seq::empty() } else { payloads(ps.drop_last()) + payload(ps.last()) }
}

/// nothing follows the section that is being collected
pub open spec fn collecting(r: Ras) -> bool {
    r.buffer.len() > 0 && r.size == announced(r.buffer) && (r.size != 0 ==> r.buffer.len() <= r.size)
}

/// packets without payload change nothing
pub proof fn lemma_no_payload(r: Ras, p: Seq<u8>)
    requires p.len() == 188, !bit(p[3], 4),
    ensures r.step(p) == r,
{
}

/// a continuation after a gap, or before any start, discards what was collected
pub proof fn lemma_gap(r: Ras, p: Seq<u8>)
    requires p.len() == 188, bit(p[3], 4), !bit(p[1], 6), r.buffer.len() == 0 || p[3] as int % 16 != (r.cc + 1) % 16,
    ensures r.step(p).buffer == Seq::<u8>::empty(), r.step(p).size == 0,
{
}

/// a start after a gap keeps nothing of the bytes before it
pub proof fn lemma_gap_start(r: Ras, p: Seq<u8>)
    requires p.len() == 188, bit(p[3], 4), bit(p[1], 6), ts_payload_offset(p) != 0, p[3] as int % 16 != (r.cc + 1) % 16,
    ensures ({
        let start = ts_payload_offset(p) + 1 + p[ts_payload_offset(p)];
        r.step(p).buffer == (if start < 188 { trunc(p.subrange(start, 188)) } else { Seq::empty() })
    }),
{
    let start = ts_payload_offset(p) + 1 + p[ts_payload_offset(p)];
    if start < 188 { assert(Seq::<u8>::empty() + p.subrange(start, 188) =~= p.subrange(start, 188)); }
}

/// a section start: any pointer, any adaptation field
pub proof fn lemma_start(r: Ras, p: Seq<u8>)
    requires
        p.len() == 188, bit(p[3], 4), bit(p[1], 6), ts_payload_offset(p) != 0,
        ts_payload_offset(p) + 1 + p[ts_payload_offset(p)] < 188,
        p[ts_payload_offset(p)] == 0 || p[3] as int % 16 != (r.cc + 1) % 16 || r.complete() || r.buffer.len() == 0,
        r.buffer.len() == 0 ==> r.size == 0,
        r.size == 0 || r.buffer.len() <= r.size,
    ensures ({
        let d = p.subrange(ts_payload_offset(p) + 1 + p[ts_payload_offset(p)], 188);
        &&& r.step(p).buffer == trunc(d)
        &&& r.step(p).size == announced(d)
        &&& r.step(p).cc == p[3] as int % 16
        &&& collecting(r.step(p))
    }),
{
    let d = p.subrange(ts_payload_offset(p) + 1 + p[ts_payload_offset(p)], 188);
    assert(Seq::<u8>::empty() + d =~= d);
    assert(r.buffer.len() == 0 ==> r.buffer + d =~= d);
}

/// the packet that completes a section and starts the next one
pub proof fn lemma_tail_start(r: Ras, p: Seq<u8>, s: Seq<u8>)
    requires
        p.len() == 188, bit(p[3], 4), bit(p[1], 6), ts_payload_offset(p) != 0,
        ts_payload_offset(p) + 1 + p[ts_payload_offset(p)] < 188,
        p[ts_payload_offset(p)] > 0,
        p[3] as int % 16 == (r.cc + 1) % 16,
        collecting(r) && !r.complete(),
        s.len() >= 3 && section_len(s) == s.len(),
        s == r.buffer + p.subrange(ts_payload_offset(p) + 1, ts_payload_offset(p) + 1 + p[ts_payload_offset(p)]),
    ensures ({
        let d = p.subrange(ts_payload_offset(p) + 1 + p[ts_payload_offset(p)], 188);
        let x = r.step(p);
        &&& x.buffer == s + d
        &&& x.size == s.len()
        &&& x.cc == p[3] as int % 16
        &&& x.buffer.subrange(0, x.size) == s
        &&& x.advance().buffer == d
        &&& x.advance().size == announced(d)
    }),
{
    let off = ts_payload_offset(p);
    let d = p.subrange(off + 1 + p[off], 188);
    let x = r.step(p);
    assert(r.buffer + p.subrange(off + 1, 188) =~= s + d);
    if r.size != 0 {
        assert(s[1] == r.buffer[1] && s[2] == r.buffer[2]);
    } else {
        assert((s + d)[1] == s[1] && (s + d)[2] == s[2]);
    }
    assert(x.buffer.subrange(0, x.size) =~= s);
    assert(x.buffer.subrange(x.size, x.buffer.len() as int) =~= d);
}

/// continuation packets after a start: the section is the announced part of all bytes
pub proof fn lemma_continue(r: Ras, ps: Seq<Seq<u8>>)
    requires
        r.size >= 0,
        collecting(r.advance()),
        ps.len() > 0,
        forall|i: int| 0 <= i < ps.len() ==> continues(#[trigger] ps[i], r.cc + 1 + i),
    ensures ({
        let b = r.advance().buffer + payloads(ps);
        &&& r.steps(ps).buffer == trunc(b)
        &&& r.steps(ps).size == announced(b)
        &&& r.steps(ps).cc == (r.cc + ps.len()) % 16
        &&& collecting(r.steps(ps))
    }),
    decreases ps.len(),
{
    let q = ps.drop_last();
    let p = ps.last();
    let c = r.advance().buffer;
    let b0 = c + payloads(q);
    let b = c + payloads(ps);
    assert(b =~= b0 + payload(p));
    assert(continues(ps[ps.len() - 1], r.cc + ps.len()));
    if q.len() > 0 {
        assert forall|i: int| 0 <= i < q.len() implies continues(#[trigger] q[i], r.cc + 1 + i) by { assert(q[i] == ps[i]); }
        lemma_continue(r, q);
    } else {
        assert(r.steps(q) == r);
        assert(b0 =~= c);
    }
    let x = r.steps(q);
    assert(r.steps(ps) == x.step(p));
    let y = x.advance();
    assert(y.buffer == trunc(b0));
    assert(y.size == announced(b0));
    let z = y.append(payload(p));
    if b0.len() >= 3 {
        assert(b[1] == b0[1] && b[2] == b0[2]);
        assert(z.buffer[1] == b[1] && z.buffer[2] == b[2]);
        assert(announced(b) == announced(b0));
    }
    assert(z.size == announced(b));
    assert(z.cut().buffer =~= trunc(b));
    assert(x.buffer.len() > 0);
    assert((x.cc + 1) % 16 == (r.cc + ps.len()) % 16) by {
        if q.len() > 0 {
            assert(x.cc == (r.cc + q.len()) % 16);
        }
    }
    assert(x.step(p) == z.cut().at(p[3] as int % 16));
    if b.len() >= 3 {
        assert(trunc(b)[1] == b[1] && trunc(b)[2] == b[2]);
    }
}

/// a whole section behind a start packet and continuation packets
pub proof fn lemma_recover(r: Ras, p: Seq<u8>, ps: Seq<Seq<u8>>, s: Seq<u8>)
    requires
        p.len() == 188, bit(p[3], 4), bit(p[1], 6), ts_payload_offset(p) != 0,
        ts_payload_offset(p) + 1 + p[ts_payload_offset(p)] < 188,
        p[ts_payload_offset(p)] == 0 || p[3] as int % 16 != (r.cc + 1) % 16 || r.complete() || r.buffer.len() == 0,
        r.buffer.len() == 0 ==> r.size == 0,
        r.size == 0 || r.buffer.len() <= r.size,
        forall|i: int| 0 <= i < ps.len() ==> continues(#[trigger] ps[i], p[3] as int % 16 + 1 + i),
        s.len() >= 3 && section_len(s) == s.len(),
        ({
            let d = p.subrange(ts_payload_offset(p) + 1 + p[ts_payload_offset(p)], 188) + payloads(ps);
            d.len() >= s.len() && d.subrange(0, s.len() as int) == s
        }),
    ensures ({
        let x = r.step(p).steps(ps);
        x.buffer == s && x.size == s.len()
    }),
{
    let d0 = p.subrange(ts_payload_offset(p) + 1 + p[ts_payload_offset(p)], 188);
    let d = d0 + payloads(ps);
    lemma_start(r, p);
    assert(d[1] == s[1] && d[2] == s[2]);
    if ps.len() > 0 {
        let y = r.step(p);
        assert(y.advance() == y);
        lemma_continue(y, ps);
        if d0.len() >= 3 {
            assert(d0[1] == d[1] && d0[2] == d[2]);
            if d0.len() > section_len(d0) {
                // complete in the first packet
                let b = y.buffer + payloads(ps);
                assert(y.buffer == d0.subrange(0, section_len(d0)));
                assert(b[1] == s[1] && b[2] == s[2]);
                assert(trunc(b) =~= s) by {
                    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == d.subrange(0, s.len() as int)[i]);
                }
            }
        }
        assert(y.steps(ps).buffer =~= s);
    } else {
        assert(d =~= d0);
    }
}

// ---------------------------------------------------------------------------
// C01: packets of a section give the section

pub open spec fn packet(s: Seq<u8>, pid: int, cc: int, k: int) -> Seq<u8> {
    packets(s, pid, cc).subrange(188 * k, 188 * (k + 1))
}

/// packets a .. b
pub open spec fn packet_run(s: Seq<u8>, pid: int, cc: int, a: int, b: int) -> Seq<Seq<u8>> {
    Seq::new((b - a) as nat, |i: int| packet(s, pid, cc, a + i))
}

proof fn lemma_packet_fields(s: Seq<u8>, pid: int, cc: int, k: int)
    requires 0 <= k < packet_count(s.len() as int), 0 <= pid < 8192, 0 <= cc < 16,
    ensures ({
        let p = packet(s, pid, cc, k);
        &&& p.len() == 188
        &&& bit(p[3], 4)
        &&& ts_payload_offset(p) == 4
        &&& bit(p[1], 6) == (k == 0)
        &&& p[3] as int % 16 == (cc + k) % 16
        &&& k == 0 ==> p[4] == 0
        &&& forall|o: int| (if k == 0 { 5int } else { 4 }) <= o < 188 ==> #[trigger] p[o] ==
            (if 184 * k + o - 5 < s.len() { s[184 * k + o - 5] } else { 0xFFu8 })
    }),
{
    let p = packet(s, pid, cc, k);
    assert forall|o: int| 0 <= o < 188 implies #[trigger] p[o] == packet_byte(s, pid, cc, 188 * k + o) by {}
    lemma_packet_byte(s, pid, cc, k, 1);
    lemma_packet_byte(s, pid, cc, k, 3);
    lemma_packet_byte(s, pid, cc, k, 4);
    assert(p[1] == packet_byte(s, pid, cc, 188 * k + 1));
    assert(p[3] == packet_byte(s, pid, cc, 188 * k + 3));
    assert(p[4] == packet_byte(s, pid, cc, 188 * k + 4));
    let c = (cc + k) % 16;
    assert(p[3] == (16 + c) as u8);
    assert forall|o: int| (if k == 0 { 5int } else { 4 }) <= o < 188 implies #[trigger] p[o] ==
            (if 184 * k + o - 5 < s.len() { s[184 * k + o - 5] } else { 0xFFu8 }) by {
        lemma_packet_byte(s, pid, cc, k, o);
    }
}

/// section bytes followed by stuffing
pub open spec fn stuffed(s: Seq<u8>, n: int) -> Seq<u8> {
    Seq::new(n as nat, |j: int| if j < s.len() { s[j] } else { 0xFFu8 })
}

proof fn lemma_run_payloads(s: Seq<u8>, pid: int, cc: int, m: int)
    requires 1 <= m <= packet_count(s.len() as int), 0 <= pid < 8192, 0 <= cc < 16,
    ensures packet(s, pid, cc, 0).subrange(5, 188) + payloads(packet_run(s, pid, cc, 1, m)) == stuffed(s, 184 * m - 1),
    decreases m,
{
    let q = packet_run(s, pid, cc, 1, m);
    let h = packet(s, pid, cc, 0).subrange(5, 188);
    if m == 1 {
        lemma_packet_fields(s, pid, cc, 0);
        assert(h + payloads(q) =~= stuffed(s, 184 * m - 1));
    } else {
        lemma_run_payloads(s, pid, cc, m - 1);
        lemma_packet_fields(s, pid, cc, m - 1);
        assert(q.drop_last() =~= packet_run(s, pid, cc, 1, m - 1));
        let l = payload(packet(s, pid, cc, m - 1));
        assert(q.last() == packet(s, pid, cc, m - 1));
        assert(h + payloads(q) =~= stuffed(s, 184 * (m - 1) - 1) + l);
        assert(l.len() == 184);
        assert(stuffed(s, 184 * (m - 1) - 1) + l =~= stuffed(s, 184 * m - 1));
    }
}

/// C01: feeding the packets gives the section, whatever was there before
pub proof fn lemma_packets_back(r: Ras, s: Seq<u8>, pid: int, cc: int)
    requires
        3 <= s.len() <= 4098, section_len(s) == s.len(), 0 <= pid < 8192, 0 <= cc < 16,
    ensures ({
        let x = r.steps(packet_run(s, pid, cc, 0, packet_count(s.len() as int)));
        x.buffer == s && x.size == s.len()
    }),
{
    let n = packet_count(s.len() as int);
    let all = packet_run(s, pid, cc, 0, n);
    let p = packet(s, pid, cc, 0);
    let ps = packet_run(s, pid, cc, 1, n);
    assert(all[0] == p);
    lemma_packet_fields(s, pid, cc, 0);
    lemma_run_payloads(s, pid, cc, n);
    assert forall|i: int| 0 <= i < ps.len() implies continues(#[trigger] ps[i], p[3] as int % 16 + 1 + i) by {
        lemma_packet_fields(s, pid, cc, 1 + i);
    }
    // a zero pointer restarts from any state
    let d0 = p.subrange(5, 188);
    assert(p.subrange(4 + 1 + p[4], 188) == d0);
    let e = Ras { buffer: Seq::empty(), size: 0, cc: 0 };
    assert(r.step(p) == e.step(p)) by {
        assert(r.advance().cleared().append(d0).buffer =~= e.advance().cleared().append(d0).buffer);
    }
    let d = d0 + payloads(ps);
    assert(d.subrange(0, s.len() as int) =~= s);
    lemma_recover(e, p, ps, s);
    assert(all =~= seq![p] + ps);
    lemma_steps_split(r, all, p, ps);
}

proof fn lemma_steps_split(r: Ras, all: Seq<Seq<u8>>, p: Seq<u8>, ps: Seq<Seq<u8>>)
    requires all == seq![p] + ps,
    ensures r.steps(all) == r.step(p).steps(ps),
    decreases ps.len(),
{
    if ps.len() == 0 {
        assert(all.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(all.last() == p);
        assert(r.steps(all.drop_last()) == r);
    } else {
        assert(all.drop_last() =~= seq![p] + ps.drop_last());
        assert(all.last() == ps.last());
        lemma_steps_split(r, all.drop_last(), p, ps.drop_last());
    }
}

} // verus!
verus! {

/// header of a long section before it is filled
pub open spec fn psi_header(table_id: u8, size: int, version: int) -> Seq<u8> {
    Seq::new(size as nat, |i: int|
        if i == 0 { table_id }
        else if i == 1 { 0xB0u8 }
        else if i == 5 { (0xC1 + (version % 32) * 2) as u8 }
        else { 0u8 })
}

pub proof fn lemma_version_byte(v: u8)
    ensures
        (0xC0u8 | ((v << 1u8) & 0x3Eu8) | 0x01u8) == 0xC1 + (v % 32) * 2,
        (0xC1u8 | ((v << 1u8) & 0x3Eu8)) == 0xC1 + (v % 32) * 2,
        (0xC1u8 | ((v & 0x1Fu8) << 1u8)) == 0xC1 + (v % 32) * 2,
        (0xC0u8 | ((v & 0x1Fu8) << 1u8) | 0x01u8) == 0xC1 + (v % 32) * 2,
{
    assert((0xC1u8 | ((v << 1u8) & 0x3Eu8)) == 0xC1 + (v % 32) * 2) by (bit_vector);
    assert((0xC1u8 | ((v & 0x1Fu8) << 1u8)) == 0xC1 + (v % 32) * 2) by (bit_vector);
    assert((0xC0u8 | ((v & 0x1Fu8) << 1u8) | 0x01u8) == 0xC1 + (v % 32) * 2) by (bit_vector);
    assert((0xC0u8 | ((v << 1u8) & 0x3Eu8) | 0x01u8) == 0xC1 + (v % 32) * 2) by (bit_vector);
}

/// checksum of the first n bytes written into the last four of them
pub open spec fn put_crc(s: Seq<u8>, n: int) -> Seq<u8> {
    let c = crc_spec(s.subrange(0, n - 4)) as int;
    s.update(n - 4, byte(c, 3)).update(n - 3, byte(c, 2)).update(n - 2, byte(c, 1)).update(n - 1, byte(c, 0))
}

} // verus!
