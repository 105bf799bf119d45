verus! {

// transport packet header, ISO 13818-1

pub open spec fn ts_pid(p: Seq<u8>) -> int { (p[1] % 32) * 256 + p[2] }

pub open spec fn ts_put_pid(p: Seq<u8>, pid: int) -> Seq<u8> {
    p.update(1, (p[1] / 32 * 32 + pid / 256) as u8).update(2, (pid % 256) as u8)
}

/// sets or clears the bit of weight m in byte i
pub open spec fn ts_put_bit(p: Seq<u8>, i: int, m: int, on: bool) -> Seq<u8> {
    let set = p[i] as int / m % 2 == 1;
    if on && !set { p.update(i, (p[i] + m) as u8) }
    else if !on && set { p.update(i, (p[i] - m) as u8) }
    else { p }
}

pub open spec fn ts_payload_offset(p: Seq<u8>) -> int {
    if !bit(p[3], 4) { 0 }
    else if !bit(p[3], 5) { 4 }
    else if p[4] < 183 { 5 + p[4] }
    else { 0 }
}

// program clock reference

pub open spec fn pcr_cycle() -> int { 2576980377600 }

pub open spec fn pcr_get(p: Seq<u8>) -> int {
    (p[6] * 33554432 + p[7] * 131072 + p[8] * 512 + p[9] * 2 + p[10] / 128) * 300
        + (p[10] % 2) * 256 + p[11]
}

pub open spec fn pcr_put(p: Seq<u8>, v: int) -> Seq<u8> {
    let (b, e) = (v / 300, v % 300);
    p.update(6, (b / 33554432 % 256) as u8)
        .update(7, (b / 131072 % 256) as u8)
        .update(8, (b / 512 % 256) as u8)
        .update(9, (b / 2 % 256) as u8)
        .update(10, ((b % 2) * 128 + 0x7E + e / 256) as u8)
        .update(11, (e % 256) as u8)
}

/// the bytes of the field as shifts and masks
pub proof fn lemma_pcr_bytes(b: u64, e: u64)
    requires b < 8589934592, e < 300,
    ensures
        ((b >> 25) & 0xFF) as u8 == b / 33554432 % 256,
        ((b >> 17) & 0xFF) as u8 == b / 131072 % 256,
        ((b >> 9) & 0xFF) as u8 == b / 512 % 256,
        ((b >> 1) & 0xFF) as u8 == b / 2 % 256,
        (((b << 7) & 0x80) as u8) | 0x7E | (((e >> 8) & 0x01) as u8) == (b % 2) * 128 + 0x7E + e / 256,
        (e & 0xFF) as u8 == e % 256,
{
    assert(((b >> 25) & 0xFF) as u8 == b / 33554432 % 256) by (bit_vector);
    assert(((b >> 17) & 0xFF) as u8 == b / 131072 % 256) by (bit_vector);
    assert(((b >> 9) & 0xFF) as u8 == b / 512 % 256) by (bit_vector);
    assert(((b >> 1) & 0xFF) as u8 == b / 2 % 256) by (bit_vector);
    assert((((b << 7) & 0x80) as u8) | 0x7E | (((e >> 8) & 0x01) as u8) == (b % 2) * 128 + 0x7E + e / 256) by (bit_vector)
        requires e < 300;
    assert((e & 0xFF) as u8 == e % 256) by (bit_vector);
}

/// what was written is read back, nothing else changes
pub proof fn lemma_pcr_roundtrip(p: Seq<u8>, v: int)
    requires p.len() >= 12, 0 <= v < pcr_cycle(),
    ensures
        pcr_get(pcr_put(p, v)) == v,
        pcr_put(p, v).len() == p.len(),
        forall|i: int| 0 <= i < p.len() && !(6 <= i < 12) ==> (#[trigger] pcr_put(p, v)[i]) == p[i],
        pcr_put(p, v)[10] as int / 2 % 64 == 63,
{
    let (b, e) = (v / 300, v % 300);
    assert(0 <= b < 8589934592);
    let (q1, q2, q3, q4) = (b / 2, b / 512, b / 131072, b / 33554432);
    assert(q2 == q1 / 256 && q3 == q2 / 256 && q4 == q3 / 256 && q4 < 256);
    assert(b == q1 * 2 + b % 2);
    assert(q1 == q2 * 256 + q1 % 256);
    assert(q2 == q3 * 256 + q2 % 256);
    assert(q3 == q4 * 256 + q3 % 256);
    assert(q4 % 256 == q4);
    assert(e / 256 < 2);
    let r = pcr_put(p, v);
    let x = (b % 2) * 128 + 0x7E + e / 256;
    assert(0 <= x < 256);
    assert(r[10] == x && r[11] == e % 256 && r[6] == q4 && r[7] == q3 % 256 && r[8] == q2 % 256 && r[9] == q1 % 256);
    assert(x / 128 == b % 2 && x % 2 == e / 256);
}

/// at most one second apart
pub open spec fn jitter_near(pcr: int, stc: int) -> bool {
    let d = (pcr - stc) % pcr_cycle();
    d <= 27000000 || d >= pcr_cycle() - 27000000
}

/// signed distance in nanoseconds, rounded toward zero
pub open spec fn jitter_spec(pcr: int, stc: int) -> int {
    let d = (pcr - stc) % pcr_cycle();
    if d <= 27000000 { d * 1000 / 27 } else { -((pcr_cycle() - d) * 1000 / 27) }
}

// packetised elementary streams

pub open spec fn pts_cycle() -> int { 8589934592 }

pub open spec fn pes_has_header(id: u8) -> bool {
    !(id == 0xBC || id == 0xBE || id == 0xBF || id == 0xF0 || id == 0xF1 || id == 0xF2 || id == 0xF8 || id == 0xFF)
}

/// 3, 15 and 15 bits of a time stamp
pub open spec fn pes_ts(p: Seq<u8>, i: int) -> int {
    (p[i] / 2 % 8) * 1073741824
        + (p[i + 1] * 128 + p[i + 2] / 2) * 32768
        + (p[i + 3] * 128 + p[i + 4] / 2)
}

} // verus!
