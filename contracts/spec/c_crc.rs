verus! {

// CRC-32/MPEG-2: polynomial 0x04C11DB7, initial value all ones, not reflected,
// no final inversion. One step per bit, most significant bit first.

pub open spec fn crc_bit(c: u32) -> u32 {
    if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 }
}

pub open spec fn crc_bits8(c: u32) -> u32 {
    crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(c))))))))
}

pub open spec fn crc_byte(c: u32, b: u8) -> u32 { crc_bits8(c ^ ((b as u32) << 24)) }

pub open spec fn crc_spec(s: Seq<u8>) -> u32
    decreases s.len(),
{
    if s.len() == 0 { 0xFFFF_FFFF } else { crc_byte(crc_spec(s.drop_last()), s.last()) }
}

/// entry i of the lookup table
pub open spec fn crc_tab(i: u8) -> u32 { crc_bits8((i as u32) << 24) }

pub proof fn lemma_crc_tab(c: u32, b: u8)
    ensures crc_byte(c, b) == crc_tab(((c >> 24) as u8) ^ b) ^ (c << 8),
{
    let x = ((c >> 24) as u8) ^ b;
    let l = c ^ ((b as u32) << 24);
    let r = (x as u32) << 24;
    assert(l == r ^ (c & 0x00FF_FFFF)) by (bit_vector)
        requires l == c ^ ((b as u32) << 24), r == ((((c >> 24) as u8) ^ b) as u32) << 24;
    assert((c & 0x00FF_FFFF) & 0xFF00_0000 == 0) by (bit_vector);
    lemma_crc_lin(r, c & 0x00FF_FFFF);
    assert((c & 0x00FF_FFFF) << 8 == c << 8) by (bit_vector);
}

pub proof fn lemma_crc_lin(a: u32, d: u32)
    requires d & 0xFF00_0000 == 0,
    ensures crc_bits8(a ^ d) == crc_bits8(a) ^ (d << 8),
{
    let d1 = d << 1; let d2 = d << 2; let d3 = d << 3; let d4 = d << 4;
    let d5 = d << 5; let d6 = d << 6; let d7 = d << 7; let d8 = d << 8;
    assert(d & 0x8000_0000 == 0 && d1 & 0x8000_0000 == 0 && d2 & 0x8000_0000 == 0 && d3 & 0x8000_0000 == 0
        && d4 & 0x8000_0000 == 0 && d5 & 0x8000_0000 == 0 && d6 & 0x8000_0000 == 0 && d7 & 0x8000_0000 == 0
        && d << 1 == d1 && d1 << 1 == d2 && d2 << 1 == d3 && d3 << 1 == d4 && d4 << 1 == d5 && d5 << 1 == d6
        && d6 << 1 == d7 && d7 << 1 == d8) by (bit_vector)
        requires d & 0xFF00_0000 == 0, d1 == d << 1, d2 == d << 2, d3 == d << 3, d4 == d << 4,
            d5 == d << 5, d6 == d << 6, d7 == d << 7, d8 == d << 8;
    let a1 = crc_bit(a); let a2 = crc_bit(a1); let a3 = crc_bit(a2); let a4 = crc_bit(a3);
    let a5 = crc_bit(a4); let a6 = crc_bit(a5); let a7 = crc_bit(a6);
    lemma_crc_bit(a, d);
    lemma_crc_bit(a1, d1);
    lemma_crc_bit(a2, d2);
    lemma_crc_bit(a3, d3);
    lemma_crc_bit(a4, d4);
    lemma_crc_bit(a5, d5);
    lemma_crc_bit(a6, d6);
    lemma_crc_bit(a7, d7);
}

proof fn lemma_crc_bit(a: u32, d: u32)
    requires d & 0x8000_0000 == 0,
    ensures crc_bit(a ^ d) == crc_bit(a) ^ (d << 1),
{
    assert((a ^ d) & 0x8000_0000 == a & 0x8000_0000) by (bit_vector) requires d & 0x8000_0000 == 0;
    assert((a ^ d) << 1 == (a << 1) ^ (d << 1)) by (bit_vector);
    assert(((a << 1) ^ (d << 1)) ^ 0x04C1_1DB7u32 == ((a << 1) ^ 0x04C1_1DB7u32) ^ (d << 1)) by (bit_vector);
}

proof fn lemma_crc_bit_zero(c: u32)
    ensures crc_bit(c) == 0 <==> c == 0,
{
    assert(c & 0x8000_0000 != 0 ==> (c << 1) ^ 0x04C1_1DB7u32 != 0) by (bit_vector);
    assert(c & 0x8000_0000 == 0 ==> (c << 1 == 0 <==> c == 0)) by (bit_vector);
    assert(0u32 & 0x8000_0000 == 0) by (bit_vector);
}

proof fn lemma_crc_bits8_zero(c: u32)
    ensures crc_bits8(c) == 0 <==> c == 0,
{
    let c1 = crc_bit(c); let c2 = crc_bit(c1); let c3 = crc_bit(c2); let c4 = crc_bit(c3);
    let c5 = crc_bit(c4); let c6 = crc_bit(c5); let c7 = crc_bit(c6);
    lemma_crc_bit_zero(c);
    lemma_crc_bit_zero(c1);
    lemma_crc_bit_zero(c2);
    lemma_crc_bit_zero(c3);
    lemma_crc_bit_zero(c4);
    lemma_crc_bit_zero(c5);
    lemma_crc_bit_zero(c6);
    lemma_crc_bit_zero(c7);
}

/// the checksum over a section and its checksum is zero, and only then
pub proof fn lemma_crc_residue(s: Seq<u8>)
    requires s.len() >= 4,
    ensures crc_spec(s) == 0 <==> crc_spec(s.subrange(0, s.len() - 4)) == be32(s, s.len() - 4),
{
    let n = s.len() as int;
    let s1 = s.drop_last(); let s2 = s1.drop_last(); let s3 = s2.drop_last();
    assert(s3.drop_last() =~= s.subrange(0, n - 4));
    let c = crc_spec(s.subrange(0, n - 4));
    let b0 = s[n - 4] as u32; let b1 = s[n - 3] as u32; let b2 = s[n - 2] as u32; let b3 = s[n - 1] as u32;
    assert(crc_spec(s3) == crc_bits8(c ^ (b0 << 24)));
    assert(crc_spec(s2) == crc_bits8(crc_spec(s3) ^ (b1 << 24)));
    assert(crc_spec(s1) == crc_bits8(crc_spec(s2) ^ (b2 << 24)));
    assert(crc_spec(s) == crc_bits8(crc_spec(s1) ^ (b3 << 24)));
    assert((b1 << 16) & 0xFF00_0000 == 0 && (b1 << 16) << 8 == b1 << 24) by (bit_vector) requires b1 < 256;
    assert((b2 << 16) & 0xFF00_0000 == 0 && (b2 << 16) << 8 == b2 << 24) by (bit_vector) requires b2 < 256;
    assert((b2 << 8) & 0xFF00_0000 == 0 && (b2 << 8) << 8 == b2 << 16) by (bit_vector) requires b2 < 256;
    assert((b3 << 16) & 0xFF00_0000 == 0 && (b3 << 16) << 8 == b3 << 24) by (bit_vector) requires b3 < 256;
    assert((b3 << 8) & 0xFF00_0000 == 0 && (b3 << 8) << 8 == b3 << 16) by (bit_vector) requires b3 < 256;
    assert(b3 & 0xFF00_0000 == 0) by (bit_vector) requires b3 < 256;
    let w0 = c ^ (b0 << 24);
    let w1 = w0 ^ (b1 << 16);
    let w2 = w1 ^ (b2 << 8);
    let w3 = w2 ^ b3;
    lemma_crc_lin(w0, b1 << 16);
    assert(crc_spec(s2) == crc_bits8(crc_bits8(w1)));
    lemma_crc_lin(w1, b2 << 8);
    lemma_crc_lin(crc_bits8(w1), b2 << 16);
    assert(crc_spec(s1) == crc_bits8(crc_bits8(crc_bits8(w2))));
    lemma_crc_lin(w2, b3);
    lemma_crc_lin(crc_bits8(w2), b3 << 8);
    lemma_crc_lin(crc_bits8(crc_bits8(w2)), b3 << 16);
    assert(crc_spec(s) == crc_bits8(crc_bits8(crc_bits8(crc_bits8(w3)))));
    lemma_crc_bits8_zero(w3);
    lemma_crc_bits8_zero(crc_bits8(w3));
    lemma_crc_bits8_zero(crc_bits8(crc_bits8(w3)));
    lemma_crc_bits8_zero(crc_bits8(crc_bits8(crc_bits8(w3))));
    let w: u32 = (b0 * 16777216 + b1 * 65536 + b2 * 256 + b3) as u32;
    assert(w == (b0 << 24) ^ (b1 << 16) ^ (b2 << 8) ^ b3) by (bit_vector)
        requires b0 < 256, b1 < 256, b2 < 256, b3 < 256, w == (b0 * 16777216 + b1 * 65536 + b2 * 256 + b3) as u32;
    assert((((c ^ (b0 << 24)) ^ (b1 << 16)) ^ (b2 << 8)) ^ b3 == c ^ ((b0 << 24) ^ (b1 << 16) ^ (b2 << 8) ^ b3)) by (bit_vector);
    assert((c ^ w == 0) <==> c == w) by (bit_vector);
}

/// the first n entries of a lookup table are the table of the polynomial
pub open spec fn crc_tab_ok(t: Seq<u32>, n: nat) -> bool
    decreases n,
{
    n == 0 || (t[n - 1] == crc_tab((n - 1) as u8) && crc_tab_ok(t, (n - 1) as nat))
}

pub proof fn lemma_crc_tab_ok(t: Seq<u32>, n: nat, i: int)
    requires crc_tab_ok(t, n), 0 <= i < n <= 256,
    ensures t[i] == crc_tab(i as u8),
    decreases n,
{
    if i < n - 1 { lemma_crc_tab_ok(t, (n - 1) as nat, i); }
}

pub proof fn lemma_xor8(a: u8, b: u8)
    ensures a ^ b == b ^ a,
{
    assert(a ^ b == b ^ a) by (bit_vector);
}

pub proof fn lemma_xor32(a: u32, b: u32)
    ensures a ^ b == b ^ a,
{
    assert(a ^ b == b ^ a) by (bit_vector);
}

} // verus!
