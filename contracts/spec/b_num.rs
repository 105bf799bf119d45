verus! {

// ---------------------------------------------------------------------------
// big endian numbers

pub open spec fn be16(s: Seq<u8>, i: int) -> int { s[i] * 256 + s[i + 1] }

pub open spec fn be24(s: Seq<u8>, i: int) -> int { s[i] * 65536 + s[i + 1] * 256 + s[i + 2] }

pub open spec fn be32(s: Seq<u8>, i: int) -> int {
    s[i] * 16777216 + s[i + 1] * 65536 + s[i + 2] * 256 + s[i + 3]
}

/// byte number k of v, 0 is the lowest
#[verifier::opaque]
pub open spec fn byte(v: int, k: int) -> u8 {
    if k == 0 { (v % 256) as u8 }
    else if k == 1 { (v / 256 % 256) as u8 }
    else if k == 2 { (v / 65536 % 256) as u8 }
    else { (v / 16777216 % 256) as u8 }
}

pub open spec fn put16(v: int) -> Seq<u8> { Seq::empty().push(byte(v, 1)).push(byte(v, 0)) }

pub open spec fn put24(v: int) -> Seq<u8> { Seq::empty().push(byte(v, 2)).push(byte(v, 1)).push(byte(v, 0)) }

pub open spec fn put32(v: int) -> Seq<u8> { Seq::empty().push(byte(v, 3)).push(byte(v, 2)).push(byte(v, 1)).push(byte(v, 0)) }

pub open spec fn all_are(s: Seq<u8>, v: u8, n: nat) -> bool
    decreases n,
{
    n == 0 || (s[n - 1] == v && all_are(s, v, (n - 1) as nat))
}

pub proof fn lemma_all_are(s: Seq<u8>, v: u8, n: nat)
    requires all_are(s, v, n),
    ensures forall|i: int| 0 <= i < n ==> s[i] == v,
    decreases n,
{
    if n > 0 { lemma_all_are(s, v, (n - 1) as nat); }
}

/// bit number k of a byte
pub open spec fn bit(b: u8, k: int) -> bool {
    if k == 0 { b % 2 == 1 }
    else if k == 1 { b / 2 % 2 == 1 }
    else if k == 2 { b / 4 % 2 == 1 }
    else if k == 3 { b / 8 % 2 == 1 }
    else if k == 4 { b / 16 % 2 == 1 }
    else if k == 5 { b / 32 % 2 == 1 }
    else if k == 6 { b / 64 % 2 == 1 }
    else { b / 128 % 2 == 1 }
}

// ---------------------------------------------------------------------------
// binary coded decimals

/// value of two decimal digits in one byte
pub open spec fn bcd_dec2(x: int) -> int { (x / 16) * 10 + x % 16 }

#[verifier::opaque]
pub open spec fn bcd_dec4(x: int) -> int { bcd_dec2(x / 256) * 100 + bcd_dec2(x % 256) }

#[verifier::opaque]
pub open spec fn bcd_dec8(x: int) -> int { bcd_dec4(x / 65536) * 10000 + bcd_dec4(x % 65536) }

/// two decimal digits of a number below 100
pub open spec fn bcd_enc2(x: int) -> int { (x / 10) * 16 + x % 10 }

#[verifier::opaque]
pub open spec fn bcd_enc4(x: int) -> int { bcd_enc2(x / 100) * 256 + bcd_enc2(x % 100) }

#[verifier::opaque]
pub open spec fn bcd_enc8(x: int) -> int { bcd_enc4(x / 10000) * 65536 + bcd_enc4(x % 10000) }

/// hours and minutes to minutes
#[verifier::opaque]
pub open spec fn time_dec4(x: int) -> int { bcd_dec2(x / 256) * 60 + bcd_dec2(x % 256) }

#[verifier::opaque]
pub open spec fn time_enc4(m: int) -> int { bcd_enc2(m / 60 % 24) * 256 + bcd_enc2(m % 60) }

/// hours, minutes and seconds to seconds
#[verifier::opaque]
pub open spec fn time_dec6(x: int) -> int {
    bcd_dec2(x / 65536 % 256) * 3600 + bcd_dec2(x / 256 % 256) * 60 + bcd_dec2(x % 256)
}

#[verifier::opaque]
pub open spec fn time_enc6(s: int) -> int {
    bcd_enc2(s / 3600 % 24) * 65536 + bcd_enc2(s / 60 % 60) * 256 + bcd_enc2(s % 60)
}

/// seconds since 1970-01-01 of a modified julian date; earlier dates count as zero
pub open spec fn mjd_dec(x: int) -> int { if x >= 40587 { (x - 40587) * 86400 } else { 0 } }

pub open spec fn mjd_enc(s: int) -> int { (s / 86400 + 40587) % 65536 }

// ---------------------------------------------------------------------------
// the codecs are inverse to each other

pub proof fn lemma_be_roundtrip(v: int)
    ensures
        0 <= v < 65536 ==> be16(put16(v), 0) == v,
        0 <= v < 16777216 ==> be24(put24(v), 0) == v,
        0 <= v < 4294967296 ==> be32(put32(v), 0) == v,
{
    reveal(byte);
}

pub proof fn lemma_bcd2(x: int)
    requires 0 <= x < 100,
    ensures bcd_dec2(bcd_enc2(x)) == x, 0 <= bcd_enc2(x) < 160, bcd_enc2(x) % 16 < 10,
{
}

pub proof fn lemma_bcd4(x: int)
    requires 0 <= x < 10000,
    ensures bcd_dec4(bcd_enc4(x)) == x, 0 <= bcd_enc4(x) < 40960,
{
    reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6);
    lemma_bcd2(x / 100);
    lemma_bcd2(x % 100);
    assert(bcd_enc4(x) / 256 == bcd_enc2(x / 100));
    assert(bcd_enc4(x) % 256 == bcd_enc2(x % 100));
}

pub proof fn lemma_bcd8(x: int)
    requires 0 <= x < 100000000,
    ensures bcd_dec8(bcd_enc8(x)) == x, 0 <= bcd_enc8(x) < 0xA000_0000,
{
    reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6);
    lemma_bcd4(x / 10000);
    lemma_bcd4(x % 10000);
    assert(bcd_enc8(x) / 65536 == bcd_enc4(x / 10000));
    assert(bcd_enc8(x) % 65536 == bcd_enc4(x % 10000));
}

/// six digits need three bytes
pub proof fn lemma_bcd6(x: int)
    requires 0 <= x < 1000000,
    ensures bcd_dec8(bcd_enc8(x)) == x, 0 <= bcd_enc8(x) < 0x0100_0000,
{
    reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6);
    lemma_bcd8(x);
    let (h, l) = (x / 10000, x % 10000);
    lemma_bcd4(l);
    assert(0 <= h < 100);
    lemma_bcd2(h);
    assert(bcd_enc4(h) == bcd_enc2(h)) by {
        assert(h / 100 == 0 && h % 100 == h);
        assert(bcd_enc2(0) == 0);
    }
    let (eh, el) = (bcd_enc2(h), bcd_enc4(l));
    assert(bcd_enc8(x) == eh * 65536 + el);
}

pub proof fn lemma_time4(m: int)
    requires 0 <= m < 24 * 60,
    ensures time_dec4(time_enc4(m)) == m, 0 <= time_enc4(m) < 65536,
{
    reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6);
    lemma_bcd2(m / 60);
    lemma_bcd2(m % 60);
    assert(m / 60 % 24 == m / 60);
    assert(time_enc4(m) / 256 == bcd_enc2(m / 60));
    assert(time_enc4(m) % 256 == bcd_enc2(m % 60));
}

pub proof fn lemma_bytes3(a: int, b: int, c: int)
    requires 0 <= a < 256, 0 <= b < 256, 0 <= c < 256,
    ensures ({
        let e = a * 65536 + b * 256 + c;
        e / 65536 % 256 == a && e / 256 % 256 == b && e % 256 == c && 0 <= e < 16777216
    }),
{
    let e = a * 65536 + b * 256 + c;
    assert(e / 256 == a * 256 + b);
    assert(e / 65536 == a);
}

pub proof fn lemma_time6(s: int)
    requires 0 <= s,
    ensures time_dec6(time_enc6(s)) == s % 86400, 0 <= time_enc6(s) < 16777216,
{
    reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6);
    let (h, m, c) = (s / 3600 % 24, s / 60 % 60, s % 60);
    lemma_bcd2(h);
    lemma_bcd2(m);
    lemma_bcd2(c);
    lemma_bytes3(bcd_enc2(h), bcd_enc2(m), bcd_enc2(c));
    let (q, d) = (s / 60, s / 3600);
    assert(d == q / 60);
    assert(s == q * 60 + c);
    assert(q == d * 60 + m);
    assert(d == (d / 24) * 24 + h);
    assert(s == (d / 24) * 86400 + h * 3600 + m * 60 + c);
    assert(0 <= h * 3600 + m * 60 + c < 86400);
}

/// date and time of day put together again, up to the last second of MJD 65535
pub proof fn lemma_datetime(t: int)
    requires 0 <= t <= 2155593599,
    ensures
        mjd_dec(mjd_enc(t)) + time_dec6(time_enc6(t)) == t,
        0 <= mjd_enc(t) < 65536,
{
    lemma_time6(t);
    assert(t / 86400 + 40587 < 65536);
    assert(mjd_dec(mjd_enc(t)) == t / 86400 * 86400);
}

/// low byte of a count
pub proof fn lemma_low8(n: usize)
    ensures n as u8 == n % 256,
{
    assert(n as u8 == n % 256) by (bit_vector);
}

pub proof fn lemma_low8_u64(n: u64)
    ensures n as u8 == n % 256,
{
    assert(n as u8 == n % 256) by (bit_vector);
}

pub proof fn lemma_minutes(s: int)
    requires 0 <= s < 0x1_0000_0000,
    ensures s % 3600 / 60 == s / 60 % 60, 0 <= s / 3600 % 24 < 24, 0 <= s / 60 % 60 < 60, 0 <= s % 60 < 60,
{
}

} // verus!
