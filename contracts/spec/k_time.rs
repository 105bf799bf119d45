verus! {

// ---------------------------------------------------------------------------
// TDT and TOT: EN 300 468 5.2.5, 5.2.6

/// TDT: no checksum
pub open spec fn tdt_wire(time: int) -> Seq<u8> {
    Seq::empty().push(0x70u8).push(0x70u8).push(5u8) + put16(mjd_enc(time)) + put24(time_enc6(time))
}

pub open spec fn tdt_accepts(b: Seq<u8>, n: int) -> bool { n == 8 && b.len() >= 8 && b[0] == 0x70 }

/// time in the five bytes from 3 on
pub open spec fn utc_of(b: Seq<u8>) -> int { mjd_dec(be16(b, 3)) + time_dec6(be24(b, 5)) }

/// TOT without length and checksum
pub open spec fn tot_open(time: int, ds: Seq<DescV>) -> Seq<u8> {
    Seq::empty().push(0x73u8).push(0x70u8).push(0u8) + put16(mjd_enc(time)) + put24(time_enc6(time)) + put16(0xF000 + list_wire(ds).len() as int) + list_wire(ds)
}

pub open spec fn tot_fits(ds: Seq<DescV>) -> bool { list_fits(ds) && list_wire(ds).len() <= 4084 }

pub open spec fn tot_accepts(b: Seq<u8>, n: int) -> bool { n >= 14 && section_ok(b, n) && b[0] == 0x73 }

/// descriptors after the section in the first n bytes was read
pub open spec fn tot_list(ds: Seq<DescV>, b: Seq<u8>, n: int) -> Seq<DescV> {
    let l = be16(b, 8) % 4096;
    if 10 + l > n - 4 { ds } else { ds + list_of(b.subrange(10, 10 + l)) }
}

/// The generated TDT is accepted and gives the time back.
pub proof fn lemma_tdt_back(time: int)
    requires 0 <= time <= 2155593599,
    ensures tdt_wire(time).len() == 8, section_len(tdt_wire(time)) == 8, tdt_accepts(tdt_wire(time), 8), utc_of(tdt_wire(time)) == time,
{
    let s = tdt_wire(time);
    lemma_datetime(time);
    lemma_time6(time);
    assert(s.subrange(3, 5) =~= put16(mjd_enc(time)));
    lemma_put_back(mjd_enc(time), s, 3);
    assert(s.subrange(5, 8) =~= put24(time_enc6(time)));
    lemma_put_back(time_enc6(time), s, 5);
    assert(s[1] == 0x70 && s[2] == 5);
}

/// The generated TOT is accepted and gives time and descriptors back.
pub proof fn lemma_tot_back(time: int, ds: Seq<DescV>)
    requires 0 <= time <= 2155593599, tot_fits(ds),
    ensures ({
        let f = finish(tot_open(time, ds));
        let n = list_wire(ds).len() as int;
        &&& f.len() == 14 + n
        &&& section_len(f) == f.len()
        &&& f[1] as int / 16 == 7
        &&& tot_accepts(f, f.len() as int)
        &&& utc_of(f) == time
        &&& be16(f, 8) == 0xF000 + n
        &&& f.subrange(10, 10 + n) == list_wire(ds)
        &&& (list_canon(ds) ==> tot_list(Seq::empty(), f, f.len() as int) == ds)
    }),
{
    hide(finish);
    let s = tot_open(time, ds);
    let n = list_wire(ds).len() as int;
    let f = finish(s);
    lemma_finish(s);
    lemma_datetime(time);
    lemma_time6(time);
    assert(s[1] == 0x70);
    assert(s.len() == 10 + n);
    assert(s.subrange(3, 5) =~= put16(mjd_enc(time)));
    lemma_put_back(mjd_enc(time), s, 3);
    assert(s.subrange(5, 8) =~= put24(time_enc6(time)));
    lemma_put_back(time_enc6(time), s, 5);
    assert(s.subrange(8, 10) =~= put16(0xF000 + n));
    lemma_put_back(0xF000 + n, s, 8);
    assert(s.subrange(10, 10 + n) =~= list_wire(ds));
    assert(f[3] == s[3] && f[4] == s[4] && f[5] == s[5] && f[6] == s[6] && f[7] == s[7] && f[8] == s[8] && f[9] == s[9]);
    assert(f.subrange(10, 10 + n) =~= s.subrange(10, 10 + n));
    if list_canon(ds) {
        lemma_list_back(ds);
        assert(Seq::<DescV>::empty() + ds =~= ds);
    }
}

} // verus!
