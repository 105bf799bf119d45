//! C12: number codecs
use crate::{ensure, Case, Prop, Src, Sweep, R};
use mpegts::bytes::Bytes;
use mpegts::psi::{BCDTime, MJDFrom, MJDTo, BCD};

fn digits(mut v: u64, n: u32) -> u64 {
    let mut r = 0;
    for k in 0 .. n { r |= (v % 10) << (4 * k); v /= 10; }
    r
}

fn be(s: &mut Src) -> R {
    let n = s.flat(4, 12) as usize;
    let at = s.flat(0, n as u64 - 4) as usize;
    let d = s.bytes(n);
    let b = |i: usize| d[at + i] as u32;
    ensure!(d[at ..].get_u16() as u32 == (b(0) << 8) + b(1), "get_u16 {:?}", &d[at ..]);
    ensure!(d[at ..].get_u24() == (b(0) << 16) + (b(1) << 8) + b(2), "get_u24 {:?}", &d[at ..]);
    ensure!(d[at ..].get_u32() == (b(0) << 24) + (b(1) << 16) + (b(2) << 8) + b(3), "get_u32 {:?}", &d[at ..]);
    // exactly sized
    ensure!(d[at .. at + 2].get_u16() == d[at ..].get_u16(), "get_u16 sized");
    ensure!(d[at .. at + 3].get_u24() == d[at ..].get_u24(), "get_u24 sized");
    ensure!(d[at .. at + 4].get_u32() == d[at ..].get_u32(), "get_u32 sized");
    let v = s.u32();
    for w in 2 .. 5usize {
        let mut e = d.clone();
        match w {
            2 => e[at ..].set_u16(v as u16),
            3 => e[at ..].set_u24(v),
            _ => e[at ..].set_u32(v),
        }
        let mut x = d.clone();
        x[at .. at + w].copy_from_slice(&v.to_be_bytes()[4 - w ..]);
        ensure!(e == x, "set_u{} {:#x} at {} into {:?} gave {:?}", w * 8, v, at, d, e);
    }
    Ok(())
}

fn bcd_wide(s: &mut Src) -> R {
    let v = s.range(0, 99_999_999) as u32;
    let e = v.to_bcd();
    ensure!(e as u64 == digits(v as u64, 8), "u32 to_bcd({}) = {:#x}", v, e);
    ensure!(e.from_bcd() == v, "u32 from_bcd({:#x}) = {}", e, e.from_bcd());
    // total on every pattern: every nibble counts its value
    let r = s.u32();
    let mut want = 0u64;
    for k in (0 .. 8).rev() { want = want * 10 + ((r >> (4 * k)) & 15) as u64; }
    ensure!(r.from_bcd() as u64 == want, "u32 from_bcd({:#x}) = {}", r, r.from_bcd());
    let t = s.range(0, u32::MAX as u64) as u32;
    let e = t.to_bcd_time();
    let want = (digits((t / 3600 % 24) as u64, 2) << 16) | (digits((t / 60 % 60) as u64, 2) << 8) | digits((t % 60) as u64, 2);
    ensure!(e as u64 == want, "to_bcd_time({}) = {:#x}", t, e);
    ensure!(e.from_bcd_time() == t % 86400, "from_bcd_time({:#x})", e);
    let two = |x: u32| (x >> 4 & 15) * 10 + (x & 15);
    ensure!(r.from_bcd_time() == two(r >> 16 & 255) * 3600 + two(r >> 8 & 255) * 60 + two(r & 255), "u32 from_bcd_time({:#x})", r);
    let t = s.range(0, 2155593599);
    ensure!(t.to_mjd() as u64 == t / 86400 + 40587, "to_mjd({})", t);
    ensure!(t.to_mjd().from_mjd() == t / 86400 * 86400, "mjd of {}", t);
    Ok(())
}

fn sweep16() -> Result<u64, String> {
    let two = |x: u16| (x >> 4 & 15) * 10 + (x & 15);
    let mut n = 0;
    for x in 0 ..= 255u8 {
        ensure!(x.from_bcd() as u16 == two(x as u16), "u8 from_bcd({:#x})", x);
        if x < 100 {
            ensure!(x.to_bcd() as u64 == digits(x as u64, 2) && x.to_bcd().from_bcd() == x, "u8 to_bcd({})", x);
        }
        n += 1;
    }
    for x in 0 ..= 65535u16 {
        ensure!(x.from_bcd() as u32 == two(x >> 8) as u32 * 100 + two(x & 255) as u32, "u16 from_bcd({:#x})", x);
        ensure!(x.from_bcd_time() == two(x >> 8) * 60 + two(x & 255), "u16 from_bcd_time({:#x})", x);
        if x < 10000 {
            ensure!(x.to_bcd() as u64 == digits(x as u64, 4) && x.to_bcd().from_bcd() == x, "u16 to_bcd({})", x);
        }
        let want = (digits((x / 60 % 24) as u64, 2) << 8) | digits((x % 60) as u64, 2);
        ensure!(x.to_bcd_time() as u64 == want, "u16 to_bcd_time({})", x);
        if x < 1440 { ensure!(x.to_bcd_time().from_bcd_time() == x, "u16 bcd time {}", x); }
        let want = if x >= 40587 { (x as u64 - 40587) * 86400 } else { 0 };
        ensure!(x.from_mjd() == want, "from_mjd({}) = {}", x, x.from_mjd());
        if x >= 40587 { ensure!(want.to_mjd() == x && (want + 86399).to_mjd() == x, "to_mjd({})", want); }
        n += 1;
    }
    for t in 0 .. 86400u32 {
        ensure!(t.to_bcd_time().from_bcd_time() == t, "u32 bcd time {}", t);
        n += 1;
    }
    Ok(n)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        cases: vec![Case { name: "big_endian", weight: 50, run: be }, Case { name: "bcd32", weight: 50, run: bcd_wide }],
        sweeps: vec![Sweep { name: "all_16bit", run: sweep16 }], known: None,
    }]
}
