//! C06, C07, C23: descriptors
use crate::psi::{crc, section};
use crate::text::{any_string, encode, unwire, wire};
use crate::{ensure, hex, Case, Prop, Src, Sweep, R};
use mpegts::psi::*;
use mpegts::textcode::StringDVB;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// codepage and bytes
pub type Text = (u8, Vec<u8>);

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Raw(u8, Vec<u8>),
    D09(u16, u16, Vec<u8>),
    D0A(Vec<(Text, u8)>),
    D0E(u32),
    D40(Text),
    D41(Vec<(u16, u8)>),
    /// frequency, position, symbol rate; east, polarization, rof, s2, modulation, fec
    D43([u32; 3], [u8; 6]),
    /// frequency, symbol rate; fec outer, modulation, fec
    D44([u32; 2], [u8; 3]),
    D48(u8, Text, Text),
    D4D(Text, Text, Text),
    D4E(u8, u8, Text, Vec<(Text, Text)>, Text),
    D52(u8),
    /// code, region, polarity, offset, change, next
    D58(Vec<(Text, u8, u8, u16, u64, u16)>),
    /// bandwidth, priority, time slicing, mpe fec, modulation, hierarchy, rates, guard, mode, other
    D5A(u32, [u8; 11]),
    D83(Vec<(u16, u8, u16)>),
}

fn tw(t: &Text) -> Vec<u8> { wire(t.0, &t.1) }
fn sized(out: &mut Vec<u8>, t: &Text) { let w = tw(t); out.push(w.len() as u8); out.extend(w); }
fn be(out: &mut Vec<u8>, v: u64, n: usize) { for k in (0 .. n).rev() { out.push((v >> (8 * k)) as u8); } }
fn num(b: &[u8]) -> u64 { b.iter().fold(0, |a, &x| a << 8 | x as u64) }
fn bcd(mut v: u64) -> u64 { let mut r = 0; let mut k = 0; while v > 0 { r |= (v % 10) << k; v /= 10; k += 4; } r }
fn unbcd(v: u64, digits: u32) -> u64 { (0 .. digits).rev().fold(0, |a, k| a * 10 + (v >> (4 * k) & 15)) }
/// bits of a field counted from the left
fn field(b: u8, skip: u32, n: u32) -> u8 { ((b as u32) << skip & 0xFF) as u8 >> (8 - n) }
fn pack(fs: &[(u8, u32)]) -> u8 { fs.iter().fold(0u32, |a, &(v, n)| a << n | v as u32) as u8 }
/// minutes as hours and minutes in BCD
fn hm(m: u16) -> u64 { bcd(m as u64 / 60) << 8 | bcd(m as u64 % 60) }
pub fn mjd(t: u64) -> u64 { t / 86400 + 40587 }
pub fn hms(t: u64) -> u64 { let s = t % 86400; bcd(s / 3600) << 16 | bcd(s / 60 % 60) << 8 | bcd(s % 60) }
pub fn un_hms(v: u64) -> u64 { unbcd(v >> 16 & 255, 2) * 3600 + unbcd(v >> 8 & 255, 2) * 60 + unbcd(v & 255, 2) }
pub fn un_mjd(v: u64) -> u64 { if v < 40587 { 0 } else { (v - 40587) * 86400 } }

pub fn tag(d: &D) -> u8 {
    match d {
        D::Raw(t, _) => *t, D::D09(..) => 0x09, D::D0A(..) => 0x0A, D::D0E(..) => 0x0E, D::D40(..) => 0x40, D::D41(..) => 0x41,
        D::D43(..) => 0x43, D::D44(..) => 0x44, D::D48(..) => 0x48, D::D4D(..) => 0x4D, D::D4E(..) => 0x4E, D::D52(..) => 0x52,
        D::D58(..) => 0x58, D::D5A(..) => 0x5A, D::D83(..) => 0x83,
    }
}

pub fn bytes(d: &D) -> Vec<u8> {
    let mut b = vec![];
    match d {
        D::Raw(_, x) => b.extend(x),
        D::D09(c, p, x) => { be(&mut b, *c as u64, 2); be(&mut b, 0xE000 | *p as u64, 2); b.extend(x); }
        D::D0A(v) => for (c, k) in v { b.extend(tw(c)); b.push(*k); },
        D::D0E(r) => be(&mut b, 0xC0_0000 | *r as u64, 3),
        D::D40(n) => b.extend(tw(n)),
        D::D41(v) => for (i, k) in v { be(&mut b, *i as u64, 2); b.push(*k); },
        D::D43([f, p, s], [e, pol, rof, s2, m, fec]) => {
            be(&mut b, bcd(*f as u64 / 10), 4);
            be(&mut b, bcd(*p as u64 / 6), 2);
            b.push(pack(&[(*e, 1), (*pol, 2), (*rof, 2), (*s2, 1), (*m, 2)]));
            be(&mut b, bcd(*s as u64), 3);
            b.push(*fec);
        }
        D::D44([f, s], [o, m, fec]) => {
            be(&mut b, bcd(*f as u64 / 100), 4);
            b.push(0xFF);
            b.push(0xF0 | o);
            b.push(*m);
            be(&mut b, bcd(*s as u64), 3);
            b.push(*fec);
        }
        D::D48(k, p, n) => { b.push(*k); sized(&mut b, p); sized(&mut b, n); }
        D::D4D(l, n, t) => { b.extend(tw(l)); sized(&mut b, n); sized(&mut b, t); }
        D::D4E(n, l, lang, v, t) => {
            b.push(n << 4 | l);
            b.extend(tw(lang));
            let mut w = vec![];
            for (x, y) in v { sized(&mut w, x); sized(&mut w, y); }
            b.push(w.len() as u8);
            b.extend(w);
            sized(&mut b, t);
        }
        D::D52(t) => b.push(*t),
        D::D58(v) => for (c, r, p, o, t, n) in v {
            b.extend(tw(c));
            b.push(r << 2 | 2 | p);
            be(&mut b, hm(*o), 2);
            be(&mut b, mjd(*t), 2);
            be(&mut b, hms(*t), 3);
            be(&mut b, hm(*n), 2);
        },
        D::D5A(f, [bw, pr, ts, mf, m, h, hp, lp, g, t, o]) => {
            be(&mut b, *f as u64 / 10, 4);
            b.push(pack(&[(*bw, 3), (*pr, 1), (*ts, 1), (*mf, 1), (3, 2)]));
            b.push(pack(&[(*m, 2), (*h, 3), (*hp, 3)]));
            b.push(pack(&[(*lp, 3), (*g, 2), (*t, 2), (*o, 1)]));
            be(&mut b, 0xFFFF_FFFF, 4);
        }
        D::D83(v) => for (i, s, l) in v { be(&mut b, *i as u64, 2); be(&mut b, (*s as u64) << 15 | 0x1F << 10 | *l as u64, 2); },
    }
    b
}

pub fn whole(d: &D) -> Vec<u8> {
    let b = bytes(d);
    let mut w = vec![tag(d), b.len() as u8];
    w.extend(b);
    w
}

/// one complete group
pub fn decode(g: &[u8]) -> D {
    let b = &g[2 ..];
    let n = b.len();
    let raw = D::Raw(g[0], b.to_vec());
    match g[0] {
        0x09 if n >= 4 => D::D09(num(&b[.. 2]) as u16, num(&b[2 .. 4]) as u16 & 0x1FFF, b[4 ..].to_vec()),
        0x0A if n % 4 == 0 => D::D0A(b.chunks(4).map(|c| (unwire(&c[.. 3]), c[3])).collect()),
        0x0E if n == 3 => D::D0E(num(b) as u32 & 0x3F_FFFF),
        0x40 => D::D40(unwire(b)),
        0x41 if n % 3 == 0 => D::D41(b.chunks(3).map(|c| (num(&c[.. 2]) as u16, c[2])).collect()),
        0x43 if n == 11 => {
            let f = unbcd(num(&b[.. 4]), 8) * 10;
            let p = unbcd(num(&b[4 .. 6]), 4) * 6;
            if f > u32::MAX as u64 || p > 65535 { return raw; }
            D::D43([f as u32, p as u32, unbcd(num(&b[7 .. 10]), 6) as u32],
                [field(b[6], 0, 1), field(b[6], 1, 2), field(b[6], 3, 2), field(b[6], 5, 1), field(b[6], 6, 2), b[10] & 15])
        }
        0x44 if n == 11 => {
            let f = unbcd(num(&b[.. 4]), 8) * 100;
            if f > u32::MAX as u64 { return raw; }
            D::D44([f as u32, unbcd(num(&b[7 .. 10]), 6) as u32], [b[5] & 15, b[6], b[10] & 15])
        }
        0x48 if n >= 3 => {
            let p = b[1] as usize;
            if 2 + p >= n || 3 + p + b[2 + p] as usize != n { return raw; }
            D::D48(b[0], unwire(&b[2 .. 2 + p]), unwire(&b[3 + p ..]))
        }
        0x4D if n >= 5 => {
            let p = b[3] as usize;
            if 4 + p >= n || 5 + p + b[4 + p] as usize != n { return raw; }
            D::D4D(unwire(&b[.. 3]), unwire(&b[4 .. 4 + p]), unwire(&b[5 + p ..]))
        }
        0x4E if n >= 6 => {
            let e = 5 + b[4] as usize;
            if e >= n || e + 1 + b[e] as usize != n { return raw; }
            let mut items = vec![];
            let mut i = 5;
            while i < e {
                let j = i + 1 + b[i] as usize;
                if j >= e { return raw; }
                let k = j + 1 + b[j] as usize;
                if k > e { return raw; }
                items.push((unwire(&b[i + 1 .. j]), unwire(&b[j + 1 .. k])));
                i = k;
            }
            D::D4E(b[0] >> 4, b[0] & 15, unwire(&b[1 .. 4]), items, unwire(&b[e + 1 ..]))
        }
        0x52 if n == 1 => D::D52(b[0]),
        0x58 if n % 13 == 0 => D::D58(b.chunks(13).map(|c| {
            let m = |v: u64| (unbcd(v >> 8, 2) * 60 + unbcd(v & 255, 2)) as u16;
            (unwire(&c[.. 3]), c[3] >> 2, c[3] & 1, m(num(&c[4 .. 6])), un_mjd(num(&c[6 .. 8])) + un_hms(num(&c[8 .. 11])), m(num(&c[11 ..])))
        }).collect()),
        0x5A if n == 11 => {
            let f = num(&b[.. 4]) * 10;
            if f > u32::MAX as u64 { return raw; }
            D::D5A(f as u32, [field(b[4], 0, 3), field(b[4], 3, 1), field(b[4], 4, 1), field(b[4], 5, 1),
                field(b[5], 0, 2), field(b[5], 2, 3), field(b[5], 5, 3), field(b[6], 0, 3), field(b[6], 3, 2), field(b[6], 5, 2), field(b[6], 7, 1)])
        }
        0x83 if n % 4 == 0 => D::D83(b.chunks(4).map(|c| (num(&c[.. 2]) as u16, c[2] >> 7, num(&c[2 ..]) as u16 & 0x3FF)).collect()),
        _ => raw,
    }
}

pub fn split(b: &[u8]) -> Vec<D> {
    let mut v = vec![];
    let mut i = 0;
    while i + 2 <= b.len() && i + 2 + b[i + 1] as usize <= b.len() {
        let n = i + 2 + b[i + 1] as usize;
        v.push(decode(&b[i .. n]));
        i = n;
    }
    v
}

fn t(x: &StringDVB) -> Text { (x.get_codepage(), x.as_bytes().to_vec()) }

/// text with this codepage and these bytes
fn st(x: &Text) -> StringDVB {
    if x.1.is_empty() { return StringDVB::from_str("", x.0); }
    StringDVB::from(&wire(x.0, &x.1)[..])
}

/// the descriptor as a value, of the type that the expected value has
fn read(d: &Descriptor, want: &D) -> Option<D> {
    catch_unwind(AssertUnwindSafe(|| match want {
        D::Raw(..) => { let x = d.downcast_ref::<DescRaw>(); D::Raw(x.tag, x.data.clone()) }
        D::D09(..) => { let x = d.downcast_ref::<Desc09>(); D::D09(x.caid, x.pid, x.data.clone()) }
        D::D0A(..) => D::D0A(d.downcast_ref::<Desc0A>().items.iter().map(|i| (t(&i.code), i.audio_type)).collect()),
        D::D0E(..) => D::D0E(d.downcast_ref::<Desc0E>().bitrate),
        D::D40(..) => D::D40(t(&d.downcast_ref::<Desc40>().name)),
        D::D41(..) => D::D41(d.downcast_ref::<Desc41>().items.iter().map(|i| (i.service_id, i.service_type)).collect()),
        D::D43(..) => {
            let x = d.downcast_ref::<Desc43>();
            D::D43([x.frequency, x.orbital_position as u32, x.symbol_rate], [x.west_east_flag, x.polarization, x.rof, x.s2, x.modulation, x.fec])
        }
        D::D44(..) => { let x = d.downcast_ref::<Desc44>(); D::D44([x.frequency, x.symbol_rate], [x.fec_outer, x.modulation, x.fec]) }
        D::D48(..) => { let x = d.downcast_ref::<Desc48>(); D::D48(x.service_type, t(&x.provider), t(&x.name)) }
        D::D4D(..) => { let x = d.downcast_ref::<Desc4D>(); D::D4D(t(&x.lang), t(&x.name), t(&x.text)) }
        D::D4E(..) => {
            let x = d.downcast_ref::<Desc4E>();
            D::D4E(x.number, x.last_number, t(&x.lang), x.items.iter().map(|i| (t(&i.0), t(&i.1))).collect(), t(&x.text))
        }
        D::D52(..) => D::D52(d.downcast_ref::<Desc52>().tag),
        D::D58(..) => D::D58(d.downcast_ref::<Desc58>().items.iter()
            .map(|i| (t(&i.country_code), i.region_id, i.offset_polarity, i.offset, i.time_of_change, i.next_offset)).collect()),
        D::D5A(..) => {
            let x = d.downcast_ref::<Desc5A>();
            D::D5A(x.frequency, [x.bandwidth, x.priority, x.time_slicing, x.mpe_fec, x.modulation, x.hierarchy, x.code_rate_hp, x.code_rate_lp,
                x.guard_interval, x.transmission, x.other_frequency_flag])
        }
        D::D83(..) => D::D83(d.downcast_ref::<Desc83>().items.iter().map(|i| (i.service_id, i.visible, i.lcn)).collect()),
    })).ok()
}

pub fn build(d: &D) -> Descriptor {
    match d.clone() {
        D::Raw(tag, data) => DescRaw { tag, data }.into(),
        D::D09(caid, pid, data) => Desc09 { caid, pid, data }.into(),
        D::D0A(v) => Desc0A { items: v.iter().map(|(c, k)| Desc0Ai { code: st(c), audio_type: *k }).collect() }.into(),
        D::D0E(bitrate) => Desc0E { bitrate }.into(),
        D::D40(n) => Desc40 { name: st(&n) }.into(),
        D::D41(v) => Desc41 { items: v.iter().map(|&(service_id, service_type)| Desc41i { service_id, service_type }).collect() }.into(),
        D::D43([frequency, p, symbol_rate], [west_east_flag, polarization, rof, s2, modulation, fec]) =>
            Desc43 { frequency, orbital_position: p as u16, west_east_flag, polarization, rof, s2, modulation, symbol_rate, fec }.into(),
        D::D44([frequency, symbol_rate], [fec_outer, modulation, fec]) => Desc44 { frequency, fec_outer, modulation, symbol_rate, fec }.into(),
        D::D48(service_type, p, n) => Desc48 { service_type, provider: st(&p), name: st(&n) }.into(),
        D::D4D(l, n, x) => Desc4D { lang: st(&l), name: st(&n), text: st(&x) }.into(),
        D::D4E(number, last_number, l, v, x) =>
            Desc4E { number, last_number, lang: st(&l), items: v.iter().map(|(a, b)| (st(a), st(b))).collect(), text: st(&x) }.into(),
        D::D52(tag) => Desc52 { tag }.into(),
        D::D58(v) => Desc58 { items: v.iter().map(|x| Desc58i {
            country_code: st(&x.0), region_id: x.1, offset_polarity: x.2, offset: x.3, time_of_change: x.4, next_offset: x.5 }).collect() }.into(),
        D::D5A(frequency, [bandwidth, priority, time_slicing, mpe_fec, modulation, hierarchy, code_rate_hp, code_rate_lp, guard_interval, transmission, other_frequency_flag]) =>
            Desc5A { frequency, bandwidth, priority, time_slicing, mpe_fec, modulation, hierarchy, code_rate_hp, code_rate_lp, guard_interval, transmission, other_frequency_flag }.into(),
        D::D83(v) => Desc83 { items: v.iter().map(|&(service_id, visible, lcn)| Desc83i { service_id, visible, lcn }).collect() }.into(),
    }
}

const TAGS: &[u8] = &[0x09, 0x0A, 0x0E, 0x40, 0x41, 0x43, 0x44, 0x48, 0x4D, 0x4E, 0x52, 0x58, 0x5A, 0x83];
const CPS: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 21];

fn text(s: &mut Src, max: usize) -> Text {
    let cp = if s.bool() { 0 } else { s.pick(CPS) };
    for _ in 0 .. 4 {
        let x = any_string(s, cp, max);
        let (cp, mut d) = encode(&x, cp);
        if cp != 21 { d.truncate(max); }
        if d.is_empty() { return (0, d); }
        if cp == 0 && d[0] < 0x20 { d[0] = b' '; }
        if wire(cp, &d).len() <= max { return (cp, d); }
    }
    (0, b"abcdefgh"[.. max.min(8)].to_vec())
}

/// text that takes three bytes
fn code(s: &mut Src) -> Text {
    let c = |s: &mut Src| s.range(b'a' as u64, b'z' as u64) as u8;
    match s.below(6) {
        0 => (s.flat(5, 11) as u8, vec![c(s), c(s)]),
        1 => (21, vec![c(s), c(s)]),
        2 => (0, vec![0xA0 + s.below(96) as u8, c(s), s.range(0x20, 255) as u8]),
        _ => (0, vec![c(s), c(s), c(s)]),
    }
}

pub fn any_desc(s: &mut Src, max: usize) -> D {
    let max = max.max(20);
    let tag = if s.chance(8) { s.u8() } else { s.pick(TAGS) };
    match tag {
        0x09 => { let n = s.range(0, max as u64 - 4) as usize; D::D09(s.u16(), s.range(0, 8191) as u16, s.blob(n)) }
        0x0A => { let n = s.range(0, max as u64 / 4); D::D0A((0 .. n).map(|_| (code(s), s.u8())).collect()) }
        0x0E => D::D0E(s.range(0, 0x3F_FFFF) as u32),
        0x40 => D::D40(text(s, max)),
        0x41 => { let n = s.range(0, max as u64 / 3); D::D41((0 .. n).map(|_| (s.u16(), s.u8())).collect()) }
        0x43 => D::D43([s.range(0, 99_999_999) as u32 * 10, s.range(0, 9999) as u32 * 6, s.range(0, 999_999) as u32],
            [s.range(0, 1) as u8, s.range(0, 3) as u8, s.range(0, 3) as u8, s.range(0, 1) as u8, s.range(0, 3) as u8, s.range(0, 15) as u8]),
        0x44 => D::D44([s.range(0, 42_949_672) as u32 * 100, s.range(0, 999_999) as u32], [s.range(0, 15) as u8, s.u8(), s.range(0, 15) as u8]),
        0x48 => { let a = text(s, max - 3); let b = text(s, max - 3 - tw(&a).len()); D::D48(s.u8(), a, b) }
        0x4D => { let a = text(s, max - 5); let b = text(s, max - 5 - tw(&a).len()); D::D4D(code(s), a, b) }
        0x4E => {
            let mut left = max - 6;
            let mut v = vec![];
            let n = s.below(6);
            for _ in 0 .. n {
                if left < 4 { break; }
                let a = text(s, (left - 2).min(40));
                let b = text(s, left - 2 - tw(&a).len());
                left -= 2 + tw(&a).len() + tw(&b).len();
                v.push((a, b));
            }
            D::D4E(s.range(0, 15) as u8, s.range(0, 15) as u8, code(s), v, text(s, left))
        }
        0x52 => D::D52(s.u8()),
        0x58 => {
            let n = s.range(0, max as u64 / 13);
            D::D58((0 .. n).map(|_| (code(s), s.range(0, 63) as u8, s.range(0, 1) as u8, s.range(0, 1439) as u16, s.range(0, 2_155_593_599), s.range(0, 1439) as u16)).collect())
        }
        0x5A => D::D5A(s.range(0, 429_496_729) as u32 * 10, [s.range(0, 7) as u8, s.range(0, 1) as u8, s.range(0, 1) as u8, s.range(0, 1) as u8,
            s.range(0, 3) as u8, s.range(0, 7) as u8, s.range(0, 7) as u8, s.range(0, 7) as u8, s.range(0, 3) as u8, s.range(0, 3) as u8, s.range(0, 1) as u8]),
        0x83 => { let n = s.range(0, max as u64 / 4); D::D83((0 .. n).map(|_| (s.u16(), s.range(0, 1) as u8, s.range(0, 1023) as u16)).collect()) }
        _ => { let n = s.range(0, max as u64) as usize; D::Raw(tag, s.blob(n)) }
    }
}

/// list that takes at most `max` bytes
pub fn any_list(s: &mut Src, max: usize, count: usize) -> Vec<D> {
    let mut v = vec![];
    let mut left = max;
    let n = s.below(count + 1);
    for _ in 0 .. n {
        let lim = if s.chance(3) { 253 } else { 60 };
        if left < 24 { break; }
        let d = any_desc(s, (left - 2).min(lim));
        let k = whole(&d).len();
        if k > left { break; }
        left -= k;
        v.push(d);
    }
    v
}

pub fn build_list(v: &[D]) -> Descriptors {
    let mut l = Descriptors::default();
    for d in v { l.push(build(d)); }
    l
}

/// any bytes: mangled descriptors, wrong lengths, a broken tail
pub fn any_loop(s: &mut Src) -> Vec<u8> {
    if s.chance(6) { let n = s.below(300); return s.blob(n); }
    let mut b = vec![];
    let n = s.below(5);
    for _ in 0 .. n {
        let d = any_desc(s, 60);
        let mut w = whole(&d);
        match s.below(5) {
            0 => { let k = w.len(); for _ in 0 .. 2 { let i = s.below(k); w[i] = s.u8(); } w[1] = (k - 2) as u8; }
            1 => { let k = s.below(w.len() - 1) + 2; w.truncate(k); w[1] = (k - 2) as u8; }
            2 => { let k = s.below(6); w.extend(s.blob(k)); w[1] = (w.len() - 2) as u8; }
            3 if w.len() > 4 => { let i = 2 + s.below(w.len() - 2); w[i] = s.range(0, w.len() as u64 + 3) as u8; }
            _ => {}
        }
        b.extend(w);
    }
    match s.below(6) {
        0 => { let k = s.below(b.len() + 1); b.truncate(k); }
        1 => { let k = s.below(4); b.extend(s.blob(k)); }
        2 if !b.is_empty() => { let i = s.below(b.len()); b[i] = s.u8(); }
        _ => {}
    }
    b
}

pub fn same(l: &Descriptors, want: &[D], what: &str) -> R {
    ensure!(l.len() == want.len(), "{}: {} descriptors, expected {}", what, l.len(), want.len());
    ensure!(l.is_empty() == want.is_empty(), "{}: is_empty", what);
    for (i, (d, w)) in l.iter().zip(want).enumerate() {
        match read(d, w) {
            None => return Err(format!("{}: descriptor {} is not kept as the expected type, expected {:?}", what, i, w)),
            Some(g) => ensure!(g == *w, "{}: descriptor {} is {:?}, expected {:?}", what, i, g, w),
        }
        ensure!(d.tag() == tag(w), "{}: descriptor {} has tag {:#x}", what, i, d.tag());
    }
    Ok(())
}

fn parsing(s: &mut Src) -> R {
    let mut before = vec![];
    if s.chance(4) { before = any_list(s, 200, 3); }
    let b = any_loop(s);
    let mut l = build_list(&before);
    l.parse(&b);
    let mut want = before;
    want.extend(split(&b));
    same(&l, &want, &format!("parsing {}", hex(&b)))
}

/// every tag with every length
fn parsing_all() -> Result<u64, String> {
    let mut n = 0;
    for tag in 0 ..= 255u8 {
        for len in 0 ..= 255usize {
            for fill in [0u8, 1, 2, 5, 0x20, 0xFF] {
                if !TAGS.contains(&tag) && fill != 0x20 && fill != tag { continue; }
                let mut b = vec![tag, len as u8];
                b.extend((0 .. len).map(|i| if fill == 0x20 { (i * 7 + tag as usize) as u8 } else { fill }));
                let mut l = Descriptors::default();
                l.parse(&b);
                same(&l, &[decode(&b)], &format!("parsing {}", hex(&b)))?;
                n += 1;
            }
        }
    }
    Ok(n)
}

fn encoding(s: &mut Src) -> R {
    let v = if s.chance(3) { any_list(s, 900, 6) } else { vec![any_desc(s, 255)] };
    let k = s.below(20);
    let before = s.blob(k);
    let l = build_list(&v);
    for (d, w) in l.iter().zip(&v) {
        ensure!(d.tag() == tag(w), "tag {:#x} of {:?}", d.tag(), w);
    }
    let mut want = before.clone();
    for d in &v { want.extend(whole(d)); }
    let size = l.size();
    ensure!(size == want.len() - before.len(), "size {} announced, {} bytes expected for {:?}", size, want.len() - before.len(), v);
    let mut out = before.clone();
    let r = l.assemble(&mut out);
    ensure!(out == want, "encoding of {:?} is {}, expected {}", v, hex(&out[before.len().min(out.len()) ..]), hex(&want[before.len() ..]));
    ensure!(r == size, "assemble returned {} for {} bytes", r, size);
    let mut back = Descriptors::default();
    back.parse(&out[before.len() ..]);
    let parsed: Vec<D> = v.iter().map(|d| match d { D::Raw(..) => decode(&whole(d)), d => d.clone() }).collect();
    same(&back, &parsed, "decoding the encoded list")?;
    let mut again = vec![];
    back.assemble(&mut again);
    ensure!(again == want[before.len() ..], "encoding the decoded list again gives {}, expected {}", hex(&again), hex(&want[before.len() ..]));
    Ok(())
}

fn copies(s: &mut Src) -> R {
    let mut l = Descriptors::default();
    let mut what = String::new();
    if s.bool() {
        let b = any_loop(s);
        what = hex(&b);
        l.parse(&b);
    }
    if s.chance(2) {
        let mut v = any_list(s, 900, 6);
        if s.chance(3) { let n = s.below(20); v.push(D::Raw(s.pick(TAGS), s.blob(n))); }
        what = format!("{} {:?}", what, v);
        for d in &v { l.push(build(d)); }
    }
    let c = l.clone();
    ensure!(c.len() == l.len() && c.is_empty() == l.is_empty(), "copy has {} descriptors instead of {}: {}", c.len(), l.len(), what);
    for (a, b) in l.iter().zip(c.iter()) {
        let d = a.clone();
        ensure!(a.tag() == b.tag() && a.tag() == d.tag(), "copy has another tag: {}", what);
    }
    // fields read from any bytes may be out of the range that can be encoded
    let all = |l: &Descriptors| catch_unwind(AssertUnwindSafe(|| { let mut x = vec![]; let n = l.size(); let _ = l.assemble(&mut x); (n, x) })).ok();
    let (n, x) = match all(&l) { Some(r) => r, None => return Ok(()) };
    let (m, y) = match all(&c) { Some(r) => r, None => return Err(format!("encoding of the copy panics: {}", what)) };
    ensure!(n == m, "copy has size {} instead of {}: {}", m, n, what);
    ensure!(x == y, "copy encodes to {} instead of {}: {}", hex(&y), hex(&x), what);
    Ok(())
}

fn any_section(s: &mut Src) -> Psi {
    let mut p = Psi::default();
    match s.below(5) {
        0 => {}
        1 => { let n = s.below(9); p.buffer = s.blob(n); p.size = s.below(12); }
        2 => { let n = s.below(40); p.buffer = s.blob(n); p.size = s.range(0, 5000) as usize; }
        _ => {
            let n = 7 + s.below(30);
            let mut d = section(s, n);
            if s.bool() { let c = crc(&d[.. n - 4]); d[n - 4 ..].copy_from_slice(&c.to_be_bytes()); }
            p.buffer = d;
            p.size = n;
            if s.chance(4) { let k = s.below(9); p.buffer.extend(s.blob(k)); }
        }
    }
    p.cc = s.flat(0, 15) as u8;
    p
}

fn comparing(s: &mut Src) -> R {
    let a = any_section(s);
    let mut b = if s.bool() { a.clone() } else { any_section(s) };
    if s.bool() && !b.buffer.is_empty() { let i = s.below(b.buffer.len()); b.buffer[i] = b.buffer[i].wrapping_add(s.below(3) as u8); }
    let got = a == b;
    let back = b == a;
    let ok = |p: &Psi| p.size >= 7 && p.buffer.len() >= p.size;
    if ok(&a) && ok(&b) {
        let tail = |p: &Psi| p.buffer[p.size - 4 .. p.size].to_vec();
        let want = a.size == b.size && tail(&a) == tail(&b);
        ensure!(got == want && back == want, "sections {} / {} and {} / {} compare {} and {}, expected {}", a.size, hex(&a.buffer), b.size, hex(&b.buffer), got, back, want);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", cases: vec![Case { name: "parsing", weight: 50, run: parsing }], sweeps: vec![Sweep { name: "parsing_all", run: parsing_all }], known: None },
        Prop { id: "C07", cases: vec![Case { name: "encoding", weight: 50, run: encoding }], sweeps: vec![], known: None },
        Prop {
            id: "C23",
            cases: vec![Case { name: "copies", weight: 50, run: copies }, Case { name: "comparing", weight: 50, run: comparing }],
            sweeps: vec![],
            known: None,
        },
    ]
}
