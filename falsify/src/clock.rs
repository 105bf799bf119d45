//! C13 .. C16: packet header, PCR, clock arithmetic, PES header
use crate::{ensure, hex, Case, Prop, Src, Sweep, R};
use mpegts::es::pes;
use mpegts::ts;

fn packet(s: &mut Src) -> Vec<u8> {
    let mut p = s.blob(188);
    for i in 0 .. 12 { p[i] = s.u8(); }
    p
}

fn b(x: u8, k: u32) -> bool { x >> k & 1 == 1 }

fn header_of(p: &[u8]) -> R {
    ensure!(ts::is_sync(p) == (p[0] == 0x47), "is_sync {}", hex(&p[.. 5]));
    ensure!(ts::is_error(p) == b(p[1], 7), "is_error {}", hex(&p[.. 5]));
    ensure!(ts::is_pusi(p) == b(p[1], 6), "is_pusi {}", hex(&p[.. 5]));
    ensure!(ts::is_payload(p) == b(p[3], 4), "is_payload {}", hex(&p[.. 5]));
    ensure!(ts::is_adaptation(p) == b(p[3], 5), "is_adaptation {}", hex(&p[.. 5]));
    ensure!(ts::is_scrambled(p) == (b(p[3], 6) || b(p[3], 7)), "is_scrambled {}", hex(&p[.. 5]));
    ensure!(ts::get_cc(p) == p[3] & 15, "get_cc {}", hex(&p[.. 5]));
    ensure!(ts::get_pid(p) == (p[1] & 31) as u16 * 256 + p[2] as u16, "get_pid {}", hex(&p[.. 5]));
    ensure!(ts::get_adaptation_size(p) == p[4], "get_adaptation_size {}", hex(&p[.. 5]));
    let want = if !b(p[3], 4) { 0 } else if !b(p[3], 5) { 4 } else if p[4] >= 183 { 0 } else { 5 + p[4] };
    ensure!(ts::get_payload_offset(p) == want, "get_payload_offset {} = {}", hex(&p[.. 5]), ts::get_payload_offset(p));
    Ok(())
}

fn header(s: &mut Src) -> R {
    let p = packet(s);
    header_of(&p)?;
    let pid = s.range(0, 8191) as u16;
    let cc = s.range(0, 15) as u8;
    let change = |name: &str, f: &dyn Fn(&mut [u8]), g: &dyn Fn(&mut [u8])| -> R {
        let (mut a, mut c) = (p.clone(), p.clone());
        f(&mut a);
        g(&mut c);
        ensure!(a == c, "{} on {}: {}, expected {}", name, hex(&p[.. 5]), hex(&a[.. 5]), hex(&c[.. 5]));
        Ok(())
    };
    change(&format!("set_pid({})", pid), &|x| ts::set_pid(x, pid), &|x| { x[1] = x[1] / 32 * 32 + (pid / 256) as u8; x[2] = (pid % 256) as u8; })?;
    change(&format!("set_cc({})", cc), &|x| ts::set_cc(x, cc), &|x| { x[3] = x[3] / 16 * 16 + cc; })?;
    change("set_payload_0", &|x| ts::set_payload_0(x), &|x| if b(x[3], 4) { x[3] -= 16 })?;
    change("set_payload_1", &|x| ts::set_payload_1(x), &|x| if !b(x[3], 4) { x[3] += 16 })?;
    change("set_pusi_0", &|x| ts::set_pusi_0(x), &|x| if b(x[1], 6) { x[1] -= 64 })?;
    change("set_pusi_1", &|x| ts::set_pusi_1(x), &|x| if !b(x[1], 6) { x[1] += 64 })?;
    Ok(())
}

fn sweep_header() -> Result<u64, String> {
    let mut p = vec![0xFFu8; 188];
    let mut n = 0;
    for a in 0 ..= 255u8 {
        p[0] = a; p[1] = a; p[3] = a;
        for c in 0 ..= 255u8 {
            p[2] = c; p[4] = c;
            header_of(&p)?;
            n += 1;
        }
    }
    for pid in 0 .. 8192u16 {
        for f in [0u8, 0x20, 0x40, 0x80, 0xE0, 0x1F, 0xFF] {
            let mut q = [0x47, f, 0xAA, 0x10];
            ts::set_pid(&mut q, pid);
            ensure!(q == [0x47, (f & 0xE0) | (pid >> 8) as u8, pid as u8, 0x10] && ts::get_pid(&q) == pid, "set_pid({}) on {:#x}", pid, f);
            n += 1;
        }
    }
    for x in 0 ..= 255u8 {
        for cc in 0 .. 16u8 {
            let mut q = [0x47, 0, 0, x];
            ts::set_cc(&mut q, cc);
            ensure!(q == [0x47, 0, 0, (x & 0xF0) | cc], "set_cc({}) on {:#x}", cc, x);
            n += 1;
        }
    }
    Ok(n)
}

fn pcr_of(p: &[u8]) -> u64 {
    // 33 bits base, 6 reserved, 9 extension
    let mut bits = 0u64;
    for i in 6 .. 12 { bits = bits << 8 | p[i] as u64; }
    (bits >> 15) * 300 + (bits & 0x1FF)
}

const CYCLE: u64 = (1 << 33) * 300;

fn pcr(s: &mut Src) -> R {
    let p = packet(s);
    ensure!(ts::is_pcr(&p) == (b(p[3], 5) && p[4] >= 7 && b(p[5], 4)), "is_pcr {}", hex(&p[.. 6]));
    ensure!(ts::get_pcr(&p) == pcr_of(&p), "get_pcr {} = {}", hex(&p[6 .. 12]), ts::get_pcr(&p));
    let v = s.range(0, CYCLE - 1);
    let mut q = p.clone();
    ts::set_pcr(&mut q, v);
    let mut w = p.clone();
    let bits = (v / 300) << 15 | 0x3F << 9 | (v % 300);
    w[6 .. 12].copy_from_slice(&bits.to_be_bytes()[2 ..]);
    ensure!(q == w, "set_pcr({}) wrote {}, expected {}", v, hex(&q[6 .. 12]), hex(&w[6 .. 12]));
    ensure!(ts::get_pcr(&q) == v, "get_pcr after set_pcr({})", v);
    Ok(())
}

fn sweep_pcr() -> Result<u64, String> {
    let mut n = 0;
    let mut p = vec![0u8; 188];
    for flags in 0 ..= 255u8 {
        for size in 0 ..= 255u8 {
            for x in [0x10u8, 0xEF, 0x00, 0xFF] {
                p[3] = flags; p[4] = size; p[5] = x;
                ensure!(ts::is_pcr(&p) == (b(flags, 5) && size >= 7 && b(x, 4)), "is_pcr {}", hex(&p[.. 6]));
                n += 1;
            }
        }
    }
    for i in 6 .. 12 {
        for v in 0 ..= 255u8 {
            for fill in [0u8, 0xFF] {
                for k in 6 .. 12 { p[k] = fill; }
                p[i] = v;
                ensure!(ts::get_pcr(&p) == pcr_of(&p), "get_pcr {}", hex(&p[6 .. 12]));
                n += 1;
            }
        }
    }
    Ok(n)
}

fn clocks(s: &mut Src) -> R {
    let a = s.range(0, CYCLE - 1);
    let c = if s.bool() { s.range(0, CYCLE - 1) } else { let d = if s.bool() { s.range(0, 60_000_000) } else { s.range(26_999_973, 27_000_027) }; if s.bool() { (a + d) % CYCLE } else { (a + CYCLE - d) % CYCLE } };
    let exact = (c + CYCLE - a) % CYCLE;
    let d = ts::pcr_delta(a, c);
    // known finding: one tick less when the counter wrapped
    ensure!(d == exact || (c < a && d + 1 == exact), "pcr_delta({}, {}) = {}, expected {}", a, c, d, exact);

    let j = ts::pcr_jitter_ns(a, c);
    let d = ((a + CYCLE - c) % CYCLE) as i64;
    if d <= 27_000_000 {
        ensure!(j == d * 1000 / 27, "pcr_jitter_ns({}, {}) = {}", a, c, j);
    } else if d >= CYCLE as i64 - 27_000_000 {
        ensure!(j == -((CYCLE as i64 - d) * 1000 / 27), "pcr_jitter_ns({}, {}) = {}", a, c, j);
    }

    let (last, bytes, delta, last_bytes) = (s.range(0, CYCLE - 1), s.range(0, 20_000_000), s.range(0, 27_000_000 * 10), s.range(1, 20_000_000));
    let want = ((delta as u128 * bytes as u128 / last_bytes as u128 + last as u128) % CYCLE as u128) as u64;
    ensure!(ts::pcr_to_stc(last, bytes, delta, last_bytes) == want, "pcr_to_stc({}, {}, {}, {})", last, bytes, delta, last_bytes);

    let x = s.range(0, u64::MAX);
    ensure!(ts::pcr_to_us(x) == x / 27 && ts::pcr_to_ms(x) == x / 27000, "pcr_to_us/ms({})", x);
    let delta = s.range(27000, CYCLE);
    let bytes = s.range(0, u64::MAX / 8);
    ensure!(ts::pcr_delta_bitrate(delta, bytes) == bytes * 8 / (delta / 27000), "pcr_delta_bitrate({}, {})", delta, bytes);

    const P: u64 = 1 << 33;
    let a = s.range(0, P - 1);
    let c = if s.bool() { s.range(0, P - 1) } else { let d = s.range(0, 200_000); if s.bool() { (a + d) % P } else { (a + P - d) % P } };
    ensure!(pes::pts_delta(a, c) == (c + P - a) % P, "pts_delta({}, {}) = {}", a, c, pes::pts_delta(a, c));
    ensure!(pes::pts_to_ms(x) == x / 90, "pts_to_ms({})", x);
    Ok(())
}

fn stamp(p: &[u8]) -> u64 {
    let mut bits = 0u64;
    for &x in &p[.. 5] { bits = bits << 8 | x as u64; }
    // 4 bits prefix, 3 bits, marker, 15 bits, marker, 15 bits, marker
    ((bits >> 33 & 7) << 30) | ((bits >> 17 & 0x7FFF) << 15) | (bits >> 1 & 0x7FFF)
}

fn pes_of(p: &[u8]) -> R {
    ensure!(pes::is_prefix(p) == (p[0] == 0 && p[1] == 0 && p[2] == 1), "is_prefix {}", hex(&p[.. 3]));
    let plain = [0xBC, 0xBE, 0xBF, 0xF0, 0xF1, 0xF2, 0xF8, 0xFF].contains(&p[3]);
    ensure!(pes::is_syntax_spec(p) == !plain, "is_syntax_spec {:#x}", p[3]);
    ensure!(pes::get_length(p) == p[4] as u16 * 256 + p[5] as u16, "get_length {}", hex(&p[4 .. 6]));
    ensure!(pes::get_payload_offset(p) == if plain { 6 } else { 9 + p[8] as u16 }, "get_payload_offset {}", hex(&p[.. 9]));
    ensure!(pes::is_pts(p) == b(p[7], 7) && pes::is_dts(p) == b(p[7], 6), "flags {:#x}", p[7]);
    ensure!(pes::get_pts(p) == stamp(&p[9 ..]), "get_pts {} = {}", hex(&p[9 .. 14]), pes::get_pts(p));
    ensure!(pes::get_dts(p) == stamp(&p[14 ..]), "get_dts {} = {}", hex(&p[14 .. 19]), pes::get_dts(p));
    Ok(())
}

fn pes_case(s: &mut Src) -> R {
    let mut p = s.bytes(19);
    if s.bool() { p[0] = 0; p[1] = 0; p[2] = 1; }
    if s.chance(4) { p[3] = s.pick(&[0xBCu8, 0xBE, 0xBF, 0xF0, 0xF1, 0xF2, 0xF8, 0xFF, 0xBD, 0xE0, 0xC0]); }
    pes_of(&p)
}

fn sweep_pes() -> Result<u64, String> {
    let mut n = 0;
    for i in 0 .. 19 {
        for v in 0 ..= 255u8 {
            for fill in [0u8, 1, 0x55, 0xFF] {
                let mut p = [fill; 19];
                p[i] = v;
                pes_of(&p)?;
                p[0] = 0; p[1] = 0; p[2] = 1; p[i] = v;
                pes_of(&p)?;
                n += 2;
            }
        }
    }
    for a in 0 ..= 255u8 { for c in 0 ..= 255u8 {
        let mut p = [0u8; 19];
        p[4] = a; p[5] = c; p[3] = a; p[8] = c;
        pes_of(&p)?;
        n += 1;
    } }
    Ok(n)
}

fn known_pcr_delta() -> Option<String> {
    if ts::pcr_delta(CYCLE - 1, 0) == 0 {
        Some("pcr_delta(2576980377599, 0) returns 0 instead of 1: one tick is lost whenever the counter wraps between the two values".into())
    } else { None }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", cases: vec![Case { name: "header", weight: 100, run: header }], sweeps: vec![Sweep { name: "all_header_bytes", run: sweep_header }], known: None },
        Prop { id: "C14", cases: vec![Case { name: "pcr", weight: 100, run: pcr }], sweeps: vec![Sweep { name: "pcr_bytes", run: sweep_pcr }], known: None },
        Prop { id: "C15", cases: vec![Case { name: "clocks", weight: 100, run: clocks }], sweeps: vec![], known: Some(known_pcr_delta) },
        Prop { id: "C16", cases: vec![Case { name: "pes", weight: 100, run: pes_case }], sweeps: vec![Sweep { name: "pes_bytes", run: sweep_pes }], known: None },
    ]
}
