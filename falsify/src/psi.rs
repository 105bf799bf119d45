//! C01 - C04: sections and packets
use crate::{ensure, hex, Case, Prop, Src, Sweep, R};
use mpegts::psi::{crc32b, Psi};

pub fn crc(d: &[u8]) -> u32 {
    let mut r = 0xFFFF_FFFFu32;
    for &b in d {
        r ^= (b as u32) << 24;
        for _ in 0 .. 8 { r = if r >> 31 == 1 { (r << 1) ^ 0x04C1_1DB7 } else { r << 1 }; }
    }
    r
}

/// section length with the interesting ones near the packet borders
pub fn length(s: &mut Src, lo: u64, hi: u64) -> usize {
    let n = match s.below(4) {
        0 => s.range(lo, hi),
        1 => (184 * s.flat(0, 22)).wrapping_add(s.flat(0, 6)).wrapping_sub(3),
        2 => s.flat(lo, hi.min(400)),
        _ => s.flat(lo, hi),
    };
    n.max(lo).min(hi) as usize
}

/// n bytes whose header announces n
pub fn section(s: &mut Src, n: usize) -> Vec<u8> {
    let mut d = s.blob(n);
    if s.chance(4) { let v = s.pick(&[0u8, 0xFF, 0x47]); for x in d.iter_mut() { *x = v; } }
    if n >= 3 {
        d[1] = (d[1] & 0xF0) | ((n - 3) >> 8) as u8;
        d[2] = (n - 3) as u8;
    }
    d
}

/// packets of a section, written from the standard
pub fn packets(d: &[u8], pid: u16, cc: u8) -> Vec<u8> {
    let mut out = vec![];
    let mut pos = 0;
    let mut k = 0usize;
    while pos < d.len() {
        let mut p = vec![0x47, (pid >> 8) as u8 | if k == 0 { 0x40 } else { 0 }, pid as u8, 0x10 | ((cc as usize + k) % 16) as u8];
        if k == 0 { p.push(0); }
        while p.len() < 188 && pos < d.len() { p.push(d[pos]); pos += 1; }
        p.resize(188, 0xFF);
        out.extend(p);
        k += 1;
    }
    out
}

fn any_state(s: &mut Src) -> Psi {
    let mut p = Psi::default();
    p.cc = s.flat(0, 15) as u8;
    p.pid = s.flat(0, 8191) as u16;
    let n = length(s, 0, 4300);
    p.buffer = s.blob(n);
    p.size = match s.below(4) {
        0 => 0,
        1 => n,
        2 if n >= 3 => 3 + ((p.buffer[1] as usize & 15) << 8) + p.buffer[2] as usize,
        _ => s.range(0, 5000) as usize,
    };
    p
}

fn packetise(s: &mut Src) -> R {
    let n = length(s, 1, 4096);
    let d = section(s, n);
    let pid = s.range(0, 8191) as u16;
    let cc = s.flat(0, 15) as u8;
    let mut p = Psi::default();
    p.buffer = d.clone();
    if s.chance(3) { let k = s.below(300); p.buffer.extend(s.blob(k)); }
    p.size = n;
    p.pid = pid;
    p.cc = cc;
    let k = if s.bool() { 0 } else { s.below(400) };
    let mut out = s.blob(k);
    let before = out.clone();
    let keep = p.buffer.clone();
    p.demux(&mut out);
    let want = packets(&d, pid, cc);
    ensure!(out.len() == before.len() + want.len(), "section of {} bytes gave {} bytes of packets, expected {}", n, out.len() - before.len(), want.len());
    ensure!(out[.. before.len()] == before[..], "earlier output changed, section of {} bytes", n);
    for (i, (a, b)) in out[before.len() ..].iter().zip(&want).enumerate() {
        ensure!(a == b, "section of {} bytes, pid {}, cc {}: packet {} byte {} is {:#04x}, expected {:#04x}", n, pid, cc, i / 188, i % 188, a, b);
    }
    ensure!(p.cc as usize == (cc as usize + want.len() / 188) % 16, "cc left behind {} after {} packets from {}", p.cc, want.len() / 188, cc);
    ensure!(p.buffer == keep && p.size == n && p.pid == pid, "the section itself changed");
    if n >= 3 {
        let mut r = any_state(s);
        let first = format!("buffer {} size {} cc {}", r.buffer.len(), r.size, r.cc);
        for c in want.chunks(188) { r.mux(c); }
        ensure!(r.size == n && r.buffer.len() == n && r.buffer == d, "section of {} bytes came back as size {} with {} bytes, reassembler was: {}", n, r.size, r.buffer.len(), first);
    }
    Ok(())
}

fn packetise_all() -> Result<u64, String> {
    // every length
    for n in 1 ..= 4096usize {
        let d: Vec<u8> = (0 .. n).map(|i| match i { 1 if n >= 3 => 0xB0 | ((n - 3) >> 8) as u8, 2 => (n - 3) as u8, _ => (i * 7 + n) as u8 }).collect();
        let mut p = Psi::default();
        p.buffer = d.clone();
        p.size = n;
        p.pid = (n * 37 % 8192) as u16;
        p.cc = (n % 16) as u8;
        let want = packets(&d, p.pid, p.cc);
        let mut out = vec![];
        p.demux(&mut out);
        ensure!(out == want, "packets of a section of {} bytes", n);
        let mut r = Psi::default();
        for c in out.chunks(188) { r.mux(c); }
        ensure!(n < 3 || (r.buffer == d && r.size == n), "section of {} bytes came back with {} bytes", n, r.buffer.len());
    }
    Ok(4096)
}

fn hostile_packet(s: &mut Src, cc: &mut u8) -> Vec<u8> {
    let mut p = match s.below(4) {
        0 => vec![0; 188],
        1 => vec![0xFF; 188],
        _ => s.blob(188),
    };
    p[0] = 0x47;
    if s.chance(2) {
        // short sections everywhere
        let n = s.pick(&[0u8, 0, 1, 2, 5, 30, 120, 180]);
        for i in 4 .. 188 { if i % 3 != 1 || s.chance(40) { p[i] = if i % 3 == 0 { n } else { 0 }; } }
    }
    if s.chance(20) { *cc = s.u8(); } else { *cc = cc.wrapping_add(1); }
    let mut flags = 0x10;
    if s.chance(8) { flags = s.pick(&[0u8, 0x20, 0x30]); }
    if s.chance(4) { flags |= 0x20; }
    p[3] = (p[3] & 0xC0) | flags | (*cc & 15);
    p[1] = (p[1] & 0xBF) | if s.bool() { 0x40 } else { 0 };
    if flags & 0x20 != 0 { p[4] = match s.below(4) { 0 => s.u8(), 1 => s.flat(178, 186) as u8, _ => s.flat(0, 30) as u8 }; }
    let at = if flags & 0x20 != 0 { 5 + p[4] as usize } else { 4 };
    if at < 188 { p[at] = match s.below(5) { 0 => 0, 1 => s.flat(175, 186) as u8, 2 => s.u8(), _ => s.flat(0, 20) as u8 }; }
    let big = s.chance(6);
    if big && at + 4 < 188 { let q = at + 1 + p[at] as usize; if q + 3 < 188 { p[q + 1] = 0xFF; p[q + 2] = 0xFF; } }
    p
}

fn history(s: &mut Src) -> R {
    let mut r = Psi::default();
    let mut cc = s.u8();
    let n = if s.chance(10) { s.below(200) + 1 } else { s.below(30) + 1 };
    let stuck = s.chance(4);
    let one = hostile_packet(s, &mut cc);
    for k in 0 .. n {
        let p = if stuck { let mut q = one.clone(); cc = cc.wrapping_add(1); q[3] = (q[3] & 0xF0) | (cc & 15); q } else { hostile_packet(s, &mut cc) };
        r.mux(&p);
        ensure!(r.buffer.len() <= 4098 + 184, "{} bytes retained after {} packets", r.buffer.len(), k + 1);
        if r.size != 0 {
            ensure!(r.buffer.len() >= 3, "size {} with {} bytes retained", r.size, r.buffer.len());
            let want = 3 + ((r.buffer[1] as usize & 15) << 8) + r.buffer[2] as usize;
            ensure!(r.size == want, "size {} but the header {} announces {}", r.size, hex(&r.buffer[.. 3]), want);
        }
    }
    Ok(())
}

/// One section stream written into packets in any legal way, with what the receiver must hold.
fn layout(s: &mut Src) -> R {
    let mut r = if s.chance(3) { any_sound(s) } else { Psi::default() };
    let pid = s.range(0, 8191) as u16;
    let mut cc = if s.chance(3) { s.flat(0, 15) as u8 } else { (r.cc + 1) & 15 };
    let fresh = r.buffer.is_empty() || cc != (r.cc + 1) & 15;
    let count = 1 + s.below(4);
    // two sections never end in one packet
    let secs: Vec<Vec<u8>> = (0 .. count).map(|_| { let n = if s.chance(3) { length(s, 3, 4098) } else if s.bool() { s.flat(3, 200) as usize } else { s.flat(184, 600) as usize }; section(s, n) }).collect();
    let mut i = 0;          // section being sent
    let mut pos = 0;        // sent bytes of it
    let mut first = true;
    let mut log = String::new();
    while i < secs.len() {
        // packets without payload change nothing, whatever their counter
        if s.chance(8) {
            let mut p = s.blob(188);
            p[0] = 0x47; p[3] = (p[3] & 0xCF) | 0x20;
            let (b, z, c) = (r.buffer.clone(), r.size, r.cc);
            r.mux(&p);
            ensure!(r.buffer == b && r.size == z && r.cc == c, "a packet without payload changed the state");
        }
        let start = pos == 0;
        let af = match s.below(4) { 0 => s.flat(0, 60) as usize, 1 if s.chance(3) => s.flat(100, 182) as usize, _ => usize::MAX };
        let mut p = vec![0x47, (pid >> 8) as u8, pid as u8, 0x10 | cc];
        if af != usize::MAX { p[3] |= 0x20; p.push(af as u8); p.extend(s.blob(af)); }
        let room = 188 - p.len();
        let rest = secs[i].len() - pos;
        // what this packet does to the receiver
        if start {
            // a fresh start, with anything before the pointer target when nothing is being collected
            let junk = if (if first { fresh } else { r.size != 0 && r.buffer.len() == r.size }) && room > 1 { s.below((room - 1).min(183)) } else { 0 };
            if room < 1 + junk + 1 { continue; }
            p[1] |= 0x40;
            p.push(junk as u8);
            p.extend(s.blob(junk));
            let n = (188 - p.len()).min(rest);
            p.extend(&secs[i][.. n]);
            pos = n;
            p.resize(188, 0xFF);
            log.push_str(&format!(" start(junk {}, {} of {})", junk, n, secs[i].len()));
        } else if rest < room && i + 1 < secs.len() && rest > 0 && s.chance(2) {
            // the tail, then the next section in the same packet
            let n2 = room - 1 - rest;
            if n2 == 0 || n2 >= secs[i + 1].len() { continue; }
            p[1] |= 0x40;
            p.push(rest as u8);
            p.extend(&secs[i][pos ..]);
            p.extend(&secs[i + 1][.. n2]);
            log.push_str(&format!(" tail({}) start({} of {})", rest, n2, secs[i + 1].len()));
            r.mux(&p);
            ensure!(p.len() == 188, "packet size");
            cc = (cc + 1) & 15;
            ensure!(r.size == secs[i].len() && r.buffer.len() >= r.size && r.buffer[.. r.size] == secs[i][..],
                "section {} not recovered when the next one starts in its last packet:{}", i, log);
            i += 1;
            pos = n2;
            first = false;
            continue;
        } else {
            let n = room.min(rest);
            p.extend(&secs[i][pos .. pos + n]);
            pos += n;
            p.resize(188, 0xFF);
            log.push_str(&format!(" next({})", n));
        }
        first = false;
        // a lost packet
        if !start && s.chance(12) {
            let lost = s.flat(1, 15) as u8;
            p[3] = (p[3] & 0xF0) | ((cc + lost) & 15);
            r.mux(&p);
            ensure!(r.buffer.is_empty() && r.size == 0, "a continuation packet after a gap of {} left {} bytes:{}", lost, r.buffer.len(), log);
            // later continuations are of no use either
            let mut q = p.clone();
            q[3] = (q[3] & 0xF0) | ((r.cc + 1) & 15);
            r.mux(&q);
            ensure!(r.buffer.is_empty() && r.size == 0, "a continuation packet without a section start left {} bytes:{}", r.buffer.len(), log);
            return Ok(());
        }
        r.mux(&p);
        cc = (cc + 1) & 15;
        if pos == secs[i].len() {
            ensure!(r.size == secs[i].len() && r.buffer.len() >= r.size && r.buffer[.. r.size] == secs[i][..],
                "section {} of {} bytes not recovered, size {} with {} bytes:{}", i, secs[i].len(), r.size, r.buffer.len(), log);
            i += 1;
            pos = 0;
        } else {
            ensure!(r.size == 0 || r.buffer.len() < r.size, "section {} complete too early:{}", i, log);
            ensure!(r.buffer.len() == pos && r.buffer[..] == secs[i][.. pos], "retained {} bytes, expected the first {} of section {}:{}", r.buffer.len(), pos, i, log);
        }
    }
    Ok(())
}

/// a start packet after a gap keeps nothing from before; a start packet never mixes
fn gap_start(s: &mut Src) -> R {
    let pid = s.range(0, 8191) as u16;
    let na = s.flat(200, 3000) as usize;
    let a = section(s, na);
    let nb = length(s, 4, 1000);
    let b = section(s, nb);
    let mut r = Psi::default();
    let pa = packets(&a, pid, 3);
    let k = s.flat(1, (pa.len() / 188 - 1).max(1) as u64) as usize;
    for c in pa.chunks(188).take(k) { r.mux(c); }
    let lost = s.flat(1, 15) as u8;
    let cc = (3 + k as u8 + lost) & 15;
    // pointer beyond zero: the bytes before it belong to a section that was lost
    let junk = s.flat(1, 100) as usize;
    let mut p = vec![0x47, (pid >> 8) as u8 | 0x40, pid as u8, 0x10 | cc, junk as u8];
    p.extend(s.blob(junk));
    let n = (188 - p.len()).min(nb);
    p.extend(&b[.. n]);
    p.resize(188, 0xFF);
    r.mux(&p);
    if n == nb {
        ensure!(r.size == nb && r.buffer[.. nb] == b[..], "section started after a gap of {} not recovered: size {}", lost, r.size);
    } else {
        ensure!(r.buffer[..] == b[.. n], "after a gap of {} and a start packet {} bytes are retained, expected {}", lost, r.buffer.len(), n);
    }
    // the same before any section
    let mut f = Psi::default();
    let mut q = pa[.. 188].to_vec();
    q[1] &= 0xBF;
    q[3] = 0x11;
    f.mux(&q);
    ensure!(f.buffer.is_empty() && f.size == 0, "a continuation before any start was kept");
    Ok(())
}

fn any_sound(s: &mut Src) -> Psi {
    let mut r = Psi::default();
    let mut cc = s.u8();
    for _ in 0 .. s.below(6) { let p = hostile_packet(s, &mut cc); r.mux(&p); }
    // nothing pending, or something a start packet replaces
    if r.size != 0 && r.buffer.len() > r.size { Psi::default() } else { r }
}

fn checksum(s: &mut Src) -> R {
    let n = s.below(300);
    let d = if s.bool() { s.blob(n) } else { let k = n.min(40); s.bytes(k) };
    ensure!(crc32b(&d) == crc(&d), "crc32b({}) = {:#010x}, expected {:#010x}", hex(&d), crc32b(&d), crc(&d));
    // finishing
    let n = length(s, 3, 4094);
    let b = s.blob(n);
    let mut p = Psi::default();
    p.buffer = b.clone();
    p.cc = s.u8() & 15;
    p.pid = s.range(0, 8191) as u16;
    let (cc, pid) = (p.cc, p.pid);
    p.finalize();
    let mut want = b.clone();
    want[1] = (b[1] & 0xF0) | ((n + 1) >> 8) as u8;
    want[2] = (n + 1) as u8;
    let c = crc(&want);
    want.extend(&c.to_be_bytes());
    ensure!(p.buffer == want, "finalize of {} bytes: header {} tail {}, expected {} {}", n, hex(&p.buffer[.. 3]), hex(&p.buffer[p.buffer.len() - 4 ..]), hex(&want[.. 3]), hex(&want[n ..]));
    ensure!(p.size == n + 4 && p.cc == cc && p.pid == pid, "finalize: size {} for {} bytes", p.size, n);
    ensure!(p.check() == (n > 3), "check() after finalize of {} bytes is {}", n, p.check());
    // validation of anything
    let mut v = p.clone();
    match s.below(7) {
        0 => { let k = s.below(v.buffer.len()); v.buffer[k] ^= 1 << s.below(8); }
        1 => { let k = s.below(v.buffer.len() + 1); v.buffer.truncate(k); }
        2 => { let k = s.below(300); let e = s.blob(k); v.buffer.extend(e); }
        3 => v.size = s.range(0, 4200) as usize,
        4 => { v.size = s.below(12); if v.size > 4 && v.buffer.len() >= v.size { let k = v.size - 4; let c = crc(&v.buffer[.. k]); v.buffer[k .. k + 4].copy_from_slice(&c.to_be_bytes()); } }
        5 => { let k = s.below(4); let l = v.buffer.len(); v.buffer[l - 1 - k] = s.u8(); }
        _ => { v = any_state(s); if s.bool() && v.size > 4 && v.buffer.len() >= v.size { let k = v.size - 4; let c = crc(&v.buffer[.. k]); v.buffer[k .. k + 4].copy_from_slice(&c.to_be_bytes()); } }
    }
    let ok = v.size > 7 && v.buffer.len() >= v.size && crc(&v.buffer[.. v.size - 4]).to_be_bytes()[..] == v.buffer[v.size - 4 .. v.size];
    ensure!(v.check() == ok, "check() of size {} with {} bytes is {}, expected {}", v.size, v.buffer.len(), v.check(), ok);
    Ok(())
}

fn crc_table() -> Result<u64, String> {
    let mut n = 0;
    for a in 0 ..= 255u8 { for b in 0 ..= 255u8 {
        let d = [a, b, 0x5A];
        ensure!(crc32b(&d) == crc(&d), "crc32b({})", hex(&d));
        n += 1;
    } }
    ensure!(crc32b(b"123456789") == 0x0376_E6E7, "crc32b check value");
    for len in 3 ..= 4092usize {
        let mut p = Psi::default();
        p.buffer = (0 .. len).map(|i| (i * 11 + len) as u8).collect();
        p.finalize();
        ensure!(p.size == len + 4 && p.buffer.len() == len + 4, "finalize of {} bytes", len);
        ensure!(p.buffer[1 .. 3] == [(((11 + len) as u8) & 0xF0) | ((len + 1) >> 8) as u8, (len + 1) as u8], "length field of {} bytes", len);
        ensure!(p.check() == (len > 3), "check of {} bytes", len);
        n += 1;
    }
    Ok(n)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", cases: vec![Case { name: "packetise", weight: 50, run: packetise }], sweeps: vec![Sweep { name: "every_length", run: packetise_all }], known: None },
        Prop { id: "C02", cases: vec![Case { name: "history", weight: 50, run: history }], sweeps: vec![], known: None },
        Prop { id: "C03", cases: vec![Case { name: "layout", weight: 50, run: layout }, Case { name: "gap_start", weight: 10, run: gap_start }], sweeps: vec![], known: None },
        Prop { id: "C04", cases: vec![Case { name: "checksum", weight: 50, run: checksum }], sweeps: vec![Sweep { name: "crc_table", run: crc_table }], known: None },
    ]
}
