//! C19, C20: DVB text
use crate::tables::table;
use crate::{ensure, hex, Case, Prop, Src, Sweep, R};
use mpegts::textcode::StringDVB;

const CPS: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 21];

/// the bytes a string must become
pub fn encode(s: &str, cp: u8) -> (u8, Vec<u8>) {
    let t = match table(cp) { Some(t) => t, None => return (21, s.as_bytes().to_vec()) };
    let mut d = vec![];
    for c in s.chars() {
        let u = c as u32;
        if u < 0x80 { d.push(u as u8); continue; }
        if u < 0xA0 { continue; }
        if let Some(k) = (0 .. 96).find(|&k| t[k] as u32 == u) { d.push(0xA0 + k as u8); continue; }
        match u {
            0xAB | 0xBB | 0x201C | 0x201D | 0x201F => d.push(b'"'),
            0x2018 | 0x2019 | 0x201B => d.push(b'\''),
            0x2026 => d.extend_from_slice(b"..."),
            _ => d.push(b'?'),
        }
    }
    (cp, d)
}

/// the text that stored bytes mean
pub fn show(cp: u8, d: &[u8]) -> String {
    if cp == 21 { return String::from_utf8_lossy(d).into_owned(); }
    let t = table(cp).unwrap();
    let mut s = String::new();
    for &b in d {
        if b < 0x80 { s.push(b as char) }
        else if b >= 0xA0 {
            match t[b as usize - 0xA0] { 0 => s.push('?'), u => s.push(std::char::from_u32(u as u32).unwrap()) }
        }
    }
    s
}

pub fn wire(cp: u8, d: &[u8]) -> Vec<u8> {
    let mut w = vec![];
    if d.is_empty() { return w; }
    match cp {
        0 => {}
        1 ..= 4 => w.extend_from_slice(&[0x10, 0, cp]),
        5 ..= 15 => w.push(cp - 4),
        _ => w.push(cp),
    }
    w.extend_from_slice(d);
    w
}

pub fn unwire(w: &[u8]) -> (u8, Vec<u8>) {
    if w.is_empty() { return (0, vec![]); }
    match w[0] {
        21 => (21, w[1 ..].to_vec()),
        0x20 ..= 0xFF => (0, w.to_vec()),
        1 ..= 11 if w[0] != 8 => (w[0] + 4, w[1 ..].to_vec()),
        0x10 if w.len() >= 3 && w[2] != 0 && table(w[2]).is_some() => (w[2], w[3 ..].to_vec()),
        _ => (0, vec![b'?']),
    }
}

pub fn any_char(s: &mut Src, cp: u8) -> char {
    let u = match s.below(12) {
        0 ..= 3 => s.range(0x20, 0x7E) as u32,
        4 | 5 => match table(cp) { Some(t) => { let k = s.below(96); t[k] as u32 } None => s.range(0xA0, 0x7FF) as u32 },
        6 => s.pick(&[0xAB, 0xBB, 0x2018, 0x2019, 0x201A, 0x201B, 0x201C, 0x201D, 0x201E, 0x201F, 0x2026, 0x20AC]),
        7 => s.range(0, 0xFF) as u32,
        8 => s.range(0xA0, 0x24FF) as u32,
        9 => s.range(0x2000, 0xFFFF) as u32,
        10 => s.range(0x10000, 0x10FFFF) as u32,
        _ => { let k = s.pick(CPS); match table(k) { Some(t) => { let k = s.below(96); t[k] as u32 } None => 0x3042 } }
    };
    std::char::from_u32(u).filter(|&c| c != '\0').unwrap_or('?')
}

pub fn any_string(s: &mut Src, cp: u8, max: usize) -> String {
    let n = s.range(0, max as u64) as usize;
    (0 .. n).map(|_| any_char(s, cp)).collect()
}

/// an object with the wanted codepage and data
pub fn object(cp: u8, d: &[u8]) -> StringDVB { StringDVB::from(wire(cp, d).as_slice()) }

fn create(s: &mut Src) -> R {
    let cp = if s.chance(4) { s.u8() } else { s.pick(CPS) };
    let text = any_string(s, cp, 40);
    let o = StringDVB::from_str(&text, cp);
    let (c, d) = encode(&text, cp);
    ensure!(o.get_codepage() == c, "from_str({:?}, {}): codepage {}", text, cp, o.get_codepage());
    ensure!(o.as_bytes() == d.as_slice(), "from_str({:?}, {}) = {} instead of {}", text, cp, hex(o.as_bytes()), hex(&d));
    ensure!(o.is_empty() == d.is_empty(), "is_empty of {:?}", text);
    ensure!(o.to_string() == show(c, &d), "from_str({:?}, {}) shows {:?}", text, cp, o.to_string());
    if c == 21 { ensure!(o.to_string() == text, "UTF-8 text {:?} shows {:?}", text, o.to_string()); }
    let _ = format!("{:?}", o);
    Ok(())
}

fn display(s: &mut Src) -> R {
    let cp = s.pick(CPS);
    let n = s.range(1, 30) as usize;
    let mut d = s.bytes(n);
    if cp == 0 { d[0] |= 0x20; }
    let o = object(cp, &d);
    ensure!(o.get_codepage() == cp && o.as_bytes() == d.as_slice(), "decoding {}", hex(&wire(cp, &d)));
    ensure!(o.to_string() == show(cp, &d), "codepage {} data {} shows {:?}", cp, hex(&d), o.to_string());
    // whatever can be decoded can be shown
    let n = s.range(0, 12) as usize;
    let w = s.bytes(n);
    let o = StringDVB::from(w.as_slice());
    let (c, d) = unwire(&w);
    ensure!(o.to_string() == show(c, &d), "wire {} shows {:?}", hex(&w), o.to_string());
    Ok(())
}

fn tables() -> Result<u64, String> {
    let mut n = 0;
    for &cp in CPS {
        if cp == 21 { continue; }
        for b in 0 ..= 255u8 {
            let d = [b'A', b];
            let o = object(cp, &d);
            ensure!(o.to_string() == show(cp, &d), "codepage {} byte {:#x} shows {:?}", cp, b, o.to_string());
            n += 1;
        }
        for u in 0 ..= 0xFFFFu32 {
            if let Some(c) = std::char::from_u32(u) {
                let t: String = c.to_string();
                let o = StringDVB::from_str(&t, cp);
                ensure!(o.as_bytes() == encode(&t, cp).1.as_slice(), "from_str({:?}, {}) = {}", t, cp, hex(o.as_bytes()));
                n += 1;
            }
        }
    }
    Ok(n)
}

fn codepages() -> Result<u64, String> {
    for cp in 0 ..= 255u8 {
        let o = StringDVB::from_str("aé", cp);
        let (c, d) = encode("aé", cp);
        ensure!(o.get_codepage() == c && o.as_bytes() == d.as_slice(), "from_str with codepage {}", cp);
        ensure!(o.to_string() == show(c, &d), "shows {:?}", o.to_string());
    }
    Ok(256)
}

fn round(s: &mut Src) -> R {
    let n = s.range(0, 20) as usize;
    let mut w = s.bytes(n);
    if n > 0 && s.bool() { w[0] = s.flat(0, 0x22) as u8; }
    if n > 2 && s.bool() { w[2] = s.flat(0, 22) as u8; }
    let o = StringDVB::from(w.as_slice());
    let (c, d) = unwire(&w);
    ensure!(o.get_codepage() == c && o.as_bytes() == d.as_slice(), "decoding {} gives codepage {} data {}", hex(&w), o.get_codepage(), hex(o.as_bytes()));
    put(s, &o, c, &d)?;
    let mut e = vec![];
    o.assemble(&mut e);
    let q = StringDVB::from(e.as_slice());
    ensure!(q.as_bytes() == o.as_bytes() && (d.is_empty() || q.get_codepage() == o.get_codepage()), "{} decodes to other text after encoding", hex(&w));
    Ok(())
}

fn put(s: &mut Src, o: &StringDVB, cp: u8, d: &[u8]) -> R {
    let w = wire(cp, d);
    let n = s.range(0, 5) as usize;
    let pre = s.bytes(n);
    let mut e = pre.clone();
    o.assemble(&mut e);
    ensure!(e[.. n.min(e.len())] == pre[..], "assemble changed the bytes before");
    ensure!(e[n ..] == w[..], "codepage {} data {} encodes to {}", cp, hex(d), hex(&e[n ..]));
    ensure!(o.size() == w.len(), "size {} of {}", o.size(), hex(&w));
    if w.len() < 256 {
        let mut e = pre.clone();
        o.assemble_sized(&mut e);
        ensure!(e[.. n] == pre[..] && e[n] as usize == w.len() && e[n + 1 ..] == w[..], "sized form of {}: {}", hex(&w), hex(&e[n ..]));
    }
    Ok(())
}

fn encode_any(s: &mut Src) -> R {
    let cp = s.pick(CPS);
    let max = if s.chance(8) { 250 } else { 20 };
    let text = any_string(s, cp, max);
    let o = StringDVB::from_str(&text, cp);
    let (c, d) = encode(&text, cp);
    put(s, &o, c, &d)?;
    let q = o.clone();
    ensure!(q == o && q.as_bytes() == o.as_bytes() && q.get_codepage() == o.get_codepage(), "clone differs");
    Ok(())
}

fn split(s: &mut Src) -> R {
    let cp = s.pick(CPS);
    let max = if s.chance(6) { 300 } else { 40 };
    let text = any_string(s, cp, max);
    let o = StringDVB::from_str(&text, cp);
    let limit = s.range(8, 260) as usize;
    let p = o.split(limit);
    ensure!(!p.is_empty(), "no parts");
    let mut all = vec![];
    for x in &p {
        ensure!(x.get_codepage() == o.get_codepage(), "codepage of a part");
        ensure!(x.size() <= limit, "split({}) gives a part of {}", limit, x.size());
        if cp == 21 { ensure!(std::str::from_utf8(x.as_bytes()).is_ok(), "split({}) breaks a character of {:?}", limit, text); }
        all.extend_from_slice(x.as_bytes());
    }
    ensure!(all == o.as_bytes(), "split({}) of {} gives {}", limit, hex(o.as_bytes()), hex(&all));
    Ok(())
}

fn truncate(s: &mut Src) -> R {
    let cp = s.pick(CPS);
    let text = any_string(s, cp, 40);
    let o = StringDVB::from_str(&text, cp);
    let limit = s.range(0, 60) as usize;
    let mut t = o.clone();
    t.truncate(limit);
    let d = o.as_bytes();
    ensure!(t.get_codepage() == o.get_codepage(), "codepage changed");
    ensure!(t.as_bytes().len() <= limit, "truncate({}) leaves {} bytes", limit, t.as_bytes().len());
    if d.len() <= limit { ensure!(t.as_bytes() == d, "truncate({}) changed {}", limit, hex(d)); }
    else {
        let keep = limit.saturating_sub(3);
        ensure!(t.as_bytes().len() == limit && t.as_bytes()[.. keep] == d[.. keep] && t.as_bytes()[keep ..].iter().all(|&b| b == b'.'), "truncate({}) of {} gives {}", limit, hex(d), hex(t.as_bytes()));
    }
    Ok(())
}

fn prefixes() -> Result<u64, String> {
    let mut n = 0;
    for a in 0 ..= 255u8 {
        for len in 0 .. 6usize {
            for c in 0 ..= 255u8 {
                if len < 3 && c > 0 { break; }
                let mut w = vec![a, 0, c, 0x41, 0x42];
                w.truncate(len);
                let o = StringDVB::from(w.as_slice());
                let (cp, d) = unwire(&w);
                ensure!(o.get_codepage() == cp && o.as_bytes() == d.as_slice(), "decoding {} gives codepage {} data {}", hex(&w), o.get_codepage(), hex(o.as_bytes()));
                let mut e = vec![];
                o.assemble(&mut e);
                ensure!(e == wire(cp, &d) && o.size() == e.len(), "{} encodes to {} (size {})", hex(&w), hex(&e), o.size());
                n += 1;
            }
        }
    }
    Ok(n)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            cases: vec![Case { name: "create", weight: 20, run: create }, Case { name: "display", weight: 20, run: display }],
            sweeps: vec![Sweep { name: "all_codes", run: tables }, Sweep { name: "codepages", run: codepages }], known: None,
        },
        Prop {
            id: "C20",
            cases: vec![Case { name: "decode_encode", weight: 20, run: round }, Case { name: "encode", weight: 20, run: encode_any },
                Case { name: "split", weight: 20, run: split }, Case { name: "truncate", weight: 20, run: truncate }],
            sweeps: vec![Sweep { name: "prefixes", run: prefixes }], known: None,
        },
    ]
}
