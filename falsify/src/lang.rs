//! C22: language codes
use crate::langs::{LISTED, OTHERS};
use crate::{ensure, Case, Prop, Src, Sweep, R};
use mpegts::textcode::lang::convert;

fn look<'a>(t: &[(&'a str, &'a str, &'a str)], s: &str) -> Option<&'a str> {
    for r in t {
        if r.0 == s { return Some(r.2); }
        if r.1 == s || r.2 == s { return Some(r.0); }
    }
    None
}

fn one(s: &str) -> R {
    let got = convert(s);
    if let Some(w) = look(LISTED, s) {
        ensure!(got == Some(w), "convert({:?}) = {:?}, expected {:?}", s, got, w);
    } else {
        // a language of ISO 639 that the list does not have today: nothing, or the right answer
        ensure!(got.is_none() || got == look(OTHERS, s), "convert({:?}) = {:?}, expected nothing", s, got);
    }
    Ok(())
}

fn all() -> Result<u64, String> {
    let mut n = 0;
    let mut go = |s: &str| -> R { n += 1; one(s) };
    for r in LISTED.iter().chain(OTHERS) {
        for w in [r.0, r.1, r.2] {
            go(w)?;
            go(&w.to_uppercase())?;
            for x in [" ", "\0", "a", "é"] { go(&format!("{}{}", w, x))?; go(&format!("{}{}", x, w))?; }
            go(&w[.. w.len() - 1])?;
            go(&w[1 ..])?;
            for v in [r.0, r.1, r.2] { go(&format!("{}{}", w, v))?; go(&format!("{}{}", &w[.. 1], v))?; }
        }
    }
    for a in 0u8 .. 128 {
        go(&(a as char).to_string())?;
        for b in 0u8 .. 128 { go(&[a as char, b as char].iter().collect::<String>())?; }
    }
    let l: Vec<char> = ('a' ..= 'z').collect();
    for &a in &l { for &b in &l { for &c in &l { go(&[a, b, c].iter().collect::<String>())?; } } }
    for c in (0x80 .. 0x11_0000u32).filter_map(char::from_u32) { go(&c.to_string())?; }
    go("")?;
    Ok(n)
}

fn words(s: &mut Src) -> R {
    let n = s.range(0, 8) as usize;
    let mut w = String::new();
    for _ in 0 .. n {
        match s.below(8) {
            0 => w.push(char::from_u32(s.range(0, 0x10FFFF) as u32).unwrap_or('\u{FFFD}')),
            1 => w.push(s.u8() as char),
            2 => { let r = s.pick(LISTED); w.push_str(r.0) }
            3 => { let r = s.pick(LISTED); w.push_str(&r.1[1 ..]) }
            _ => w.push((b'a' + s.flat(0, 25) as u8) as char),
        }
    }
    one(&w)
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C22", cases: vec![Case { name: "words", weight: 200, run: words }], sweeps: vec![Sweep { name: "all_codes", run: all }], known: None }]
}
