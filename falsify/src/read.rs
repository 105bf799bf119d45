//! C17, C18: packet reader, byte drain
use crate::{ensure, hex, Case, Prop, Src, Sweep, R};
use mpegts::reader::{TsDrain, TsRead, TsReader};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
enum Ev { Byte(u8), Fault(u32) }

const KINDS: [ErrorKind; 6] = [ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::InvalidData, ErrorKind::TimedOut];

fn fault(id: u32) -> io::Error { io::Error::new(KINDS[id as usize % KINDS.len()], format!("fault {}", id)) }

fn same(e: &io::Error, id: u32) -> bool { e.kind() == KINDS[id as usize % KINDS.len()] && e.to_string() == format!("fault {}", id) }

#[derive(Debug, Default)]
struct Work { ev: Vec<Ev>, at: usize, chunks: Vec<usize>, call: usize, dirty: bool }

/// hands out the events in chunks of the sizes given
#[derive(Debug, Clone)]
struct Source(Rc<RefCell<Work>>);

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut w = self.0.borrow_mut();
        let c = w.chunks[w.call % w.chunks.len()].max(1);
        w.call += 1;
        if w.call > 1_000_000 { panic!("source asked a million times"); }
        if buf.is_empty() || w.at >= w.ev.len() { return Ok(0); }
        if let Ev::Fault(id) = w.ev[w.at] { w.at += 1; return Err(fault(id)); }
        let mut n = 0;
        while n < c && n < buf.len() && w.at < w.ev.len() {
            if let Ev::Byte(b) = w.ev[w.at] { buf[n] = b; n += 1; w.at += 1; } else { break; }
        }
        if w.dirty { for x in &mut buf[n ..] { *x = 0x47; } }
        Ok(n)
    }
}

enum Found { Packet(Vec<u8>), Fault(u32), End }

/// what comes next from `at`, and where the source is left
fn next(ev: &[Ev], mut at: usize) -> (Found, usize) {
    loop {
        match ev.get(at) {
            None => return (Found::End, at),
            Some(Ev::Fault(id)) => return (Found::Fault(*id), at + 1),
            Some(Ev::Byte(0x47)) => break,
            Some(Ev::Byte(_)) => at += 1,
        }
    }
    let mut p = vec![];
    while p.len() < 188 {
        match ev.get(at) {
            None => return (Found::End, at),
            Some(Ev::Fault(id)) => return (Found::Fault(*id), at + 1),
            Some(Ev::Byte(b)) => { p.push(*b); at += 1; }
        }
    }
    (Found::Packet(p), at)
}

fn read_all(ev: &[Ev], chunks: &[usize], sizes: &[usize], dirty: bool) -> R {
    let src = Source(Rc::new(RefCell::new(Work { ev: ev.to_vec(), at: 0, chunks: chunks.to_vec(), call: 0, dirty })));
    let mut rd = TsReader::new(src.clone());
    let (mut at, mut k, mut ends) = (0, 0, 0);
    while ends < 2 {
        let size = sizes[k % sizes.len()].max(188);
        let mut buf: Vec<u8> = (0 .. size).map(|i| (i * 7 + k) as u8).collect();
        let was = buf.clone();
        let r = rd.read(&mut buf);
        let (want, to) = next(ev, at);
        let place = format!("read {} from {} (chunks {:?}, buffer {})", k, at, &chunks[.. chunks.len().min(6)], size);
        match (&r, want) {
            (Ok(188), Found::Packet(p)) => ensure!(buf[.. 188] == p[..], "{}: {}, expected {}", place, hex(&buf[.. 188]), hex(&p)),
            (Ok(0), Found::End) => ends += 1,
            (Err(e), Found::Fault(id)) => ensure!(same(e, id), "{}: fault {} became {:?}", place, id, e),
            (_, Found::Packet(_)) => return Err(format!("{}: {:?}, expected a packet", place, r)),
            (_, Found::End) => return Err(format!("{}: {:?}, expected the end", place, r)),
            (_, Found::Fault(id)) => return Err(format!("{}: {:?}, expected fault {}", place, r, id)),
        }
        ensure!(buf[188 ..] == was[188 ..], "{}: bytes after the packet were changed", place);
        ensure!(src.0.borrow().at == to, "{}: source left at {}, expected {}", place, src.0.borrow().at, to);
        ensure!(rd.get_ref().0.borrow().at == to, "{}: get_ref", place);
        at = to;
        k += 1;
    }
    ensure!(rd.into_inner().0.borrow().at == at, "into_inner");
    Ok(())
}

fn content(s: &mut Src) -> Vec<Ev> {
    let mut ev = vec![];
    let mut id = 0;
    for _ in 0 .. s.range(0, 6) {
        match s.below(6) {
            0 => { let n = s.range(0, 400) as usize; ev.extend(s.blob(n).into_iter().map(|b| Ev::Byte(if b == 0x47 { 0x46 } else { b }))) }
            1 => { let n = s.range(0, 300) as usize; ev.extend(s.blob(n).into_iter().map(Ev::Byte)) }
            2 => { let n = s.range(0, 200) as usize; ev.extend((0 .. n).map(|_| Ev::Byte(0x47))) }
            3 => { ev.push(Ev::Fault(id)); id += 1; }
            _ => {
                let mut p = s.blob(188);
                p[0] = 0x47;
                let at = ev.len();
                ev.extend(p.into_iter().map(Ev::Byte));
                if s.chance(3) { let k = at + s.range(0, 187) as usize; ev.insert(k, Ev::Fault(id)); id += 1; }
            }
        }
    }
    if s.chance(3) { let n = s.range(0, 188) as usize; let k = ev.len().saturating_sub(n); ev.truncate(k); }
    ev
}

fn chunk_list(s: &mut Src) -> Vec<usize> {
    if s.chance(4) { return vec![s.pick(&[1, 2, 187, 188, 1000])]; }
    (0 .. s.range(1, 8)).map(|_| s.range(1, 200) as usize).collect()
}

fn reads(s: &mut Src) -> R {
    let ev = content(s);
    let chunks = chunk_list(s);
    let sizes: Vec<usize> = (0 .. s.range(1, 4)).map(|_| s.range(188, 600) as usize).collect();
    let dirty = s.bool();
    read_all(&ev, &chunks, &sizes, dirty)
}

fn stream(noise: usize, len: usize) -> Vec<Ev> {
    (0 .. len).map(|i| Ev::Byte(if i < noise { i as u8 } else if (i - noise) % 188 == 0 { 0x47 } else if i % 5 == 0 { 0x47 } else { i as u8 })).collect()
}

fn reads_all() -> Result<u64, String> {
    let mut n = 0;
    for noise in 0 .. 3 {
        // every length, every chunk size
        for len in 0 .. 400 {
            for c in (1 .. 10).chain(180 .. 191) { read_all(&stream(noise, len), &[c], &[188 + len % 3], len % 2 == 0)?; n += 1; }
        }
        for c in 1 .. 400 { read_all(&stream(noise, 400), &[c], &[190], false)?; n += 1; }
        // a fault at every place
        for at in 0 .. 400 {
            for c in [1, 2, 7, 100, 187, 188] {
                let mut ev = stream(noise, 760);
                ev.insert(at, Ev::Fault(at as u32));
                read_all(&ev, &[c], &[188], false)?;
                n += 1;
            }
        }
    }
    Ok(n)
}

/// delivers the packets and faults given
#[derive(Debug)]
struct Packets { items: Vec<Option<Vec<u8>>>, at: usize, wipe: bool }

impl TsRead for Packets {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        assert!(packet.len() >= 188, "inner reader called with {} bytes", packet.len());
        let i = self.at;
        if i < self.items.len() { self.at += 1; }
        match self.items.get(i) {
            Some(Some(p)) => { packet[.. 188].copy_from_slice(p); Ok(188) }
            Some(None) => { if self.wipe { for x in &mut packet[.. 188] { *x = 0xEE; } } Err(fault(i as u32)) }
            None => { if self.wipe { for x in &mut packet[.. 188] { *x = 0xDD; } } Ok(0) }
        }
    }
}

fn drain_all<T: TsRead>(inner: T, ev: &[Ev], sizes: &[usize], place: &str) -> R {
    let mut d = TsDrain::new(inner);
    let (mut at, mut k, mut ends, mut idle) = (0, 0, 0, 0);
    while ends < 2 {
        let size = sizes[k % sizes.len()];
        let mut buf = vec![0xAAu8; size];
        let r = d.read(&mut buf);
        let place = format!("{}, read {} from {} (sizes {:?}, buffer {})", place, k, at, &sizes[.. sizes.len().min(6)], size);
        k += 1;
        if size == 0 {
            ensure!(matches!(r, Ok(0)), "{}: {:?} for an empty buffer", place, r);
            idle += 1;
            if idle > sizes.len() { return Ok(()); }
            continue;
        }
        idle = 0;
        match r {
            Ok(0) => { ensure!(at == ev.len(), "{}: end reported, {} bytes or faults left", place, ev.len() - at); ends += 1; }
            Ok(n) => {
                ensure!(n <= size, "{}: {} bytes", place, n);
                for i in 0 .. n {
                    ensure!(at < ev.len(), "{}: more bytes than the packets have", place);
                    ensure!(ev[at] == Ev::Byte(buf[i]), "{}: byte {} is {:02x}, expected {:?}", place, at, buf[i], ev[at]);
                    at += 1;
                }
            }
            Err(e) => {
                ensure!(matches!(ev.get(at), Some(Ev::Fault(id)) if same(&e, *id)), "{}: {:?}, expected {:?}", place, e, ev.get(at));
                at += 1;
            }
        }
    }
    Ok(())
}

fn size_list(s: &mut Src) -> Vec<usize> {
    let last = if s.bool() { 1 } else { 188 };
    (0 .. s.range(1, 8)).map(|_| match s.below(4) {
        0 => s.pick(&[0, 1, 187, 188, 189, 376]),
        1 => s.range(0, 16) as usize,
        _ => s.range(0, 400) as usize,
    }).chain(Some(last)).collect()
}

fn drains(s: &mut Src) -> R {
    let sizes = size_list(s);
    if s.chance(3) {
        // over the packet reader of the crate
        let ev = content(s);
        let (mut at, mut want) = (0, vec![]);
        loop {
            let (f, to) = next(&ev, at);
            at = to;
            match f { Found::Packet(p) => want.extend(p.into_iter().map(Ev::Byte)), Found::Fault(id) => want.push(Ev::Fault(id)), Found::End => break }
        }
        let chunks = chunk_list(s);
        let src = Source(Rc::new(RefCell::new(Work { ev, at: 0, chunks, call: 0, dirty: s.bool() })));
        return drain_all(TsReader::new(src), &want, &sizes, "over a reader");
    }
    let items: Vec<Option<Vec<u8>>> = (0 .. s.range(0, 6)).map(|_| if s.chance(4) { None } else { Some(s.blob(188)) }).collect();
    let mut want = vec![];
    for (i, x) in items.iter().enumerate() {
        match x { Some(p) => want.extend(p.iter().map(|b| Ev::Byte(*b))), None => want.push(Ev::Fault(i as u32)) }
    }
    let wipe = s.bool();
    drain_all(Packets { items, at: 0, wipe }, &want, &sizes, "over packets")
}

fn drains_all() -> Result<u64, String> {
    let items: Vec<Option<Vec<u8>>> = (0 .. 5).map(|k| if k == 3 { None } else { Some((0 .. 188).map(|i| (i * 3 + k * 50) as u8).collect()) }).collect();
    let mut want = vec![];
    for (i, x) in items.iter().enumerate() {
        match x { Some(p) => want.extend(p.iter().map(|b| Ev::Byte(*b))), None => want.push(Ev::Fault(i as u32)) }
    }
    let mut n = 0;
    for a in 0 .. 380 {
        for b in 0 .. 380 {
            if a > 200 && b > 200 && (a + b) % 7 != 0 { continue; }
            drain_all(Packets { items: items.clone(), at: 0, wipe: true }, &want, &[a, b], "over packets")?;
            n += 1;
        }
    }
    Ok(n)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", cases: vec![Case { name: "reads", weight: 20, run: reads }], sweeps: vec![Sweep { name: "reads_all", run: reads_all }], known: None },
        Prop { id: "C18", cases: vec![Case { name: "drains", weight: 20, run: drains }], sweeps: vec![Sweep { name: "drains_all", run: drains_all }], known: None },
    ]
}
