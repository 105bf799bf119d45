//! C05, C08 - C11, C21: tables
use crate::desc::{any_list, any_loop, build_list, decode, hms, mjd, same, split, un_hms, un_mjd, whole, D};
use crate::psi::crc;
use crate::{ensure, hex, Case, Prop, Src, Sweep, R};
use mpegts::es::StreamType;
use mpegts::psi::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K { Pat, Pmt, Nit, Sdt, Eit, Tdt, Tot }
const ALL: &[K] = &[K::Pat, K::Pmt, K::Nit, K::Sdt, K::Eit, K::Tdt, K::Tot];

#[derive(Clone, Debug, PartialEq)]
struct I { n: Vec<u64>, ds: Vec<D> }

/// header fields, descriptors, entries
#[derive(Clone, Debug, PartialEq)]
struct T { k: K, n: Vec<u64>, ds: Vec<D>, items: Vec<I> }

enum Obj { Pat(Pat), Pmt(Pmt), Nit(Nit), Sdt(Sdt), Eit(Eit), Tdt(Tdt), Tot(Tot) }

macro_rules! each {
    ($o:expr, $x:ident => $e:expr) => {
        match $o { Obj::Pat($x) => $e, Obj::Pmt($x) => $e, Obj::Nit($x) => $e, Obj::Sdt($x) => $e, Obj::Eit($x) => $e, Obj::Tdt($x) => $e, Obj::Tot($x) => $e }
    };
}

fn be(out: &mut Vec<u8>, v: u64, n: usize) { for k in (0 .. n).rev() { out.push((v >> (8 * k)) as u8); } }
fn num(b: &[u8]) -> u64 { b.iter().fold(0, |a, &x| a << 8 | x as u64) }
fn hmm(d: u64) -> u64 { let b = |v: u64| v / 10 << 4 | v % 10; b(d / 3600) << 16 | b(d / 60 % 60) << 8 | b(d % 60) }
fn loops(ds: &[D]) -> Vec<u8> { ds.iter().flat_map(whole).collect() }

/// bytes before the first loop or entry
fn head_len(k: K) -> usize { match k { K::Pat => 8, K::Pmt => 12, K::Nit => 10, K::Sdt => 11, K::Eit => 14, K::Tdt => 8, K::Tot => 10 } }
fn limit(k: K) -> usize { if k == K::Eit { 4092 } else { 1020 } }
/// bytes of an entry before its descriptors
fn item_len(k: K) -> usize { match k { K::Pat => 4, K::Nit => 6, K::Eit => 12, _ => 5 } }
fn fits(k: K, id: u8) -> bool {
    match k {
        K::Pat => id == 0, K::Pmt => id == 2, K::Nit => id == 0x40 || id == 0x41, K::Sdt => id == 0x42 || id == 0x46,
        K::Eit => id >= 0x4E && id <= 0x6F, K::Tdt => id == 0x70, K::Tot => id == 0x73,
    }
}

fn item_wire(k: K, i: &I) -> Vec<u8> {
    let l = loops(&i.ds);
    let n = &i.n;
    let mut b = vec![];
    match k {
        K::Pat => { be(&mut b, n[0], 2); be(&mut b, 0xE000 | n[1], 2); return b; }
        K::Pmt => { b.push(n[0] as u8); be(&mut b, 0xE000 | n[1], 2); be(&mut b, 0xF000 | l.len() as u64, 2); }
        K::Nit => { be(&mut b, n[0], 2); be(&mut b, n[1], 2); be(&mut b, 0xF000 | l.len() as u64, 2); }
        K::Sdt => { be(&mut b, n[0], 2); b.push((0xFC | n[1] << 1 | n[2]) as u8); be(&mut b, n[3] << 13 | n[4] << 12 | l.len() as u64, 2); }
        K::Eit => {
            be(&mut b, n[0], 2); be(&mut b, mjd(n[1]), 2); be(&mut b, hms(n[1]), 3); be(&mut b, hmm(n[2]), 3);
            be(&mut b, n[3] << 13 | n[4] << 12 | l.len() as u64, 2);
        }
        _ => {}
    }
    b.extend(l);
    b
}

fn read_item(k: K, b: &[u8]) -> I {
    let n = match k {
        K::Pat => return I { n: vec![num(&b[.. 2]), num(&b[2 .. 4]) & 0x1FFF], ds: vec![] },
        K::Pmt => vec![b[0] as u64, num(&b[1 .. 3]) & 0x1FFF],
        K::Nit => vec![num(&b[.. 2]), num(&b[2 .. 4])],
        K::Sdt => vec![num(&b[.. 2]), (b[2] >> 1 & 1) as u64, (b[2] & 1) as u64, (b[3] >> 5) as u64, (b[3] >> 4 & 1) as u64],
        _ => vec![num(&b[.. 2]), un_mjd(num(&b[2 .. 4])) + un_hms(num(&b[4 .. 7])), un_hms(num(&b[7 .. 10])), (b[10] >> 5) as u64, (b[10] >> 4 & 1) as u64],
    };
    I { n, ds: split(&b[item_len(k) ..]) }
}

fn blank(k: K) -> T {
    let n = match k { K::Pat => 2, K::Pmt | K::Nit => 3, K::Sdt => 4, K::Eit => 5, _ => 1 };
    T { k, n: vec![0; n], ds: vec![], items: vec![] }
}

/// the table after reading a section
fn apply(t: &mut T, size: usize, buf: &[u8]) {
    let k = t.k;
    let least = match k { K::Tdt => 8, K::Pat => 12, K::Sdt => 15, K::Eit => 18, K::Tot => 14, _ => 16 };
    if size < least || buf.len() < size || !fits(k, buf[0]) { return; }
    if k == K::Tdt { if size != 8 { return; } }
    else if num(&buf[size - 4 .. size]) != crc(&buf[.. size - 4]) as u64 { return; }
    let id = buf[0] as u64;
    let x = num(&buf[3 .. 5]);
    let ver = (buf[5] >> 1 & 31) as u64;
    t.n = match k {
        K::Pat => vec![ver, x],
        K::Pmt => vec![ver, x, num(&buf[8 .. 10]) & 0x1FFF],
        K::Nit => vec![id, ver, x],
        K::Sdt => vec![id, ver, x, num(&buf[8 .. 10])],
        K::Eit => vec![id, ver, x, num(&buf[8 .. 10]), num(&buf[10 .. 12])],
        _ => vec![un_mjd(x) + un_hms(num(&buf[5 .. 8]))],
    };
    if k == K::Tdt { return; }
    let end = size - 4;
    let mut i = head_len(k);
    if k == K::Pmt || k == K::Nit || k == K::Tot {
        let l = (num(&buf[i - 2 .. i]) & 0xFFF) as usize;
        let after = if k == K::Nit { 2 } else { 0 };
        if i + l + after > end { return; }
        t.ds.extend(split(&buf[i .. i + l]));
        i += l + after;
    }
    if k == K::Tot { return; }
    let h = item_len(k);
    while i + h <= end {
        let l = h + if k == K::Pat { 0 } else { (num(&buf[i + h - 2 .. i + h]) & 0xFFF) as usize };
        if i + l > end { break; }
        t.items.push(read_item(k, &buf[i .. i + l]));
        i += l;
    }
}

fn make(t: &T) -> Obj {
    let n = &t.n;
    let d = |v: &[D]| build_list(v);
    match t.k {
        K::Pat => {
            let mut x = Pat::default();
            x.version = n[0] as u8; x.tsid = n[1] as u16;
            for i in &t.items { let mut y = PatItem::default(); y.pnr = i.n[0] as u16; y.pid = i.n[1] as u16; x.items.push(y); }
            Obj::Pat(x)
        }
        K::Pmt => {
            let mut x = Pmt::default();
            x.version = n[0] as u8; x.pnr = n[1] as u16; x.pcr = n[2] as u16; x.descriptors = d(&t.ds);
            for i in &t.items { let mut y = PmtItem::default(); y.stream_type = i.n[0] as u8; y.pid = i.n[1] as u16; y.descriptors = d(&i.ds); x.items.push(y); }
            Obj::Pmt(x)
        }
        K::Nit => {
            let mut x = Nit::default();
            x.table_id = n[0] as u8; x.version = n[1] as u8; x.network_id = n[2] as u16; x.descriptors = d(&t.ds);
            for i in &t.items { let mut y = NitItem::default(); y.tsid = i.n[0] as u16; y.onid = i.n[1] as u16; y.descriptors = d(&i.ds); x.items.push(y); }
            Obj::Nit(x)
        }
        K::Sdt => {
            let mut x = Sdt::default();
            x.table_id = n[0] as u8; x.version = n[1] as u8; x.tsid = n[2] as u16; x.onid = n[3] as u16;
            for i in &t.items {
                let mut y = SdtItem::default();
                y.pnr = i.n[0] as u16; y.eit_schedule_flag = i.n[1] as u8; y.eit_present_following_flag = i.n[2] as u8;
                y.running_status = i.n[3] as u8; y.free_ca_mode = i.n[4] as u8; y.descriptors = d(&i.ds);
                x.items.push(y);
            }
            Obj::Sdt(x)
        }
        K::Eit => {
            let mut x = Eit::default();
            x.table_id = n[0] as u8; x.version = n[1] as u8; x.pnr = n[2] as u16; x.tsid = n[3] as u16; x.onid = n[4] as u16;
            for i in &t.items {
                let mut y = EitItem::default();
                y.event_id = i.n[0] as u16; y.start = i.n[1]; y.duration = i.n[2] as u32; y.status = i.n[3] as u8; y.ca_mode = i.n[4] as u8; y.descriptors = d(&i.ds);
                x.items.push(y);
            }
            Obj::Eit(x)
        }
        K::Tdt => { let mut x = Tdt::default(); x.time = n[0]; Obj::Tdt(x) }
        K::Tot => { let mut x = Tot::default(); x.time = n[0]; x.descriptors = d(&t.ds); Obj::Tot(x) }
    }
}

fn look(o: &Obj) -> (Vec<u64>, Option<&Descriptors>, Vec<(Vec<u64>, Option<&Descriptors>)>) {
    match o {
        Obj::Pat(x) => (vec![x.version as u64, x.tsid as u64], None, x.items.iter().map(|i| (vec![i.pnr as u64, i.pid as u64], None)).collect()),
        Obj::Pmt(x) => (vec![x.version as u64, x.pnr as u64, x.pcr as u64], Some(&x.descriptors),
            x.items.iter().map(|i| (vec![i.stream_type as u64, i.pid as u64], Some(&i.descriptors))).collect()),
        Obj::Nit(x) => (vec![x.table_id as u64, x.version as u64, x.network_id as u64], Some(&x.descriptors),
            x.items.iter().map(|i| (vec![i.tsid as u64, i.onid as u64], Some(&i.descriptors))).collect()),
        Obj::Sdt(x) => (vec![x.table_id as u64, x.version as u64, x.tsid as u64, x.onid as u64], None,
            x.items.iter().map(|i| (vec![i.pnr as u64, i.eit_schedule_flag as u64, i.eit_present_following_flag as u64, i.running_status as u64, i.free_ca_mode as u64], Some(&i.descriptors))).collect()),
        Obj::Eit(x) => (vec![x.table_id as u64, x.version as u64, x.pnr as u64, x.tsid as u64, x.onid as u64], None,
            x.items.iter().map(|i| (vec![i.event_id as u64, i.start, i.duration as u64, i.status as u64, i.ca_mode as u64], Some(&i.descriptors))).collect()),
        Obj::Tdt(x) => (vec![x.time], None, vec![]),
        Obj::Tot(x) => (vec![x.time], Some(&x.descriptors), vec![]),
    }
}

fn cut(mut s: String) -> String {
    if s.len() > 3000 { let mut k = 3000; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str("..."); }
    s
}

fn equal(o: &Obj, t: &T, what: &str) -> R {
    let (n, ds, items) = look(o);
    ensure!(n == t.n, "{:?} {}: header fields {:?}, expected {:?}", t.k, what, n, t.n);
    if let Some(d) = ds { same(d, &t.ds, &format!("{:?} {}: table", t.k, what))?; }
    ensure!(items.len() == t.items.len(), "{:?} {}: {} entries, expected {}", t.k, what, items.len(), t.items.len());
    for (i, (a, b)) in items.iter().zip(&t.items).enumerate() {
        ensure!(a.0 == b.n, "{:?} {}: entry {} has {:?}, expected {:?}", t.k, what, i, a.0, b.n);
        if let Some(d) = a.1 { same(d, &b.ds, &format!("{:?} {}: entry {}", t.k, what, i))?; }
    }
    Ok(())
}

/// descriptors as they come back
fn parsed(ds: &[D]) -> Vec<D> { ds.iter().map(|d| match d { D::Raw(..) => decode(&whole(d)), d => d.clone() }).collect() }

fn item(s: &mut Src, k: K, room: usize, base: u64) -> I {
    let n = match k {
        K::Pat => return I { n: vec![s.u16() as u64, s.range(0, 8191)], ds: vec![] },
        K::Pmt => vec![s.u8() as u64, s.range(0, 8191)],
        K::Nit => vec![s.u16() as u64, s.u16() as u64],
        K::Sdt => vec![s.u16() as u64, s.range(0, 1), s.range(0, 1), s.range(0, 7), s.range(0, 1)],
        _ => vec![s.u16() as u64, base, s.range(0, 359_999), s.range(0, 7), s.range(0, 1)],
    };
    let max = room - item_len(k);
    let ds = match s.below(8) {
        0 => any_list(s, max, 12),
        1 | 2 | 3 => any_list(s, max.min(120), 3),
        // a size chosen to the byte
        4 | 5 => {
            let mut left = if s.chance(3) { max } else { s.range(0, max as u64) as usize };
            let mut v = vec![];
            while left >= 2 && v.len() < 20 { let m = (left - 2).min(255); v.push(D::Raw(0x90, s.blob(m))); left -= m + 2; }
            v
        }
        _ => vec![],
    };
    I { n, ds }
}

fn header(s: &mut Src, k: K) -> Vec<u64> {
    let ver = s.range(0, 31);
    match k {
        K::Pat => vec![ver, s.u16() as u64],
        K::Pmt => vec![ver, s.u16() as u64, s.range(0, 8191)],
        K::Nit => vec![s.range(0x40, 0x41), ver, s.u16() as u64],
        K::Sdt => vec![s.pick(&[0x42, 0x46]), ver, s.u16() as u64, s.u16() as u64],
        K::Eit => vec![s.range(0x4E, 0x6F), ver, s.u16() as u64, s.u16() as u64, s.u16() as u64],
        _ => vec![if s.bool() { s.range(0, 2_155_593_599) } else { s.flat(0, 24948) * 86400 + s.range(0, 86399) }],
    }
}

fn table(s: &mut Src, k: K) -> T {
    let n = header(s, k);
    let mut ds = vec![];
    let room = limit(k) - head_len(k) - if k == K::Nit { 2 } else { 0 };
    if k == K::Pmt || k == K::Nit {
        ds = match s.below(4) { 0 => any_list(s, room, 12), 1 => item(s, k, room + item_len(k), 0).ds, 2 => vec![], _ => any_list(s, 100, 2) };
    }
    let count = match (k, s.below(12)) {
        (K::Pat, 0) => s.range(250, 260), (K::Pat, 1) => s.range(500, 3000), (_, 0) => 0, (_, 1) => s.range(1, 120), (_, 2) => s.range(0, 3), _ => s.range(0, 20),
    };
    let items = (0 .. count).map(|_| item(s, k, room, 0)).collect();
    T { k, n, ds, items }
}

fn gather(d: &[u8], pid: u16, cc: u8) -> Result<Vec<Vec<u8>>, String> {
    ensure!(d.len() % 188 == 0, "{} bytes are no whole packets", d.len());
    let mut v: Vec<Vec<u8>> = vec![];
    for (i, p) in d.chunks(188).enumerate() {
        ensure!(p[0] == 0x47 && num(&p[1 .. 3]) & 0xBFFF == pid as u64, "packet {} starts with {}", i, hex(&p[.. 4]));
        ensure!(p[3] as usize == 0x10 | (cc as usize + i) % 16, "packet {} has control byte {:#x}, first counter {}", i, p[3], cc);
        if p[1] & 0x40 != 0 { ensure!(p[4] == 0, "pointer field"); v.push(p[5 ..].to_vec()); }
        else if let Some(l) = v.last_mut() { l.extend_from_slice(&p[4 ..]); }
        else { return Err(format!("packet {} continues nothing", i)); }
    }
    for (i, x) in v.iter_mut().enumerate() {
        let n = 3 + (num(&x[1 .. 3]) & 0xFFF) as usize;
        ensure!(n <= x.len(), "section {} announces {} bytes, {} sent", i, n, x.len());
        ensure!(x[n ..].iter().all(|&b| b == 0xFF), "section {} is followed by other bytes", i);
        x.truncate(n);
    }
    Ok(v)
}

fn send(o: &Obj, pid: u16, cc: u8, before: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut dst = before.to_vec();
    let mut c = cc;
    each!(o, x => x.demux(pid, &mut c, &mut dst));
    ensure!(dst.len() >= before.len() && dst[.. before.len()] == *before, "bytes before the packets changed");
    let p = &dst[before.len() ..];
    ensure!(c as usize == (cc as usize + p.len() / 188) % 16, "counter {} after {} packets from {}", c, p.len() / 188, cc);
    gather(p, pid, cc)
}

fn complete(f: Vec<u8>) -> Psi { let mut p = Psi::default(); p.size = f.len(); p.buffer = f; p }

/// sections of a table with entries
fn sections(t: &T, secs: &[Vec<u8>]) -> R {
    let k = t.k;
    let mut want: Vec<u8> = vec![];
    for i in &t.items { want.extend(item_wire(k, i)); }
    let mut got: Vec<u8> = vec![];
    for (j, f) in secs.iter().enumerate() {
        let h = head_len(k);
        ensure!(f.len() >= h + 4 && f.len() <= limit(k) + 4, "section {} has {} bytes", j, f.len());
        let end = f.len() - 4;
        ensure!(num(&f[end ..]) == crc(&f[.. end]) as u64, "section {}: wrong checksum in {}", j, hex(f));
        ensure!(f[1] & 0x80 != 0 && f[5] & 1 == 1, "section {}: indicators {}", j, hex(&f[.. 8]));
        let (id, ver, x) = match k { K::Pat => (0, t.n[0], t.n[1]), K::Pmt => (2, t.n[0], t.n[1]), _ => (t.n[0], t.n[1], t.n[2]) };
        let same_id = if k == K::Eit && id >= 0x50 { f[0] as u64 / 16 == id / 16 } else { f[0] as u64 == id };
        ensure!(same_id, "section {} has table id {:#x}, table {:#x}", j, f[0], id);
        ensure!((f[5] >> 1 & 31) as u64 == ver, "section {}: version in {}", j, hex(&f[.. h]));
        ensure!(num(&f[3 .. 5]) == x, "section {}: identifier in {}", j, hex(&f[.. h]));
        if k == K::Eit {
            ensure!(f[6] <= f[7], "section number {} above the last {}", f[6], f[7]);
            ensure!(num(&f[8 .. 10]) == t.n[3] && num(&f[10 .. 12]) == t.n[4], "section {}: identifiers in {}", j, hex(&f[.. h]));
            if let Some(n) = secs.get(j + 1) { ensure!((f[0], f[6]) < (n[0], n[6]), "section {} has table id {:#x} and number {}, the next {:#x} and {}", j, f[0], f[6], n[0], n[6]); }
            let last = secs.iter().filter(|x| x[0] == f[0]).map(|x| x[6]).max().unwrap();
            ensure!(f[7] == last, "section {} of table id {:#x} says the last is {}, it is {}", f[6], f[0], f[7], last);
            if id < 0x50 { ensure!(f[6] as usize == j && f[7] as usize == secs.len() - 1, "section {} of {} is numbered {} of {}", j, secs.len(), f[6], f[7]); }
        } else if secs.len() <= 256 {
            ensure!(f[6] as usize == j && f[7] as usize == secs.len() - 1, "section {} of {} is numbered {}, last {}", j, secs.len(), f[6], f[7]);
        }
        let mut i = h;
        match k {
            K::Pmt => ensure!(num(&f[8 .. 10]) & 0x1FFF == t.n[2], "section {}: clock pid in {}", j, hex(&f[.. h])),
            K::Sdt => ensure!(num(&f[8 .. 10]) == t.n[3], "section {}: network in {}", j, hex(&f[.. h])),
            _ => {}
        }
        if k == K::Pmt || k == K::Nit {
            let l = (num(&f[h - 2 .. h]) & 0xFFF) as usize;
            let d = if j == 0 { loops(&t.ds) } else { vec![] };
            ensure!(l == d.len() && h + l <= end && f[h .. h + l] == d[..], "section {}: descriptors in {}, expected {}", j, hex(f), hex(&d));
            i += l;
        }
        if k == K::Nit {
            ensure!(i + 2 <= end && (num(&f[i .. i + 2]) & 0xFFF) as usize == end - i - 2, "section {}: loop length in {}", j, hex(f));
            i += 2;
        }
        let hl = item_len(k);
        let start = i;
        while i < end {
            ensure!(i + hl <= end, "section {}: incomplete entry in {}", j, hex(f));
            i += hl + if k == K::Pat { 0 } else { (num(&f[i + hl - 2 .. i + hl]) & 0xFFF) as usize };
        }
        ensure!(i == end, "section {}: entry past the end of {}", j, hex(f));
        got.extend_from_slice(&f[start .. end]);
    }
    if got != want {
        let p = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("entries differ at byte {}: ..{}, expected ..{}", p, hex(&got[p .. got.len().min(p + 40)]), hex(&want[p .. want.len().min(p + 40)])));
    }
    Ok(())
}

fn there_and_back(s: &mut Src, t: &T) -> R {
    let o = make(t);
    let pid = s.range(0, 8191) as u16;
    let cc = s.flat(0, 15) as u8;
    let m = s.below(8);
    let before = s.blob(m);
    let wrap = |e: String| cut(format!("{} for {:?}", e, t));
    let secs = send(&o, pid, cc, &before).map_err(wrap)?;
    if t.k == K::Eit && t.items.is_empty() { ensure!(secs.is_empty(), "a table without events sends {} sections", secs.len()); return Ok(()); }
    ensure!(!secs.is_empty(), "nothing sent for {:?}", t);
    sections(t, &secs).map_err(wrap)?;
    let list = each!(&o, x => x.psi_list_assemble());
    ensure!(list.len() == secs.len(), "{} sections in the list, {} sent", list.len(), secs.len());
    for (j, (p, f)) in list.iter().zip(&secs).enumerate() {
        if t.k == K::Eit { ensure!(p.buffer == *f, "section {} of the list is {}, sent {}", j, hex(&p.buffer), hex(f)); }
        else { ensure!(p.buffer.len() + 4 == f.len() && p.buffer[8 ..] == f[8 .. f.len() - 4], "section {} of the list is {}, sent {}", j, hex(&p.buffer), hex(f)); }
    }
    let mut back = make(&blank(t.k));
    for f in secs { let p = complete(f); each!(&mut back, x => x.parse(&p)); }
    let mut want = t.clone();
    want.ds = parsed(&t.ds);
    for i in want.items.iter_mut() { i.ds = parsed(&i.ds); }
    if t.k == K::Eit { if let Obj::Eit(e) = &mut back { if t.n[0] >= 0x50 { e.table_id = t.n[0] as u8; } } }
    equal(&back, &want, "read back").map_err(wrap)
}

fn programs(s: &mut Src) -> R { let k = s.pick(&[K::Pat, K::Pmt, K::Pmt]); let t = table(s, k); there_and_back(s, &t) }
fn networks(s: &mut Src) -> R { let k = s.pick(&[K::Nit, K::Sdt]); let t = table(s, k); there_and_back(s, &t) }

/// every number of equal entries
fn pat_all() -> Result<u64, String> {
    let mut n = 0;
    let mut s = Src::new(7, vec![]);
    for count in (0 .. 800).chain((4000 .. 64000).step_by(6311)).chain([64768]) {
        let t = T { k: K::Pat, n: vec![count % 32, count * 77 % 65536], ds: vec![], items: (0 .. count).map(|i| I { n: vec![(i * 31 + count) % 65536, (i * 7) % 8192], ds: vec![] }).collect() };
        there_and_back(&mut s, &t)?;
        n += 1;
    }
    Ok(n)
}

/// two entries of every pair of sizes near a full section, and one entry of every size
fn sizes(k: K) -> Result<u64, String> {
    let mut n = 0;
    let mut s = Src::new(11, vec![]);
    let exact = |len: usize| {
        let mut v = vec![];
        let mut left = len;
        while left >= 2 { let m = (left - 2).min(255); let m = if left - 2 - m == 1 { m - 1 } else { m }; v.push(D::Raw(0x90, (0 .. m).map(|i| i as u8).collect())); left -= m + 2; }
        v
    };
    let room = limit(k) - head_len(k) - if k == K::Nit { 2 } else { 0 };
    let one = |len: usize| I { n: match k { K::Sdt => vec![5, 1, 0, 4, 1], _ => vec![5, 6] }, ds: exact(len) };
    let h = blank(k).n.len();
    let fields = |x: u64| -> Vec<u64> { let mut v = vec![x % 32; h]; if k != K::Pmt { v[0] = 0x42 - if k == K::Nit { 1 } else { 0 }; } v };
    for a in 0 ..= room - item_len(k) {
        if a == 1 { continue; }
        let t = T { k, n: fields(a as u64), ds: vec![], items: vec![one(a)] };
        there_and_back(&mut s, &t)?;
        if k != K::Sdt {
            let t = T { k, n: fields(a as u64), ds: exact(a), items: vec![one(0), one(9)] };
            there_and_back(&mut s, &t)?;
        }
        let rest = room as i64 - 2 * item_len(k) as i64 - a as i64;
        for b in rest - 4 ..= rest + 4 {
            if b < 0 || b == 1 || b as usize > room - item_len(k) { continue; }
            let t = T { k, n: fields(a as u64), ds: vec![], items: vec![one(a), one(b as usize), one(2)] };
            there_and_back(&mut s, &t)?;
            n += 1;
        }
        n += 2;
    }
    Ok(n)
}
fn pmt_sizes() -> Result<u64, String> { sizes(K::Pmt) }
fn nit_sizes() -> Result<u64, String> { sizes(K::Nit) }
fn sdt_sizes() -> Result<u64, String> { sizes(K::Sdt) }

/// events of one service, in order, at most 64 days and little enough for eight sections in three hours
fn events(s: &mut Src) -> R {
    let mut n = header(s, K::Eit);
    if s.chance(3) { n[0] = s.range(0x4E, 0x4F); }
    let mut t = T { k: K::Eit, n, ds: vec![], items: vec![] };
    let count = match s.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 => s.range(0, 256), 4 => s.range(0, 100), _ => s.range(0, 20) };
    if t.n[0] < 0x50 {
        for _ in 0 .. count { let at = s.range(0, 2_155_593_599); t.items.push(item(s, K::Eit, 4078, at)); }
        return there_and_back(s, &t);
    }
    let mut at = s.range(0, 2_155_593_599);
    let midnight = at / 86400 * 86400;
    let step = s.pick(&[600u64, 3600, 10800, 10800, 40000, 90000, 700000]);
    let mut left = 600_000;
    for _ in 0 .. count {
        let room = if s.chance(6) { 4078 } else { s.range(12, 1500) as usize };
        let i = item(s, K::Eit, room.max(40), at);
        t.items.push(i);
        // the last events must not overfill their segment
        let near: usize = t.items.iter().filter(|x| x.n[1] + 21600 > at).map(|x| item_wire(K::Eit, x).len()).sum();
        left -= item_wire(K::Eit, t.items.last().unwrap()).len().min(left);
        if near >= 16312 { t.items.pop(); }
        if left == 0 { break; }
        at += match s.below(6) { 0 => 0, 1 => 10800, 2 => s.range(0, 10800), 3 => (10800 - at % 10800).saturating_sub(s.flat(0, 1)), _ => s.range(0, step) };
        if at >= midnight + 512 * 10800 || at > 2_155_593_599 { break; }
    }
    there_and_back(s, &t)
}

/// an event starting at each second of a week, and chains across every border of segments
fn schedule_all() -> Result<u64, String> {
    let mut n = 0;
    let mut s = Src::new(13, vec![]);
    let e = |at: u64, k: u64| I { n: vec![k, at, 3600, k % 8, k % 2], ds: vec![] };
    for first in (0 .. 86400).step_by(1799) {
        for gap in [0u64, 1, 10799, 10800, 10801, 21599, 21600, 32400, 86399, 86400] {
            let items = (0 .. 40).map(|k| e(1_600_041_600 + first + gap * k, k)).filter(|i| i.n[1] < 1_600_041_600 + 64 * 86400).collect();
            let t = T { k: K::Eit, n: vec![0x50 + gap % 32, first % 32, 1, 2, 3], ds: vec![], items };
            there_and_back(&mut s, &t)?;
            n += 1;
        }
    }
    // 64 days, one event an hour
    let items = (0 .. 64 * 24).map(|k| e(1_600_041_600 + 3600 * k, k)).collect();
    there_and_back(&mut s, &T { k: K::Eit, n: vec![0x50, 3, 1, 2, 3], ds: vec![], items })?;
    // seven events that need a section each, in one segment
    for g in (0 .. 72u64).chain(94 .. 98).chain(190 .. 194).chain(254 .. 258).chain(505 .. 511) {
        let mut items: Vec<I> = (0 .. g).map(|k| e(1_600_041_600 + 10800 * k, k)).collect();
        for k in 0 .. 7 {
            let mut i = e(1_600_041_600 + 10800 * g + 60 * k, 1000 + k);
            i.ds = (0 .. 8).map(|j| D::Raw(0x90, vec![j as u8; 255])).collect();
            items.push(i);
        }
        items.push(e(1_600_041_600 + 10800 * (g + 1), 2000));
        there_and_back(&mut s, &T { k: K::Eit, n: vec![0x50, 3, 1, 2, 3], ds: vec![], items })?;
        n += 1;
    }
    for count in 0 ..= 256u64 {
        let items = (0 .. count).map(|k| e(1_600_041_600 + 3600 * k, k)).collect();
        there_and_back(&mut s, &T { k: K::Eit, n: vec![0x4E + count % 2, 3, 1, 2, 3], ds: vec![], items })?;
        n += 1;
    }
    // one event of every size
    for m in 0 .. 4067usize {
        if m == 1 { continue; }
        let mut v = vec![];
        let mut left = m;
        while left >= 2 { let k = (left - 2).min(255); let k = if left - 2 - k == 1 { k - 1 } else { k }; v.push(D::Raw(0x90, vec![k as u8; k])); left -= k + 2; }
        let mut i = e(1_600_041_600 + m as u64, 9);
        i.ds = v;
        let items = if m % 2 == 0 { vec![i.clone()] } else { vec![e(1_600_041_600, 1), i.clone(), e(1_600_050_000, 2)] };
        there_and_back(&mut s, &T { k: K::Eit, n: vec![0x50, 3, 1, 2, 3], ds: vec![], items })?;
        i.n[1] = 1_600_041_600;
        there_and_back(&mut s, &T { k: K::Eit, n: vec![0x4E, 3, 1, 2, 3], ds: vec![], items: vec![i] })?;
        n += 2;
    }
    Ok(n)
}

fn time_section(t: &T) -> Vec<u8> {
    let at = t.n[0];
    let l = loops(&t.ds);
    let mut f = vec![if t.k == K::Tdt { 0x70 } else { 0x73 }];
    let len = if t.k == K::Tdt { 5 } else { 11 + l.len() as u64 };
    be(&mut f, 0x7000 | len, 2);
    be(&mut f, mjd(at), 2);
    be(&mut f, hms(at), 3);
    if t.k == K::Tot { be(&mut f, 0xF000 | l.len() as u64, 2); f.extend(l); let c = crc(&f); be(&mut f, c as u64, 4); }
    f
}

fn clock(t: &T, pid: u16, cc: u8, before: &[u8]) -> R {
    let o = make(t);
    let wrap = |e: String| cut(format!("{} for {:?}", e, t));
    let secs = send(&o, pid, cc, before).map_err(wrap)?;
    ensure!(secs.len() == 1, "{} sections for {:?}", secs.len(), t);
    let want = time_section(t);
    // the two bits after the section syntax indicator are not fixed by the property
    let strip = |f: &[u8]| { let mut g = f.to_vec(); g[1] &= 0x8F; let n = g.len(); if t.k == K::Tot && n > 4 { g.truncate(n - 4); } g };
    ensure!(secs[0].len() == want.len() && strip(&secs[0]) == strip(&want), "sent {}, expected {} for {:?}", hex(&secs[0]), hex(&want), t);
    let f = &secs[0];
    if t.k == K::Tot { ensure!(num(&f[f.len() - 4 ..]) == crc(&f[.. f.len() - 4]) as u64, "wrong checksum in {}", hex(f)); }
    let p = complete(f.clone());
    let mut back = make(&blank(t.k));
    each!(&mut back, x => x.parse(&p));
    let mut w = t.clone();
    w.ds = parsed(&t.ds);
    equal(&back, &w, "read back").map_err(wrap)
}

fn times(s: &mut Src) -> R {
    let k = s.pick(&[K::Tdt, K::Tot]);
    let n = header(s, k);
    let mut ds = vec![];
    if k == K::Tot { ds = match s.below(4) { 0 => any_list(s, 4084, 20), 1 => item(s, K::Pmt, 4089, 0).ds, _ => any_list(s, 200, 3) }; }
    let m = s.below(5);
    let before = s.blob(m);
    clock(&T { k, n, ds, items: vec![] }, s.range(0, 8191) as u16, s.flat(0, 15) as u8, &before)
}

/// every second of some days, every day
fn times_all() -> Result<u64, String> {
    let mut n = 0;
    let mut one = |k: K, at: u64| { n += 1; clock(&T { k, n: vec![at], ds: vec![], items: vec![] }, 0x14, (at % 16) as u8, &[]) };
    for k in [K::Tdt, K::Tot] {
        for day in [0u64, 1, 11016, 24855, 24948] { for sec in 0 .. 86400 { one(k, day * 86400 + sec)?; } }
        for day in 0 .. 24949u64 { for sec in [0, 86399, day % 86400] { one(k, day * 86400 + sec)?; } }
    }
    Ok(n)
}

/// any bytes for a reader: well formed, mangled, short, long, wrong checksum, wrong id
fn raw_section(s: &mut Src, k: K) -> Psi {
    let mut f = match s.below(8) {
        0 => { let n = 1 + s.below(60); s.blob(n) }
        1 => { let n = s.range(1, 4200) as usize; s.blob(n) }
        2 if k == K::Tdt || k == K::Tot => { let n = header(s, k); let ds = any_list(s, 200, 3); time_section(&T { k, n, ds, items: vec![] }) }
        _ => {
            let mut f = s.bytes(head_len(k));
            if k != K::Tdt {
                let l = any_loop(s);
                if k == K::Pmt || k == K::Nit || k == K::Tot {
                    let n = head_len(k);
                    let announced = if s.chance(4) { s.range(0, l.len() as u64 + 8) } else { l.len() as u64 };
                    f[n - 2] = (f[n - 2] & 0xF0) | (announced >> 8) as u8;
                    f[n - 1] = announced as u8;
                    if announced < 4096 { f.extend(l); }
                    if k == K::Nit { f.extend(s.bytes(2)); }
                }
                let count = if k == K::Tot { 0 } else { s.below(6) };
                for _ in 0 .. count {
                    let mut e = s.bytes(item_len(k));
                    if k != K::Pat {
                        let l = any_loop(s);
                        let n = e.len();
                        let announced = if s.chance(6) { s.range(0, l.len() as u64 + 12) } else { l.len() as u64 };
                        e[n - 2] = (e[n - 2] & 0xF0) | (announced >> 8) as u8;
                        e[n - 1] = announced as u8;
                        e.extend(l);
                    }
                    f.extend(e);
                }
                if s.chance(3) { let n = s.below(12); f.extend(s.blob(n)); }
                if s.chance(5) { let n = s.below(f.len()) + 1; f.truncate(n); }
                f.extend([0; 4]);
            }
            f
        }
    };
    let n = f.len();
    if !s.chance(12) {
        f[0] = match k { K::Pat => 0, K::Pmt => 2, K::Nit => s.pick(&[0x40, 0x41]), K::Sdt => s.pick(&[0x42, 0x46]), K::Eit => s.range(0x4E, 0x6F) as u8, K::Tdt => 0x70, K::Tot => 0x73 };
    } else { f[0] = match s.below(3) { 0 => s.u8(), 1 => f[0] ^ (1 << s.below(8)), _ => s.range(0x3E, 0x74) as u8 }; }
    if n >= 3 && s.bool() { f[1] = (f[1] & 0xF0) | ((n - 3) >> 8) as u8 & 15; f[2] = (n - 3) as u8; }
    let size = match s.below(12) { 0 => s.range(0, n as u64 + 3) as usize, 1 => s.below(24), _ => n };
    if !s.chance(8) && size >= 4 && size <= n { let c = crc(&f[.. size - 4]); f[size - 4 .. size].copy_from_slice(&c.to_be_bytes()); }
    else if s.bool() && n > 0 { let i = s.below(n); f[i] ^= 1 << s.below(8); }
    let mut p = complete(f);
    p.size = size;
    p
}

fn reading(s: &mut Src) -> R {
    let k = s.pick(ALL);
    let mut t = if s.bool() { blank(k) } else if k == K::Tdt || k == K::Tot { let n = header(s, k); T { k, n, ds: if k == K::Tot { any_list(s, 60, 2) } else { vec![] }, items: vec![] } } else { table(s, k) };
    if t.items.len() > 30 { t.items.truncate(30); }
    let mut o = make(&t);
    let count = 1 + s.below(3);
    for _ in 0 .. count {
        let p = raw_section(s, k);
        apply(&mut t, p.size, &p.buffer);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| each!(&mut o, x => x.parse(&p))));
        ensure!(r.is_ok(), "{:?}: reading size {} of {} panics", k, p.size, cut(hex(&p.buffer)));
        equal(&o, &t, &format!("after reading size {} of {}", p.size, hex(&p.buffer))).map_err(cut)?;
        // a table made from the section alone
        let mut alone = blank(k);
        apply(&mut alone, p.size, &p.buffer);
        let fresh = match k {
            K::Pat => Obj::Pat(Pat::from(&p)), K::Pmt => Obj::Pmt(Pmt::from(&p)), K::Nit => Obj::Nit(Nit::from(&p)), K::Sdt => Obj::Sdt(Sdt::from(&p)),
            K::Eit => Obj::Eit(Eit::from(&p)), K::Tdt => Obj::Tdt(Tdt::from(&p)), K::Tot => Obj::Tot(Tot::from(&p)),
        };
        equal(&fresh, &alone, &format!("made from size {} of {}", p.size, hex(&p.buffer))).map_err(cut)?;
    }
    Ok(())
}

/// every table id and every size
fn reading_all() -> Result<u64, String> {
    let mut n = 0;
    for &k in ALL {
        for id in 0 ..= 255u8 {
            for size in 0 .. 40usize {
                for fill in [0u8, 0xFF, 1, 0x82] {
                    let mut b = vec![fill; size.max(1)];
                    b[0] = id;
                    if size >= 4 { let c = crc(&b[.. size - 4]); b[size - 4 .. size].copy_from_slice(&c.to_be_bytes()); }
                    if size < 5 { b[0] = id; }
                    let mut p = complete(b);
                    p.size = size;
                    let mut t = blank(k);
                    let mut o = make(&t);
                    apply(&mut t, p.size, &p.buffer);
                    each!(&mut o, x => x.parse(&p));
                    equal(&o, &t, &format!("after reading {}", hex(&p.buffer)))?;
                    n += 1;
                }
            }
        }
    }
    Ok(n)
}

fn kind(ty: u8, tags: &[u8]) -> StreamType {
    use StreamType::*;
    match ty {
        0x01 | 0x02 | 0x10 | 0x1B | 0x24 => VIDEO,
        0x03 | 0x04 | 0x0F | 0x11 => AUDIO,
        0x05 => if tags.contains(&0x6F) { AIT } else { DATA },
        0x06 => {
            for t in tags { match t { 0x56 => return TTX, 0x59 => return SUB, 0x6A | 0x7A | 0x81 => return AUDIO, _ => {} } }
            DATA
        }
        _ => DATA,
    }
}

fn kinds(s: &mut Src) -> R {
    let mut i = PmtItem::default();
    i.stream_type = if s.chance(3) { s.u8() } else { s.flat(5, 6) as u8 };
    i.pid = s.range(0, 8191) as u16;
    let count = s.below(6);
    let tags: Vec<u8> = (0 .. count).map(|_| if s.bool() { s.u8() } else { s.pick(&[0x56, 0x59, 0x6A, 0x7A, 0x81, 0x6F, 0x05, 0x0A]) }).collect();
    for t in &tags {
        let n = s.below(8);
        let d = s.blob(n);
        let mut b = vec![*t, n as u8];
        b.extend(d);
        i.descriptors.parse(&b);
    }
    let got = i.get_stream_type();
    ensure!(got == kind(i.stream_type, &tags), "type {:#x} with descriptors {} is {:?}", i.stream_type, hex(&tags), got);
    Ok(())
}

/// every type with every pair of tags
fn kinds_all() -> Result<u64, String> {
    let mut n = 0;
    for ty in 0 ..= 255u8 {
        for a in 0 ..= 255u8 {
            let second: &[u8] = if ty == 5 || ty == 6 { &[0x56, 0x59, 0x6A, 0x7A, 0x81, 0x6F, 0x05, 0x0A, 0x00, 0xFF] } else { &[0x56] };
            for &b in second {
                for swap in [false, true] {
                    let tags = if swap { [b, a] } else { [a, b] };
                    let mut i = PmtItem::default();
                    i.stream_type = ty;
                    i.descriptors.parse(&[tags[0], 0, tags[1], 0]);
                    let got = i.get_stream_type();
                    ensure!(got == kind(ty, &tags), "type {:#x} with descriptors {} is {:?}", ty, hex(&tags), got);
                    n += 1;
                }
            }
        }
        let mut i = PmtItem::default();
        i.stream_type = ty;
        ensure!(i.get_stream_type() == kind(ty, &[]), "type {:#x} without descriptors is {:?}", ty, i.get_stream_type());
    }
    Ok(n)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C05", cases: vec![Case { name: "reading", weight: 50, run: reading }], sweeps: vec![Sweep { name: "reading_all", run: reading_all }], known: None },
        Prop { id: "C08", cases: vec![Case { name: "programs", weight: 20, run: programs }],
            sweeps: vec![Sweep { name: "pat_all", run: pat_all }, Sweep { name: "pmt_sizes", run: pmt_sizes }], known: None },
        Prop { id: "C09", cases: vec![Case { name: "networks", weight: 20, run: networks }],
            sweeps: vec![Sweep { name: "nit_sizes", run: nit_sizes }, Sweep { name: "sdt_sizes", run: sdt_sizes }], known: None },
        Prop { id: "C10", cases: vec![Case { name: "events", weight: 20, run: events }], sweeps: vec![Sweep { name: "schedule_all", run: schedule_all }], known: None },
        Prop { id: "C11", cases: vec![Case { name: "times", weight: 50, run: times }], sweeps: vec![Sweep { name: "times_all", run: times_all }], known: None },
        Prop { id: "C21", cases: vec![Case { name: "kinds", weight: 50, run: kinds }], sweeps: vec![Sweep { name: "kinds_all", run: kinds_all }], known: None },
    ]
}
