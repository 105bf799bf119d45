import json,subprocess
S=[]
def seed(sid,prop,edits,needs,what,demo):
    S.append((sid,prop,dict(edits=[dict(file=f,old=o,new=n) for f,o,n in edits],needs=needs,what=what,demo=demo)))
seed('pid-drops-error-bit','C13',[('src/ts/mod.rs','ts[1] = (ts[1] & 0xE0) | ((pid >> 8) as u8);','ts[1] = (ts[1] & 0x60) | ((pid >> 8) as u8);')],
 'set_pid on a packet whose transport_error_indicator is set','set_pid clears the transport error bit of the packet',
 '''fn main() {
    let mut p = vec![0x47u8, 0xC1, 0x00, 0x10];
    mpegts::ts::set_pid(&mut p, 0x1234);
    assert!(mpegts::ts::is_error(&p));
    assert_eq!(mpegts::ts::get_pid(&p), 0x1234);
}
''')
seed('pcr-base-32bit','C14',[('src/ts/pcr.rs','    packet[6] = ((pcr_base >> 25) & 0xFF) as u8;','    packet[6] = ((pcr_base >> 25) & 0x7F) as u8;')],
 'a PCR of 2^32 * 300 or more (13.25 hours of stream clock)','set_pcr loses the 33rd bit of the base',
 '''fn main() {
    let mut p = vec![0u8; 188];
    let v = (1u64 << 32) * 300 + 7;
    mpegts::ts::set_pcr(&mut p, v);
    assert_eq!(mpegts::ts::get_pcr(&p), v);
}
''')
seed('jitter-early-limit','C15',[('src/ts/pcr.rs','    if result > PCR_SYSTEM_CLOCK as i64 {','    if result > PCR_CLOCK_MS as i64 * 100 {')],
 'a PCR more than 100 ms ahead of the STC','jitter between 100 ms and 1 s is reported as minus a whole cycle',
 """fn main() {
    assert_eq!(mpegts::ts::pcr_jitter_ns(10_000_000 + 13_500_000, 10_000_000), 500_000_000);
}
""")
seed('pes-dsmcc-header','C16',[('src/es/pes.rs','        0xF2 => false,  // DSMCC_stream\n','')],
 'a PES packet with stream id 0xF2','a DSM-CC stream is treated as having the optional header: wrong payload offset',
 '''fn main() {
    let p = [0u8, 0, 1, 0xF2, 0, 10, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1, 0, 0, 0, 0, 0];
    assert!(!mpegts::es::pes::is_syntax_spec(&p));
    assert_eq!(mpegts::es::pes::get_payload_offset(&p), 6);
}
''')
seed('mjd-2038','C12',[('src/psi/utils/mjd.rs','(self / 86400 + 40587) as u16','(self as i32 / 86400 + 40587) as u16')],
 'a time after 2038-01-19 03:14:07','the date is computed in 32 signed bits: days before 1970 from 2038-01-19 on',
 """fn main() {
    use mpegts::psi::{MJDTo, MJDFrom};
    let t = 2_155_507_200u64;
    assert_eq!(t.to_mjd().from_mjd(), t);
}
""")

seed('packet-count-border','C01',[('src/psi/mod.rs','let ts_count = (self.size + 1 + 183) / 184;','let ts_count = (self.size + 183) / 184;')],
 'a section whose length is a multiple of 184','one packet too few is reserved for the pointer byte: demux runs past the output',
 """fn main() {
    let mut psi = mpegts::psi::Psi::default();
    psi.buffer = vec![0x42u8; 184 * 2];
    psi.buffer[1] = 0xB1;
    psi.buffer[2] = 0x6D;
    psi.size = 184 * 2;
    psi.pid = 100;
    let mut out = Vec::new();
    psi.demux(&mut out);
    assert_eq!(out.len(), 188 * 3);
}
""")
seed('clear-keeps-size','C02',[('src/psi/mod.rs','        self.buffer.clear();\n        self.size = 0;','        self.buffer.clear();')],
 'a discarded section followed by the start of a shorter or longer one','the length of the discarded section stays recorded without any retained byte',
 """fn main() {
    let mut p = vec![0xFFu8; 188];
    p[0] = 0x47; p[1] = 0x40; p[2] = 0x11; p[3] = 0x10; p[4] = 0;
    p[5] = 0x42; p[6] = 0xB1; p[7] = 0x00;
    let mut psi = mpegts::psi::Psi::default();
    psi.mux(&p);
    // a continuation after a gap
    p[1] = 0; p[3] = 0x15;
    psi.mux(&p);
    assert_eq!(psi.buffer.len(), 0);
    assert_eq!(psi.size, 0);
}
""")
seed('length-mask','C03',[('src/psi/mod.rs','self.size = 3 + (self.buffer[1..].get_u16() & 0x0FFF) as usize;','self.size = 3 + (self.buffer[1..].get_u16() & 0x07FF) as usize;')],
 'a section of more than 2050 bytes','the section is cut after the length modulo 2048',
 """fn main() {
    let mut s = vec![0x5Au8; 3000];
    s[1] = 0xF0 | (2997u16 >> 8) as u8;
    s[2] = (2997u16 & 255) as u8;
    let mut a = mpegts::psi::Psi::default();
    a.buffer = s.clone();
    a.size = s.len();
    a.pid = 18;
    let mut out = Vec::new();
    a.demux(&mut out);
    let mut b = mpegts::psi::Psi::default();
    for p in out.chunks(188) { b.mux(p); }
    assert_eq!(b.size, 3000);
    assert!(b.buffer[.. 3000] == s[..]);
}
""")
seed('check-seven-bytes','C04',[('src/psi/mod.rs','        self.size > 7 &&\n','        self.size >= 7 &&\n')],
 'a section of exactly seven bytes','a section without any body passes validation',
 """fn main() {
    let mut psi = mpegts::psi::Psi::new(0x70, 3, 0);
    psi.finalize();
    assert_eq!(psi.size, 7);
    assert!(!psi.check());
}
""")
seed('baltic-polish-l','C19',[('src/textcode/data.rs','0x0173, 0x0142, 0x015b, 0x016b, 0x00fc, 0x017c, 0x017e, 0x2019,','0x0173, 0x0141, 0x015b, 0x016b, 0x00fc, 0x017c, 0x017e, 0x2019,')],
 'a small l with stroke in ISO 8859-13','the code 0xF9 of ISO 8859-13 is shown as the capital letter',
 """fn main() {
    use mpegts::textcode::{StringDVB, ISO8859_13};
    assert_eq!(StringDVB::from_str("\\u{142}", ISO8859_13).to_string(), "\\u{142}");
}
""")
seed('nbsp-left-out','C19',[('src/textcode/mod.rs','} else if c >= 0x00A0 {\n                        if let','} else if c > 0x00A0 {\n                        if let')],
 'a no-break space in text for a codepage','the no-break space is left out',
 """fn main() {
    use mpegts::textcode::{StringDVB, ISO8859_5};
    assert_eq!(StringDVB::from_str("a\\u{A0}b", ISO8859_5).to_string(), "a\\u{A0}b");
}
""")
seed('split-forgets-prefix','C20',[('src/textcode/mod.rs','            _ => size - 3,\n','            _ => size - 1,\n')],
 'text in ISO 8859-1 to 8859-4 longer than the limit','the parts are up to two bytes larger than the limit',
 """fn main() {
    use mpegts::textcode::{StringDVB, ISO8859_2};
    let s = StringDVB::from_str(&"x".repeat(300), ISO8859_2);
    for p in s.split(100) { assert!(p.size() <= 100); }
}
""")
seed('size-of-codepage-4','C20',[('src/textcode/mod.rs','        } else if self.codepage <= ISO8859_4 {\n            3 + self.data.len()','        } else if self.codepage < ISO8859_4 {\n            3 + self.data.len()')],
 'text in ISO 8859-4','the announced size is two bytes less than what is appended',
 """fn main() {
    use mpegts::textcode::{StringDVB, ISO8859_4};
    let s = StringDVB::from_str("x", ISO8859_4);
    let mut out = Vec::new();
    s.assemble(&mut out);
    assert_eq!(s.size(), out.len());
}
""")
seed('loop-last-empty','C06',[('src/psi/descriptors/mod.rs','        while slice.len() >= skip + 2 {','        while slice.len() > skip + 2 {')],
 'a descriptor without data at the end of the loop','the last descriptor of a loop is lost when it has no data',
 """fn main() {
    let mut l = mpegts::psi::Descriptors::default();
    l.parse(&[0x52, 0x01, 0x07, 0x7F, 0x00]);
    assert_eq!(l.len(), 2);
}
""")
seed('lcn-nine-bits','C06',[('src/psi/descriptors/x83.rs','get_u16() & 0x03FF;','get_u16() & 0x01FF;')],
 'a logical channel number above 511','the upper bit of the logical channel number is lost',
 """fn main() {
    let mut l = mpegts::psi::Descriptors::default();
    l.parse(&[0x83, 0x04, 0x00, 0x01, 0xFF, 0x20]);
    assert_eq!(l.iter().next().unwrap().downcast_ref::<mpegts::psi::Desc83>().items[0].lcn, 0x320);
}
""")
seed('extended-event-full','C07',[('src/psi/descriptors/x4e.rs','        if size > 0xFF {','        if size >= 0xFF {')],
 'an extended event descriptor with exactly 255 bytes of data','a completely filled extended event descriptor is left out',
 """fn main() {
    use mpegts::{psi::{Descriptors, Desc4E}, textcode::{StringDVB, ISO6937}};
    let mut l = Descriptors::default();
    l.push(Desc4E {
        number: 0, last_number: 0,
        lang: StringDVB::from_str("eng", ISO6937),
        items: Vec::new(),
        text: StringDVB::from_str(&"x".repeat(249), ISO6937),
    });
    let mut out = Vec::new();
    l.assemble(&mut out);
    assert_eq!(out.len(), 257);
}
""")
seed('terrestrial-swapped-flags','C07',[('src/psi/descriptors/x5a.rs','            self.time_slicing, 1,\n            self.mpe_fec, 1,','            self.mpe_fec, 1,\n            self.time_slicing, 1,')],
 'a terrestrial delivery descriptor whose time slicing and MPE-FEC flags differ','the two flags change places',
 """fn main() {
    use mpegts::psi::{Descriptors, Desc5A};
    let mut a = Descriptors::default();
    a.push(Desc5A {
        frequency: 500_000_000, bandwidth: 1, priority: 1, time_slicing: 0, mpe_fec: 1, modulation: 2, hierarchy: 1,
        code_rate_hp: 2, code_rate_lp: 3, guard_interval: 1, transmission: 1, other_frequency_flag: 0,
    });
    let mut out = Vec::new();
    a.assemble(&mut out);
    assert_eq!(out[6], 0b0011_0111);
}
""")
seed('clone-without-83','C23',[('src/psi/descriptors/mod.rs','            0x83 => self.downcast_ref::<Desc83>().clone().into(),\n','')],
 'a logical channel descriptor in the copied list','copying it panics',
 """fn main() {
    let mut l = mpegts::psi::Descriptors::default();
    l.parse(&[0x83, 0x04, 0x00, 0x01, 0xFC, 0x20]);
    assert_eq!(l.clone().len(), 1);
}
""")
seed('compare-checksum-only','C23',[('src/psi/mod.rs','        self.size == other.size && self.get_crc32() == other.get_crc32()','        self.get_crc32() == other.get_crc32()')],
 'two sections of different length with the same stored checksum','they compare equal',
 """fn main() {
    let mut a = mpegts::psi::Psi::default();
    a.buffer = vec![0; 12];
    a.size = 12;
    let mut b = a.clone();
    b.size = 10;
    assert!(b != a);
}
""")
seed('reader-cut-packet','C17',[('src/reader/mod.rs','&mut packet[skip .. ts::PACKET_SIZE])?;\n            if x == 0 {\n                return Ok(0)\n            }','&mut packet[skip .. ts::PACKET_SIZE])?;\n            if x == 0 {\n                break;\n            }')],
 'a source that ends in the middle of a packet','the rest of the last packet is made up from the old contents of the buffer',
 """use mpegts::reader::{TsRead, TsReader};
fn main() {
    let mut r = TsReader::new(std::io::Cursor::new(vec![0x47u8; 300]));
    let mut b = [0u8; 188];
    assert_eq!(r.read(&mut b).unwrap(), 188);
    assert_eq!(r.read(&mut b).unwrap(), 0);
}
""")
seed('reader-sync-later','C17',[('src/reader/mod.rs','            skip += x;','            skip += x;\n            if x < 4 && skip < ts::PACKET_SIZE && packet[skip - 1] == 0x47 && packet[skip] == 0x47 {\n                packet[0] = packet[skip - 1];\n                skip = 1;\n            }')],
 'reads of one to three bytes that end in a sync byte while the buffer still holds an old sync byte behind it','a packet is started again in its middle',
 """use mpegts::reader::{TsRead, TsReader};
use std::io::Read;
#[derive(Debug)]
struct One(Vec<u8>, usize);
impl Read for One {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == self.0.len() || b.is_empty() { return Ok(0); }
        b[0] = self.0[self.1];
        self.1 += 1;
        Ok(1)
    }
}
fn main() {
    let mut d = vec![0u8; 376];
    for i in 0 .. 376 { d[i] = i as u8; }
    d[0] = 0x47;
    d[188] = 0x47;
    let mut r = TsReader::new(One(d.clone(), 0));
    let mut b = [0x47u8; 188];
    assert_eq!(r.read(&mut b).unwrap(), 188);
    assert_eq!(b[..], d[.. 188]);
}
""")
seed('drain-large-first','C18',[('src/reader/drain.rs','        if self.pos == 0 {\n            if buf.len() >= ts::PACKET_SIZE {\n                return self.inner.read(buf);\n            }\n\n','        if buf.len() >= ts::PACKET_SIZE {\n            return self.inner.read(buf);\n        }\n\n        if self.pos == 0 {\n')],
 'a buffer of a packet or more after part of a packet was read','the next packet comes before the rest of the one at hand',
 """use mpegts::reader::{TsDrain, TsReader};
use std::io::Read;
fn main() {
    let mut d = vec![0u8; 376];
    for i in 0 .. 376 { d[i] = (i % 188) as u8; }
    d[0] = 0x47;
    d[188] = 0x47;
    let mut r = TsDrain::new(TsReader::new(std::io::Cursor::new(d)));
    let mut b = [0u8; 400];
    assert_eq!(r.read(&mut b[.. 10]).unwrap(), 10);
    r.read(&mut b).unwrap();
    assert_eq!(b[0], 10);
}
""")
seed('drain-last-byte','C18',[('src/reader/drain.rs','        self.pos = (self.pos + x) % ts::PACKET_SIZE;','        self.pos += x;\n        if self.pos + 1 >= ts::PACKET_SIZE && buf.len() > 1 {\n            self.pos = 0;\n        }\n        self.pos %= ts::PACKET_SIZE;')],
 'a read of more than one byte that leaves exactly one byte of the packet','the last byte of the packet is lost',
 """use mpegts::reader::{TsDrain, TsReader};
use std::io::Read;
fn main() {
    let mut d = vec![7u8; 376];
    d[0] = 0x47;
    d[187] = 9;
    d[188] = 0x47;
    let mut r = TsDrain::new(TsReader::new(std::io::Cursor::new(d)));
    let mut b = [0u8; 187];
    assert_eq!(r.read(&mut b).unwrap(), 187);
    assert_eq!(r.read(&mut b[.. 1]).unwrap(), 1);
    assert_eq!(b[0], 9);
}
""")
seed('drain-fault-is-end','C18',[('src/reader/drain.rs','            let x = self.inner.read(&mut self.buf)?;','            let x = self.inner.read(&mut self.buf).unwrap_or(0);')],
 'an error of the source while reading with a buffer smaller than a packet','the error is reported as the end of the stream',
 """use mpegts::reader::{TsDrain, TsRead};
use std::io::{self, Read};
#[derive(Debug)]
struct Bad;
impl TsRead for Bad {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, "bad")) }
}
fn main() {
    assert!(TsDrain::new(Bad).read(&mut [0u8; 10]).is_err());
}
""")
seed('macedonian-codes','C22',[('src/textcode/lang.rs','("mk", "mkd", "mac", "Macedonian")','("mk", "mac", "mkd", "Macedonian")')],
 'the code mk','it converts to the terminological code',
 """fn main() { assert_eq!(mpegts::textcode::lang::convert("mk"), Some("mac")); }
""")
seed('slovak-slovenian','C22',[('src/textcode/lang.rs','("sl", "slv", "slv", "Slovene")','("sl", "slv", "slo", "Slovene")')],
 'the code sl','Slovenian gets the code of Slovak',
 """fn main() { assert_eq!(mpegts::textcode::lang::convert("sl"), Some("slv")); }
""")
seed('bibliographic-only','C22',[('src/textcode/lang.rs','            if item.iso639_2t == code || item.iso639_2b == code {','            if item.iso639_2b == code {')],
 'a terminological code of a language that has two, such as deu','nothing is found',
 """fn main() { assert_eq!(mpegts::textcode::lang::convert("fas"), Some("fa")); }
""")

seed('counter-skips-zero','C01',[('src/psi/mod.rs','            self.cc = (self.cc + 1) & 0x0F;\n','            self.cc = if self.cc < 15 { self.cc + 1 } else { 1 };\n')],
 'a section that crosses counter 15','the continuity counter goes from 15 to 1',
 '''fn main() {
    let mut psi = mpegts::psi::Psi::default();
    psi.buffer = vec![0x42u8; 500];
    psi.buffer[1] = 0xB1;
    psi.buffer[2] = 0xF1;
    psi.size = 500;
    psi.pid = 100;
    psi.cc = 14;
    let mut out = Vec::new();
    psi.demux(&mut out);
    let cc: Vec<u8> = out.chunks(188).map(|p| mpegts::ts::get_cc(p)).collect();
    assert_eq!(cc, vec![14, 15, 0]);
    assert_eq!(psi.cc, 1);
}
''')
seed('short-head-restart','C03',[('src/psi/mod.rs','            if self.buffer.is_empty() {\n                self.push(&ts[ts_offset + pointer_field .. 188]);','            if self.buffer.len() < 3 {\n                self.push(&ts[ts_offset + pointer_field .. 188]);')],
 'one or two bytes of a section at the end of a packet, the rest of it and the next start in the following packet','the two bytes are put before the next section',
 '''fn main() {
    let a: Vec<u8> = { let mut a = vec![0x11u8; 60]; a[0] = 0x42; a[1] = 0xF0; a[2] = 57; a };
    let mut p = vec![0xFFu8; 188];
    p[0] = 0x47; p[1] = 0x40; p[2] = 0x11; p[3] = 0x10;
    p[4] = 181;
    p[186] = a[0]; p[187] = a[1];
    let mut q = vec![0xFFu8; 188];
    q[0] = 0x47; q[1] = 0x40; q[2] = 0x11; q[3] = 0x11;
    q[4] = 58;
    q[5 .. 63].copy_from_slice(&a[2 ..]);
    q[63] = 0x46; q[64] = 0xF1; q[65] = 0x00;
    let mut psi = mpegts::psi::Psi::default();
    psi.mux(&p);
    psi.mux(&q);
    assert_eq!(psi.size, 60);
    assert_eq!(&psi.buffer[.. 60], &a[..]);
}
''')
seed('finalize-sets-reserved','C04',[('src/psi/mod.rs','            let x = (u16::from(self.buffer[1] & 0xF0) << 8) | ((self.size - 3) as u16);','            let x = 0x3000 | (u16::from(self.buffer[1] & 0xC0) << 8) | ((self.size - 3) as u16);')],
 'a section whose reserved bits are not both set','finalize changes the two reserved bits beside the length',
 '''fn main() {
    let mut psi = mpegts::psi::Psi::default();
    psi.buffer = vec![0x80, 0x80, 0x00, 1, 2, 3, 4, 5];
    psi.finalize();
    assert_eq!(psi.buffer[1], 0x80);
    assert_eq!(psi.buffer[2], 9);
    assert!(psi.check());
}
''')
seed('offset-half-day','C12',[('src/psi/utils/bcd.rs','u8::to_bcd((self / 60 % 24) as u8)','u8::to_bcd((self / 60 % 13) as u8)')],
 'a time of 13 hours or more in minutes','the hours are wrong',
 '''fn main() {
    use mpegts::psi::BCDTime;
    assert_eq!(780u16.to_bcd_time(), 0x1300);
    assert_eq!(780u16.to_bcd_time().from_bcd_time(), 780);
}
''')
seed('scrambled-upper-bit','C13',[('src/ts/mod.rs','(ts[3] & 0xC0) != 0 }','(ts[3] & 0x80) != 0 }')],
 'scrambling control 01','a packet with scrambling control 01 is reported as clear',
 '''fn main() {
    let mut p = vec![0u8; 188];
    p[0] = 0x47;
    p[3] = 0x50;
    assert!(mpegts::ts::is_scrambled(&p));
    p[3] = 0x10;
    assert!(!mpegts::ts::is_scrambled(&p));
}
''')
seed('pcr-short-field','C14',[('src/ts/pcr.rs','get_adaptation_size(packet) >= 7 &&','get_adaptation_size(packet) > 0 &&')],
 'an adaptation field of one to six bytes with the PCR flag','payload bytes are taken for a PCR',
 '''fn main() {
    let mut p = vec![0u8; 188];
    p[0] = 0x47; p[3] = 0x30; p[4] = 6; p[5] = 0x10;
    assert!(!mpegts::ts::is_pcr(&p));
    p[4] = 7;
    assert!(mpegts::ts::is_pcr(&p));
}
''')
seed('jitter-whole-us','C15',[('src/ts/pcr.rs','    result * 1000 / PCR_CLOCK_US as i64\n','    result / PCR_CLOCK_US as i64 * 1000\n')],
 'a distance that is not a whole number of microseconds','the jitter is cut to microseconds',
 '''fn main() {
    assert_eq!(mpegts::ts::pcr_jitter_ns(1_000_040, 1_000_000), 1481);
}
''')
seed('dts-after-13-hours','C16',[('src/es/pes.rs','    (u64::from(packet[14] & 0x0E) << 29) |','    (u64::from(packet[14] & 0x06) << 29) |')],
 'a DTS of 2^32 or more','the 33rd bit of the DTS is lost',
 '''fn main() {
    let mut p = vec![0u8; 30];
    p[2] = 1; p[3] = 0xE0; p[6] = 0x80; p[7] = 0xC0; p[8] = 10;
    p[14] = 0x19; p[16] = 1; p[18] = 1;
    assert_eq!(mpegts::es::pes::get_dts(&p), 1 << 32);
}
''')
seed('eit-last-rising','C10',[('src/psi/eit.rs','            if psi.buffer[0] != current_table_id {','            if psi.buffer[0] > current_table_id {')],
 'a schedule over more than four days, so that several table ids are in use','the lower table ids announce the last section number of the highest one',
 """use mpegts::psi::*;
fn main() {
    let mut eit = Eit::default();
    eit.table_id = 0x50; eit.version = 1; eit.pnr = 7;
    let day = 1_599_955_200u64;
    for i in 0 .. 41u64 {
        eit.items.push(EitItem { event_id: i as u16, start: day + i * 10800, duration: 60, ..EitItem::default() });
    }
    let list = eit.psi_list_assemble();
    for a in &list {
        let last = list.iter().filter(|b| b.buffer[0] == a.buffer[0]).map(|b| b.buffer[6]).max().unwrap();
        assert_eq!(a.buffer[7], last);
    }
}
""")
seed('lang-binary-search','C22',[('src/textcode/lang.rs','        2 => for item in LANG_LIST.iter() {\n            if item.iso639_1 == code {\n                return Some(item.iso639_2b);\n            }\n        },\n',
 '        2 => if let Ok(n) = LANG_LIST.binary_search_by(|x| x.iso639_1.cmp(code)) {\n            return Some(LANG_LIST[n].iso639_2b);\n        },\n')],
 'a two-letter code that the search misses because the list is not quite sorted by it','some languages of the list are not found any more',
 """fn main() {
    for code in ["gd", "es", "bo", "cy", "fy", "en", "zu"].iter() {
        assert!(mpegts::textcode::lang::convert(code).is_some());
    }
}
""")
seed('reader-limited-reads','C17',[('src/reader/mod.rs','        while skip != ts::PACKET_SIZE {\n            let x = self.inner.read(&mut packet[skip .. ts::PACKET_SIZE])?;\n            if x == 0 {\n                return Ok(0)\n            }\n            skip += x;\n        }\n',
 '        for _ in 0 .. 64 {\n            let x = self.inner.read(&mut packet[skip .. ts::PACKET_SIZE])?;\n            if x == 0 {\n                return Ok(0)\n            }\n            skip += x;\n            if skip == ts::PACKET_SIZE {\n                break;\n            }\n        }\n')],
 'a source that delivers a packet in more than 64 pieces','an incomplete packet is returned as a whole one',
 """use mpegts::reader::*;
use std::io::Read;
#[derive(Debug)]
struct Slow(Vec<u8>, usize);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == self.0.len() || b.is_empty() { return Ok(0); }
        b[0] = self.0[self.1];
        self.1 += 1;
        Ok(1)
    }
}
fn main() {
    let mut data: Vec<u8> = (0 .. 188).map(|x| x as u8 | 0x80).collect();
    data[0] = 0x47;
    let mut r = TsReader::new(Slow(data.clone(), 0));
    let mut p = vec![0u8; 188];
    assert_eq!(r.read(&mut p).unwrap(), 188);
    assert_eq!(p, data);
}
""")
seed('psi-256-sections','C08',[('src/psi/mod.rs','        for (section_number, psi) in psi_list.iter_mut().enumerate() {\n            psi.buffer[6] = section_number as u8;\n',
 '        for (section_number, psi) in (0 .. last_section_number.saturating_add(1)).zip(psi_list.iter_mut()) {\n            psi.buffer[6] = section_number;\n')],
 'a table of exactly 256 sections','the last section is not sent',
 """use mpegts::psi::*;
fn main() {
    let mut pat = Pat::default();
    for i in 0 .. 253 * 256u32 { pat.items.push(PatItem { pnr: i as u16, pid: 100 }); }
    let n = pat.psi_list_assemble().len();
    let mut cc = 0;
    let mut ts = Vec::new();
    pat.demux(0, &mut cc, &mut ts);
    let starts = ts.chunks(188).filter(|p| p[1] & 0x40 != 0).count();
    assert_eq!(starts, n);
}
""")
seed('bitrate-longer-group','C06',[('src/psi/descriptors/x0e.rs','        slice.len() == MIN_SIZE\n','        slice.len() >= MIN_SIZE\n')],
 'a maximum bitrate descriptor with bytes after the three of its field','the group is decoded and the further bytes are lost instead of being kept',
 """use mpegts::psi::*;
fn main() {
    let b = [0x0Eu8, 5, 0xC0, 1, 2, 3, 4];
    let mut d = Descriptors::default();
    d.parse(&b);
    let mut out = Vec::new();
    d.assemble(&mut out);
    assert_eq!(out, b);
}
""")
seed('length-clamped','C02',[('src/psi/mod.rs','            self.size = 3 + (self.buffer[1..].get_u16() & 0x0FFF) as usize;','            self.size = 3 + std::cmp::min(self.buffer[1..].get_u16() & 0x0FFF, 4093) as usize;')],
 'a header that announces more than 4093 bytes, which no valid section does','a length other than the announced one is recorded',
 """fn main() {
    let mut psi = mpegts::psi::Psi::default();
    let mut p = vec![0u8; 188];
    p[0] = 0x47; p[1] = 0x40; p[2] = 0x11; p[3] = 0x10; p[4] = 0;
    p[5] = 0x80; p[6] = 0xBF; p[7] = 0xFE;
    psi.mux(&p);
    assert_eq!(psi.size, 3 + 0xFFE);
}
""")
seed('duplicate-dropped','C03',[('src/psi/mod.rs','''        let cc = ts::get_cc(ts);

        if ts::is_pusi(ts) {
''','''        let cc = ts::get_cc(ts);

        // duplicate packet
        if cc == self.cc && ! self.buffer.is_empty() {
            return;
        }

        if ts::is_pusi(ts) {
''')],
 'a section start after exactly 15 lost packets','a packet with the counter of the last one is taken for its copy, the new section is lost',
 '''fn main() {
    let mut psi = mpegts::psi::Psi::default();
    let mut p = vec![0xFFu8; 188];
    p[.. 8].copy_from_slice(&[0x47, 0x40, 0x11, 0x17, 0, 0x42, 0xF1, 0x00]);
    psi.mux(&p);
    assert_eq!(psi.size, 3 + 256);
    p[.. 9].copy_from_slice(&[0x47, 0x40, 0x11, 0x17, 0, 0x46, 0xF0, 0x05, 0xAA]);
    psi.mux(&p);
    assert_eq!(psi.size, 8);
    assert_eq!(psi.buffer[0], 0x46);
}
''')
seed('drain-several-packets','C18',[('src/reader/drain.rs','''                return self.inner.read(buf);
''','''                let mut skip = 0;
                while buf.len() - skip >= ts::PACKET_SIZE {
                    let x = self.inner.read(&mut buf[skip ..])?;
                    if x == 0 {
                        break;
                    }
                    skip += x;
                }
                return Ok(skip);
''')],
 'a buffer for two packets and a fault of the inner reader after the first','the packet that was read before the fault is lost',
 '''use std::io::{Error, Read, Result};
use mpegts::reader::{TsDrain, TsRead};
#[derive(Debug)]
struct Inner(u32);
impl TsRead for Inner {
    fn read(&mut self, packet: &mut [u8]) -> Result<usize> {
        self.0 += 1;
        if self.0 == 2 { return Err(Error::from_raw_os_error(5)); }
        if self.0 > 3 { return Ok(0); }
        for x in packet[.. 188].iter_mut() { *x = self.0 as u8; }
        Ok(188)
    }
}
fn main() {
    let mut drain = TsDrain::new(Inner(0));
    let mut got = Vec::new();
    let mut buf = vec![0u8; 400];
    for _ in 0 .. 10 {
        if let Ok(n) = drain.read(&mut buf) { got.extend_from_slice(&buf[.. n]); }
    }
    let mut want = vec![1u8; 188];
    want.extend(vec![3u8; 188]);
    assert_eq!(got, want);
}
''')
seed('pmt-entry-ten-bits','C05',[('src/psi/pmt.rs','''            let item_len = 5 + (ptr[skip + 3 ..].get_u16() & 0x0FFF) as usize;
''','''            let item_len = 5 + (ptr[skip + 3 ..].get_u16() & 0x03FF) as usize;
''')],
 'a program element that announces 1024 bytes of descriptors or more','the entry does not fit the section but is taken with a shorter length',
 '''fn main() {
    let mut psi = mpegts::psi::Psi::default();
    psi.buffer = vec![2, 0xB0, 0, 0, 1, 0xC1, 0, 0, 0xE1, 0, 0xF0, 0, 0x1B, 0xE1, 0, 0xF4, 0];
    psi.finalize();
    let pmt = mpegts::psi::Pmt::from(&psi);
    assert_eq!(pmt.pcr, 0x100);
    assert_eq!(pmt.items.len(), 0);
}
''')
seed('loop-stops-at-fill','C06',[('src/psi/descriptors/mod.rs','''            if next > slice.len() {
''','''            if next > slice.len() || slice[skip .. next].iter().all(|&x| x == 0xFF) {
''')],
 'a descriptor of tag 0xFF with 255 data bytes 0xFF','the descriptor is taken for stuffing, it and all after it are lost',
 '''fn main() {
    let mut list = mpegts::psi::Descriptors::default();
    let mut data = vec![0xFFu8; 257];
    data.extend_from_slice(&[0x52, 1, 7]);
    list.parse(&data);
    assert_eq!(list.len(), 2);
    let mut out = Vec::new();
    list.assemble(&mut out);
    assert_eq!(out, data);
}
''')
seed('jitter-floor','C15',[('src/ts/pcr.rs','    result * 1000 / PCR_CLOCK_US as i64\n','    (result * 1000).div_euclid(PCR_CLOCK_US as i64)\n')],
 'a negative distance that is not a whole number of nanoseconds','the jitter is rounded down, not toward zero',
 '''fn main() {
    assert_eq!(mpegts::ts::pcr_jitter_ns(1_000_000, 1_000_040), -1481);
    assert_eq!(mpegts::ts::pcr_jitter_ns(1_000_040, 1_000_000), 1481);
}
''')
import sys
for sid,prop,spec in S:
    if len(sys.argv)>1 and sid not in sys.argv[1:]: continue
    json.dump(spec,open('/tmp/seed.json','w'))
    subprocess.call(['python3','/verif/tools/seed.py',sid,prop,'/tmp/seed.json'])
