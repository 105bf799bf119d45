//! Source of test data: every drawn value is recorded, so that a failing case can be replayed.

pub struct Src {
    state: u64,
    pub tape: Vec<u64>,
    pos: usize,
    replay: bool,
    pub dict: Vec<u64>,
}

impl Src {
    pub fn new(seed: u64, dict: Vec<u64>) -> Self {
        Src { state: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03, tape: vec![], pos: 0, replay: false, dict }
    }

    pub fn replay(tape: Vec<u64>) -> Self {
        Src { state: 1, tape, pos: 0, replay: true, dict: vec![] }
    }

    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    fn draw(&mut self, f: impl FnOnce(&mut Self) -> u64) -> u64 {
        if self.replay {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            return v;
        }
        let v = f(self);
        self.tape.push(v);
        v
    }

    /// a number in lo ..= hi, biased to the ends and to constants of the source
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        let v = self.draw(|s| {
            let span = hi - lo;
            if span == u64::MAX { return s.next(); }
            match s.next() % 16 {
                0 => lo,
                1 => hi,
                2 => lo + (s.next() % 4).min(span),
                3 => hi - (s.next() % 4).min(span),
                4 | 5 if !s.dict.is_empty() => {
                    let k = (s.next() as usize) % s.dict.len();
                    let d = s.dict[k].wrapping_add(s.next() % 3).wrapping_sub(1);
                    if d >= lo && d <= hi { d } else { lo + s.next() % (span + 1) }
                }
                6 => { let b = s.next() % 64; let p = (1u64 << b).wrapping_sub(s.next() & 1); if p >= lo && p <= hi { p } else { lo + s.next() % (span + 1) } }
                _ => lo + s.next() % (span + 1),
            }
        });
        v.max(lo).min(hi)
    }

    /// a number in lo ..= hi without bias
    pub fn flat(&mut self, lo: u64, hi: u64) -> u64 {
        let v = self.draw(|s| lo + s.next() % (hi - lo + 1));
        v.max(lo).min(hi)
    }

    pub fn below(&mut self, n: usize) -> usize { self.flat(0, n as u64 - 1) as usize }
    pub fn u8(&mut self) -> u8 { self.range(0, 255) as u8 }
    pub fn u16(&mut self) -> u16 { self.range(0, 65535) as u16 }
    pub fn u32(&mut self) -> u32 { self.range(0, u32::MAX as u64) as u32 }
    pub fn bool(&mut self) -> bool { self.flat(0, 1) == 1 }
    pub fn chance(&mut self, n: u64) -> bool { self.flat(0, n - 1) == 0 }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { let k = self.below(v.len()); v[k] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0 .. n).map(|_| self.range(0, 255) as u8).collect() }

    /// like bytes, for long strings: one drawn seed expanded
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let mut x = self.draw(|s| s.next()) | 1;
        (0 .. n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect()
    }
}
