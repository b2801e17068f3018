//! A source of choices. Every random decision of a generator is one call of
//! `below`; the recorded list of decisions (the tape) replays the case exactly
//! and is what the shrinker edits. Zero is by convention the simplest choice.

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xA24B_AED4_963E_E407));
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), tape: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(tape: &[u64]) -> Src {
        Src { rng: None, tape: tape.to_vec(), pos: 0, rec: vec![] }
    }
    /// A choice in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos].min(n - 1)
        } else if let Some(r) = &mut self.rng {
            // Multiply-shift would do, modulo bias is irrelevant here.
            r.next() % n
        } else {
            0
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u64;
        lo.wrapping_add(self.below(span) as i64)
    }
    pub fn u32(&mut self, lo: u32, hi: u32) -> u32 {
        self.int(i64::from(lo), i64::from(hi)) as u32
    }
    pub fn u16(&mut self, lo: u16, hi: u16) -> u16 {
        self.int(i64::from(lo), i64::from(hi)) as u16
    }
    pub fn u8(&mut self, lo: u8, hi: u8) -> u8 {
        self.int(i64::from(lo), i64::from(hi)) as u8
    }
    pub fn any64(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
        if self.bool() {
            Some(f(self))
        } else {
            None
        }
    }
    /// Number in lo..=hi, biased towards small.
    pub fn small(&mut self, lo: usize, hi: usize) -> usize {
        let span = hi - lo + 1;
        match self.below(4) {
            0 => lo + self.idx(span.min(3)),
            1 => lo + self.idx(span.min(8)),
            _ => lo + self.idx(span),
        }
    }
    /// Like `small`, but now and then many.
    pub fn span(&mut self, lo: usize, hi: usize, many: usize) -> usize {
        if self.chance(1, 40) { self.small(hi, many) } else { self.small(lo, hi) }
    }
    /// Weighted choice: returns index.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| u64::from(*x)).sum();
        let mut v = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if v < u64::from(*x) {
                return i;
            }
            v -= u64::from(*x);
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.idx(i + 1);
            xs.swap(i, j);
        }
    }
}
