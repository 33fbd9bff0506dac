//! The only source of randomness of a run.
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Independent stream for a named purpose.
    pub fn fork(&mut self, label: u64) -> Rng {
        let s = self.next();
        Rng::new(s ^ label.wrapping_mul(0xD6E8_FEB8_6659_FD93))
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// True with probability p percent.
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// Log-uniform in 0..=max.
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        let v = if b == 0 { 0 } else { self.below(1u64 << b.min(63)) };
        v.min(max)
    }
    pub fn ident(&mut self, n: usize) -> String {
        (0..n).map(|_| *self.pick(b"abcdefghijklmnopqrstuvwxyz_0123456789ABCDEFG") as char).collect()
    }
    pub fn text(&mut self, n: usize) -> String {
        let mut s = String::new();
        while s.len() < n {
            match self.below(12) {
                0 => s.push('é'),
                1 => s.push('\''),
                2 => s.push('"'),
                3 => s.push('\u{1F600}'),
                4 => s.push('\0'),
                _ => s.push(*self.pick(b"abcdefghijklmnopqrstuvwxyz 0123456789`\\%") as char),
            }
        }
        s
    }
}

/// 64-bit FNV-1a; used for event log hashes.
#[derive(Clone)]
pub struct Hash(pub u64);
impl Default for Hash {
    fn default() -> Self {
        Hash(0xcbf2_9ce4_8422_2325)
    }
}
impl Hash {
    pub fn add(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
    pub fn u64(&mut self, v: u64) {
        // one multiply-mix step per word keeps logging of big buffers cheap
        self.0 = (self.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    pub fn bulk(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.u64(u64::from_le_bytes(x.try_into().unwrap()));
        }
        self.add(c.remainder());
        self.u64(b.len() as u64);
    }
}
