//! The only source of randomness in the simulator

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in [0, 1)
    pub fn u(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.u()
    }
    /// Log-uniform in [a, b)
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (a.ln() + (b / a).ln() * self.u()).exp()
    }
    pub fn p(&mut self, prob: f64) -> bool {
        self.u() < prob
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn int(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn logint(&mut self, a: u64, b: u64) -> u64 {
        (self.log(a as f64, b as f64 + 1.0) as u64).clamp(a, b)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }
    pub fn sign(&mut self) -> f64 {
        if self.p(0.5) {
            1.0
        } else {
            -1.0
        }
    }
}

/// FNV-1a over words, used for event logs and result identities
#[derive(Clone, Copy)]
pub struct Hasher(pub u64);

impl Hasher {
    pub fn new() -> Self {
        Hasher(0xcbf2_9ce4_8422_2325)
    }
    pub fn word(&mut self, w: u64) {
        self.0 = (self.0 ^ w).wrapping_mul(0x0000_0100_0000_01B3);
        self.0 ^= self.0 >> 29;
    }
    pub fn f(&mut self, x: f64) {
        self.word(x.to_bits());
    }
    pub fn s(&mut self, s: &str) {
        for b in s.bytes() {
            self.word(u64::from(b));
        }
    }
}
