//! Small deterministic PRNG (splitmix64); every random choice of the harness comes from here.
#[derive(Clone)]
pub struct Rng(pub u64, pub bool);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h, 0x1234_5678)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed, 0xD1CE), false)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    /// uniform in [lo, hi]
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        (self.f(lo.ln(), hi.ln())).exp()
    }
    pub fn bool(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    /// finite double with hostile shapes: zero, negative zero, subnormal, huge, integers, random bits
    pub fn any_finite(&mut self) -> f64 {
        match self.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::from_bits(self.u64() % (1 << 52)),
            3 => f64::MAX * if self.bool(0.5) { 1.0 } else { -1.0 },
            4 => f64::MIN_POSITIVE,
            5 => self.below(1000) as f64 - 500.0,
            6 => self.f(-1.0, 1.0),
            7 => self.f(-1e3, 1e3),
            8 => (self.below(2_000_001) as f64 - 1e6) / 1e3,
            9 => self.logf(1e-300, 1e300),
            _ => loop {
                let x = f64::from_bits(self.u64());
                if x.is_finite() {
                    break x;
                }
            },
        }
    }
}
