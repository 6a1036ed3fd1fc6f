//! The only source of choice in the simulator: xoshiro256** seeded through splitmix64.
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, index: u64) -> Self {
        let mut s = seed ^ 0xE81_51A1;
        for b in stream.bytes() {
            s = splitmix(&mut s) ^ b as u64;
        }
        s ^= index.wrapping_mul(0xD1342543DE82EF95);
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a.wrapping_add(self.below((b - a) as u64 + 1) as i64)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// Log-uniform-ish size in 1..=max
    pub fn size(&mut self, max: usize) -> usize {
        let bits = 64 - (max as u64).leading_zeros() as u64;
        let b = self.below(bits) + 1;
        let v = self.below(1u64 << b) as usize;
        v.clamp(1, max)
    }
}
