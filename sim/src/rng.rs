//! The one source of randomness: SplitMix64 streams derived from the run seed.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b).rotate_left(17))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// Uniform in lo..=h with h itself one of `his`.
    pub fn range_to(&mut self, lo: u64, his: &[u64]) -> u64 {
        let h = *self.pick(his);
        self.range(lo, h)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Geometric-like gap with the given mean (at least 1).
    pub fn gap(&mut self, mean: u64) -> u64 {
        if mean <= 1 {
            return 1;
        }
        let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        let g = (-u.ln() * mean as f64) as u64;
        g.clamp(1, 1 << 40)
    }
}
