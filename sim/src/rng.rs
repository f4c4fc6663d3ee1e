//! The only source of choices: one integer decides everything.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x6A09E667F3BCC909))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in 0..n (0 when n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability n/d.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.u64() % d < n
    }
    pub fn coin(&mut self) -> bool {
        self.u64() & 1 == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// Small most of the time, now and then large.
    pub fn heavy(&mut self, lo: usize, hi: usize) -> usize {
        let span = hi - lo;
        let r = self.below(16);
        let cut = match r {
            0..=7 => span / 8,
            8..=12 => span / 3,
            _ => span,
        };
        lo + self.below(cut + 1)
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}
