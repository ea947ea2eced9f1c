//! The one source of randomness: SplitMix64.
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed.wrapping_add(0x1234_5678_9abc_def1)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true once in n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        &a[self.idx(a.len())]
    }
    /// about log-uniform in 1..=max
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits);
        let v = (1u64 << b) + self.below(1 << b);
        v.min(max).max(1)
    }
}
pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x)).wrapping_add(c.len() as u64);
    }
    h
}
pub fn hash_u64(h: u64, x: u64) -> u64 {
    mix(h.rotate_left(7) ^ x.wrapping_mul(0x9E3779B97F4A7C15))
}
