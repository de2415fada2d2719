//! The only source of randomness in the simulator: a splitmix64 stream seeded from VERIF_SEED.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub const fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5DEE_CE66_D1CE_4E5B))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// A number in `0..n` (0 when `n` is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as usize
        }
    }
    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// True once in `n` times.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    /// True `p` times in a hundred.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// An index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    /// Log-uniform in `1..=hi`.
    pub fn log_uniform(&mut self, hi: u64) -> u64 {
        let bits = 64 - hi.leading_zeros() as usize;
        let b = self.below(bits + 1);
        let cap = if b >= 63 { hi } else { (1u64 << b).min(hi) };
        1 + self.below(cap as usize) as u64
    }
    pub fn fork(&mut self, salt: u64) -> Rng {
        Rng::new(self.u64() ^ mix(salt))
    }
}
