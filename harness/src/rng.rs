//! Small deterministic generator (SplitMix64), seeded from VERIF_SEED, section and case number.

#[derive(Clone, Debug)]
pub struct Rng(u64, usize);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h ^ b as u64))
}

pub fn hash_all(xs: &[u64]) -> u64 {
    xs.iter().fold(0x1234_5678, |h, &x| mix(h ^ x))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), 0)
    }

    /// The next `n` requests for dimensions (of rank 1 or more) give more than 65536 elements.
    pub fn set_large(&mut self, n: usize) {
        self.1 = n;
    }

    /// Large dimensions, if requested by `set_large`.
    pub fn large_dims(&mut self, rank: usize) -> Option<Vec<usize>> {
        if self.1 == 0 || rank == 0 {
            return None;
        }
        self.1 -= 1;
        loop {
            let mut d: Vec<usize> = (0..rank).map(|_| if self.chance(1, 6) { 2 } else { 1 }).collect();
            let long = self.range(1, 3).min(rank);
            for _ in 0..long {
                let k = self.below(rank);
                d[k] = match (long, self.below(3)) {
                    (1, 0) => (1usize << self.range(16, 17)) + self.below(3) - 1,
                    (1, _) => self.range(65_537, 90_000),
                    (2, 0) => self.range(2, 9),
                    (2, 1) => (1usize << self.range(7, 15)) + self.below(3) - 1,
                    (2, _) => self.range(150, 60_000),
                    _ => self.range(2, 200),
                };
            }
            let n = d.iter().fold(1usize, |a, &x| a.saturating_mul(x));
            if n > 65_536 && n <= 140_000 {
                return Some(d);
            }
        }
    }

    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }

    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }

    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn irange(&mut self, lo: isize, hi: isize) -> isize {
        lo + self.below((hi - lo + 1) as usize) as isize
    }

    /// True with probability `num / den`.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }

    /// A dimension size: mostly small, sometimes 0 or 1, sometimes larger.
    pub fn dim(&mut self) -> usize {
        match self.below(16) {
            0 => 0,
            1 | 2 => 1,
            3 | 4 | 5 | 6 => 2,
            7 | 8 | 9 | 10 => 3,
            11 | 12 => 4,
            13 => 5,
            14 => self.range(5, 7),
            _ => self.range(1, 9),
        }
    }

    /// Dimensions of a large array: one to three long dimensions, often next to a power of two,
    /// with at most `max` elements in total.
    pub fn big_dims(&mut self, rank: usize, max: usize) -> Vec<usize> {
        loop {
            let mut d: Vec<usize> = (0..rank).map(|_| self.range(1, 2)).collect();
            for _ in 0..self.range(1, 3).min(rank) {
                let k = self.below(rank);
                d[k] = match self.below(3) {
                    0 => self.range(8, 40),
                    1 => self.range(10, 300),
                    _ => (1usize << self.range(3, 10)) + self.below(3) - 1,
                };
            }
            let n = d.iter().fold(1usize, |a, &x| a.saturating_mul(x));
            if n <= max || rank == 0 {
                return d;
            }
        }
    }

    /// Dimensions of the given rank with at most `cap` elements in total. Where the cap is that of
    /// a native build (40 or more), a few are much larger.
    pub fn dims(&mut self, rank: usize, cap: usize) -> Vec<usize> {
        if let Some(d) = self.large_dims(rank) {
            return d;
        }
        if cap >= 40 && self.chance(1, 24) {
            return self.big_dims(rank, 15 * cap);
        }
        loop {
            let d: Vec<usize> = (0..rank).map(|_| self.dim()).collect();
            // Bound the product of the non-zero dimensions, so that empty shapes stay small too.
            let n = d.iter().fold(1usize, |a, &x| a.saturating_mul(x.max(1)));
            if n <= cap {
                return d;
            }
        }
    }

    /// As `dims`, without empty dimensions.
    pub fn dims_pos(&mut self, rank: usize, cap: usize) -> Vec<usize> {
        if let Some(d) = self.large_dims(rank) {
            return d;
        }
        if cap >= 40 && self.chance(1, 24) {
            return self.big_dims(rank, 15 * cap);
        }
        loop {
            let d: Vec<usize> = (0..rank).map(|_| self.dim().max(1)).collect();
            let n = d.iter().fold(1usize, |a, &x| a.saturating_mul(x));
            if n <= cap {
                return d;
            }
        }
    }
}
