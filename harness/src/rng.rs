//! Small deterministic generator (xoshiro256**), seeded from VERIF_SEED.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *v = z ^ (z >> 31);
        }
        Rng { s }
    }

    /// A generator for one case, from a run seed, a stream name and a case number
    pub fn for_case(seed: u64, stream: &str, case: u64) -> Rng {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Rng::new(seed.wrapping_mul(0xD6E8FEB86659FD93) ^ h ^ case.wrapping_mul(0xA24BAED4963EE407))
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.next() % n as u64) as usize
    }

    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability p percent
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// Index picked with the given weights
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Sizes at which something might change
pub fn telling_sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    for k in 0..40 {
        for d in -2i64..=2 {
            v.push(((1i64 << k) + d).max(0) as usize);
            v.push(((3i64 << k) + d).max(0) as usize);
        }
    }
    for k in 0..10 {
        for m in [1i64, 2, 5] {
            for d in -1i64..=1 {
                v.push((m * 10i64.pow(k) + d) as usize);
            }
        }
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
