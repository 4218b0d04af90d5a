//! The only source of randomness of the whole machinery: splitmix64 from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5bd1e995))
    }
    /// independent stream for a (seed, label, index)
    pub fn stream(seed: u64, label: &str, idx: u64) -> Rng {
        let mut h = seed;
        for b in label.bytes() {
            h = mix(h ^ b as u64);
        }
        Rng::new(mix(h ^ mix(idx)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        if b <= a {
            return a;
        }
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// log-uniform in a..=b
    pub fn log(&mut self, a: u64, b: u64) -> u64 {
        let (la, lb) = ((a.max(1) as f64).ln(), (b.max(1) as f64).ln());
        let f = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        let v = (la + (lb - la) * f).exp();
        (v as u64).clamp(a, b)
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t.max(1));
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
}
