//! Seeded pseudo-random streams.  Every choice of a run comes from one of these.

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn sub_seed(seed: u64, label: &str, n: u64) -> u64 {
    let mut h = mix64(seed ^ 0x9E3779B97F4A7C15);
    for b in label.bytes() {
        h = mix64(h ^ b as u64);
    }
    mix64(h.wrapping_add(n.wrapping_mul(0xD1342543DE82EF95)))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix64(seed.wrapping_add(0x1234567)))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix64(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    /// length biased towards small and boundary values, at most `max`
    pub fn len(&mut self, max: usize) -> usize {
        let m = max as u64;
        let v = match self.below(8) {
            0 => self.below(3),
            1 => self.below(17),
            2 => self.below(65),
            3 | 4 => self.below(300),
            5 => self.below(5000),
            6 => {
                let b = 1u64 << self.below(22);
                (b + self.below(3)).saturating_sub(1)
            }
            _ => self.below(m + 1),
        };
        v.min(m) as usize
    }
}
