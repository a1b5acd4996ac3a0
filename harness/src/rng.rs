//! Deterministic random numbers: every case is a pure function of (seed, check, case index).

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, tag: &str, case: u64) -> Self {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15) ^ hash_str(tag) ^ mix(case.wrapping_mul(0x2545f4914f6cdd1d)))
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.u64())
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % (b - a + 1) as u64) as i64
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        self.range(a as i64, b as i64) as usize
    }
    /// [0, 1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// a random number with at most `dec` decimals, exactly representable as written
    pub fn dec(&mut self, a: f64, b: f64, dec: u32) -> f32 {
        let m = 10f64.powi(dec as i32);
        let v = (self.f(a, b) * m).round() / m;
        format!("{v:.*}", dec as usize).parse().unwrap()
    }
}
