//! One PRNG for everything. `Rng` builds scenarios; `Tape` is the stream of scheduling decisions of a run.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e3779b97f4a7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() >> 33) as usize) % n
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    /// picks an index with the given weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut k = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return i;
            }
            k -= x;
        }
        0
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xd6e8feb86659fd93)).next()
}

/// Scheduling decisions: either generated from a seed, or the explicit list of a replay file (then zeros, and zero
/// always means the simplest choice: keep running, no preemption).
#[derive(Clone, Debug, PartialEq)]
pub enum Tape {
    Seed(u64),
    List(Vec<u32>),
}
impl Tape {
    pub fn first(&self, n: usize) -> Vec<u32> {
        match self {
            Tape::Seed(s) => {
                let mut r = Rng::new(*s);
                (0..n).map(|_| r.next() as u32).collect()
            }
            Tape::List(v) => {
                let mut v = v.clone();
                v.truncate(n);
                v
            }
        }
    }
}
