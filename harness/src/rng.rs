/// splitmix64; every random choice of the framework comes from here.
#[derive(Clone, Debug)]
pub struct Rng {
    pub s: u64,
    pub fuel: i32,
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng { s: seed ^ 0x9E3779B97F4A7C15, fuel: 12 };
        r.next();
        r
    }
    pub fn with_fuel(seed: u64, fuel: i32) -> Self {
        let mut r = Self::new(seed);
        r.fuel = fuel;
        r
    }
    pub fn from_env(salt: &str) -> Self {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Self::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ crate::hash(salt))
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut x = self.below(t);
        for (i, k) in w.iter().enumerate() {
            if x < *k { return i; }
            x -= k;
        }
        0
    }
}
