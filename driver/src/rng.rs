//! A small deterministic generator (splitmix64).
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability p percent.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
    pub fn pick_char(&mut self, s: &str) -> char {
        let n = s.chars().count();
        let k = self.below(n);
        s.chars().nth(k).unwrap()
    }
    /// A size that is usually small and occasionally large (up to max).
    pub fn size(&mut self, max: usize) -> usize {
        let hi = match self.below(10) {
            0..=5 => 3,
            6..=7 => 8,
            8 => 20,
            _ => max,
        };
        self.below(hi.min(max) + 1)
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut k = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return i;
            }
            k -= x;
        }
        w.len() - 1
    }
}
