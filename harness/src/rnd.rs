//! The harness' own random source; independent of the code under test.

pub struct Rnd(std::cell::Cell<u64>);

impl Rnd {
    pub fn new(seed: u64, idx: u64) -> Self {
        let r = Rnd(std::cell::Cell::new(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ idx.wrapping_mul(0xd1342543de82ef95)));
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(0x9e3779b97f4a7c15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true once in n
    pub fn one_in(&self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Small numbers often, large ones sometimes.
    pub fn small(&self, max: usize) -> usize {
        let m = match self.below(4) { 0 => max, 1 => max / 4, _ => max / 16 };
        self.below(m.max(3).min(max) + 1)
    }
    /// Around a power of two, from 2^6 to 2^bits.
    pub fn big(&self, bits: usize) -> usize {
        let n = (1usize << self.range(6, bits)) + self.below(3) - 1;
        if self.one_in(3) { n + self.below(n / 4) } else { n }
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}
