//! splitmix64
use std::cell::Cell;
thread_local! { static PRINT: Cell<u64> = Cell::new(0); }
/// fingerprint of the values drawn since the last reset: equal for equal cases
pub fn print_reset(x: u64) { PRINT.with(|p| p.set(x)); }
pub fn print() -> u64 { PRINT.with(|p| p.get()) }
fn mix(x: u64) { PRINT.with(|p| p.set((p.get() ^ x).wrapping_mul(0x100000001b3).rotate_left(23))); }
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, idx: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03)); r.u64(); r.u64(); r }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0 <= r < n
    pub fn below(&mut self, n: usize) -> usize { let v = if n == 0 { 0 } else { (self.u64() % n as u64) as usize }; mix(v as u64); v }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn byte(&mut self) -> u8 { let v = self.u64() as u8; mix(v as u64); v }
    pub fn nz(&mut self) -> u8 { (self.below(255) + 1) as u8 }
    pub fn bit(&mut self) -> bool { let v = self.u64() >> 17 & 1 == 1; mix(v as u64); v }
    pub fn chance(&mut self, p: usize, q: usize) -> bool { self.below(q) < p }
    pub fn f(&mut self) -> f64 { let v = self.u64() >> 11; mix(v); v as f64 / (1u64 << 53) as f64 }
    pub fn fr(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    /// k different numbers below n
    pub fn choose(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..k.min(n) { let j = i + self.below(n - i); v.swap(i, j); }
        v.truncate(k);
        v
    }
}
