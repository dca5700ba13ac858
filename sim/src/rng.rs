//! The one source of random choices of the harness.
use crate::rt::{mix, splitmix};
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut s = mix(seed, 0x5EED); splitmix(&mut s); Rng(s) }
    pub fn next(&mut self) -> u64 { splitmix(&mut self.0) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % ((b - a + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: u32, den: u32) -> bool { self.next() % u64::from(den) < u64::from(num) }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    /// 1 ..= max, small values much likelier
    pub fn geometric(&mut self, max: usize) -> usize { let mut n = 1; while n < max && self.chance(1, 2) { n += 1; } n }
}
