//! splitmix64/xoshiro-free tiny PRNG: every random choice of the workloads comes from here.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 33) as u8
    }
    /// 0 <= result < n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// lo <= result <= hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0; N];
        a.copy_from_slice(&self.bytes(N));
        a
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// a number that occurs in the code under test, or one next to it
    pub fn number(&mut self, max: usize) -> Option<usize> {
        let v = crate::dict::numbers();
        let k = v.partition_point(|&n| n <= max as u64);
        if k == 0 {
            return None;
        }
        let n = v[self.below(k)] as usize;
        Some((n + self.below(3)).saturating_sub(1).min(max))
    }
    /// sizes biased to boundaries
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(7) {
            0 => self.below(4.min(max + 1)),
            1 => {
                let p = 1usize << self.below(17);
                (p + self.below(3)).saturating_sub(1).min(max)
            }
            2 => self.below(64.min(max + 1)),
            3 => self.below(1024.min(max + 1)),
            4 => self.number(max).unwrap_or(max),
            _ => self.below(max + 1),
        }
    }
}
