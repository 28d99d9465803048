//! Deterministic generator: case i of property p at seed s always sees the same stream.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, case: u64) -> Rng {
        Rng(mix(seed) ^ hash_str(stream) ^ mix(case.wrapping_mul(0x9E37) ^ 0x5151))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.idx(v.len())].clone()
    }
    /// true with probability num / den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn u128_any(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    /// up to `bits` bits, log-uniform, leaning to powers of two, powers of ten and their neighbours
    pub fn log(&mut self, bits: u64) -> u128 {
        let v = match self.below(8) {
            0 => {
                let b = self.below(bits);
                let p = 1u128 << b;
                match self.below(3) {
                    0 => p,
                    1 => p - 1,
                    _ => p.saturating_add(1),
                }
            }
            1 => {
                let p = 10u128.pow(self.below(39) as u32);
                match self.below(3) {
                    0 => p,
                    1 => p - 1,
                    _ => p + 1,
                }
            }
            2 => self.below(12) as u128,
            _ => {
                let b = self.range(1, bits);
                self.u128_any() >> (128 - b)
            }
        };
        if bits >= 128 {
            v
        } else {
            v & ((1u128 << bits) - 1)
        }
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u128) -> u128 {
        if max == u128::MAX {
            return self.u128_any();
        }
        self.u128_any() % (max + 1)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
}
