#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, case: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ case.wrapping_mul(0xd1b5_4a32_d192_ed03) ^ 0x5bf0_3635);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b < a { a } else { a + self.below((b - a).saturating_add(1)) }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0u8; N];
        for x in b.iter_mut() {
            *x = self.next() as u8;
        }
        b
    }
    /// 64-bit values with many extremes
    pub fn wild(&mut self) -> u64 {
        match self.below(9) {
            0 => 0,
            1 => self.below(4),
            2 => u64::MAX - self.below(4),
            3 => (1u64 << self.below(64)).wrapping_add(self.below(5)).wrapping_sub(2),
            4 => self.below(5000),
            5 => u64::MAX / 512 - 2 + self.below(5),
            6 => u64::MAX / 4096 - 2 + self.below(5),
            7 => u64::MAX / 128 - 2 + self.below(5),
            _ => self.next() >> self.below(64),
        }
    }
    pub fn wild32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => u32::MAX - self.below(4) as u32,
            2 => (1u64 << self.below(32)).wrapping_add(self.below(5)).wrapping_sub(2) as u32,
            3 => self.below(600) as u32,
            4 => 128,
            _ => (self.next() as u32) >> self.below(32),
        }
    }
}
