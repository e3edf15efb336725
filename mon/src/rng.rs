//! Small deterministic generator; every random choice of a check derives from VERIF_SEED through it.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed)) }
    pub fn from_parts(parts: &[u64]) -> Self {
        let mut s = 0x1234_5678u64;
        for p in parts { s = mix(s ^ mix(*p)); }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }
    pub fn u16(&mut self) -> u16 { (self.u64() >> 48) as u16 }
    pub fn u8(&mut self) -> u8 { (self.u64() >> 56) as u8 }
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() >> 32) * n) >> 32 }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 { lo + self.below(hi_incl - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn bool(&mut self) -> bool { self.u64() >> 63 != 0 }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T { s[self.below(s.len() as u64) as usize] }
    /// Operand value biased towards boundaries of all three sizes.
    pub fn operand(&mut self) -> u32 {
        const B: [u32; 28] = [
            0, 1, 2, 7, 8, 9, 0x0F, 0x10, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x1_0000,
            0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFF, 0xFFFF_FFFE, 0xFFFF_8000, 0xFFFF_7FFF, 0xFFFF_FF80, 0xFFFF_0000, 0x0001_FFFF,
        ];
        match self.below(8) {
            0 | 1 | 2 => self.u32(),
            3 | 4 => self.pick(&B),
            5 => { let h = self.pick(&B); let l = self.pick(&B); h << 16 | l & 0xFFFF },
            6 => { let l = self.u16() as u32; self.u32() & 0xFFFF_0000 | if self.bool() { l & 0xFF } else { l } },
            _ => { let x = self.pick(&B); let y = self.below(3) as u32; x.wrapping_add(y).wrapping_sub(1) },
        }
    }
}
