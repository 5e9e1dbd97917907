use std::hash::{BuildHasher, Hasher};

/// Random numbers: the interpreter's seed decides them.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new() -> Self {
        Self(std::collections::hash_map::RandomState::new().build_hasher().finish())
    }
    pub fn from(x: u64) -> Self {
        Self(x)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
}

pub fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29)
}
