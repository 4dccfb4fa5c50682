//! Stand-in for rand_xoshiro: generators that are told apart by their name and seed (not the real sequences).
macro_rules! r { ($n:ident $k:expr) => {
    #[derive(Clone)]
    pub struct $n(u64);
    impl rand::SeedableRng for $n { fn seed_from_u64(x: u64) -> Self { $n(x.wrapping_mul(0x9E3779B97F4A7C15) ^ $k) } }
    impl rand::RngCore for $n { fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add($k | 1); self.0 ^ self.0 >> 29 } }
} }
r!(Xoroshiro128Plus 1001); r!(Xoroshiro128PlusPlus 1003); r!(Xoroshiro128StarStar 1005);
r!(Xoshiro256Plus 2001); r!(Xoshiro256PlusPlus 2003); r!(Xoshiro256StarStar 2005);
pub extern crate rand as rand_core;
