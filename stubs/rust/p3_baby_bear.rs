//! Stand-in for p3-baby-bear: the field (in Montgomery form, as the real one) and, in place of the permutation, a mixing of
//! the state that depends on the constants drawn from the generator it is given.
use p3_field::*;
pub const P: u64 = 0x78000001;
const R: u64 = (1u64 << 32) % P;
const fn pow(mut b: u64, mut e: u64) -> u64 { let mut r = 1; while e > 0 { if e & 1 == 1 { r = r * b % P } b = b * b % P; e >>= 1; } r }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash)]
#[repr(transparent)]
pub struct BabyBear(u32);
impl BabyBear {
    pub const fn new(x: u32) -> Self { BabyBear((x as u64 % P * R % P) as u32) }
    pub const fn new_array<const N: usize>(x: [u32; N]) -> [Self; N] {
        let mut out = [BabyBear(0); N]; let mut i = 0;
        while i < N { out[i] = BabyBear::new(x[i]); i += 1 } out
    }
    fn value(self) -> u64 { self.0 as u64 * pow(R, P - 2) % P }
}
impl PrimeCharacteristicRing for BabyBear {
    const ZERO: Self = BabyBear::new(0); const ONE: Self = BabyBear::new(1); const TWO: Self = BabyBear::new(2);
    fn from_u8(x: u8) -> Self { Self::new(x as u32) } fn from_u16(x: u16) -> Self { Self::new(x as u32) }
    fn from_u32(x: u32) -> Self { Self::new(x) } fn from_u64(x: u64) -> Self { Self::new((x % P) as u32) }
}
impl integers::QuotientMap<u32> for BabyBear { fn from_int(x: u32) -> Self { Self::new(x) } }
impl integers::QuotientMap<u64> for BabyBear { fn from_int(x: u64) -> Self { Self::from_u64(x) } }
impl Field for BabyBear {}
impl PrimeField for BabyBear {}
impl PrimeField64 for BabyBear { const ORDER_U64: u64 = P; fn as_canonical_u64(&self) -> u64 { self.value() } }
impl PrimeField32 for BabyBear { const ORDER_U32: u32 = P as u32; fn as_canonical_u32(&self) -> u32 { self.value() as u32 } }
#[derive(Clone)]
pub struct Poseidon2BabyBear<const WIDTH: usize> { c: Vec<u64> }
impl<const WIDTH: usize> Poseidon2BabyBear<WIDTH> {
    pub fn new_from_rng_128<G: rand::Rng>(rng: &mut G) -> Self { Poseidon2BabyBear { c: (0..8).map(|_| rng.next_u64() % P).collect() } }
    pub fn new_from_rng<G: rand::Rng>(full: usize, partial: usize, rng: &mut G) -> Self {
        if (full, partial) == (8, 21) { return Self::new_from_rng_128(rng) }
        Poseidon2BabyBear { c: (0..8).map(|_| (rng.next_u64() + full as u64 * 100 + partial as u64) % P).collect() }
    }
}
impl<const WIDTH: usize> p3_symmetric::Permutation<[BabyBear; WIDTH]> for Poseidon2BabyBear<WIDTH> {
    fn permute_mut(&self, s: &mut [BabyBear; WIDTH]) {
        let mut v: Vec<u64> = s.iter().map(|x| x.value()).collect();
        for r in 0..4 {
            for i in 0..WIDTH {
                let n = v[(i + 1) % WIDTH];
                v[i] = (v[i] * (i as u64 + 2) + n * n % P + self.c[(r + i) % 8]) % P;
            }
        }
        for i in 0..WIDTH { s[i] = BabyBear::new(v[i] as u32) }
    }
}
impl<const WIDTH: usize> p3_symmetric::CryptographicPermutation<[BabyBear; WIDTH]> for Poseidon2BabyBear<WIDTH> {}
pub fn default_babybear_poseidon2_24() -> Poseidon2BabyBear<24> { Poseidon2BabyBear { c: (0..8).map(|i| 77 + i).collect() } }
pub fn default_babybear_poseidon2_16() -> Poseidon2BabyBear<16> { Poseidon2BabyBear { c: (0..8).map(|i| 177 + i).collect() } }
