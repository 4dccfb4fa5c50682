//! Stand-in for the zkhash crate (HorizenLabs/poseidon2): its field and calling interface, with a mixing of the state in
//! place of the permutation, so that what is handed over and given back can be observed.
pub extern crate ark_ff;
pub mod fields {
    pub mod babybear {
        use ark_ff::{BigInt, PrimeField};
        pub const P: u64 = 0x78000001;
        const R: u64 = (1u64 << 32) % P;
        fn pow(mut b: u64, mut e: u64) -> u64 { let mut r = 1; while e > 0 { if e & 1 == 1 { r = r * b % P } b = b * b % P; e >>= 1; } r }
        /// held in Montgomery form, as the real one
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
        pub struct FpBabyBear(u64);
        impl FpBabyBear {
            pub fn make(x: u64) -> Self { FpBabyBear(x % P * R % P) }
            pub fn value(self) -> u64 { self.0 * pow(R, P - 2) % P }
        }
        macro_rules! f { ($($t:ty)*) => { $(impl From<$t> for FpBabyBear { fn from(x: $t) -> Self { Self::make((x as u128 % P as u128) as u64) } })* } }
        f!(u8 u16 u32 u64 u128 bool);
        macro_rules! g { ($($t:ty)*) => { $(impl From<$t> for FpBabyBear { fn from(x: $t) -> Self { Self::make((x as i128).rem_euclid(P as i128) as u64) } })* } }
        g!(i8 i16 i32 i64 i128);
        impl From<BigInt<1>> for FpBabyBear { fn from(x: BigInt<1>) -> Self { Self::make(x.0[0]) } }
        impl From<FpBabyBear> for BigInt<1> { fn from(x: FpBabyBear) -> Self { BigInt([x.value()]) } }
        impl PrimeField for FpBabyBear {
            type BigInt = BigInt<1>;
            fn into_bigint(self) -> BigInt<1> { BigInt([self.value()]) }
            fn from_bigint(x: BigInt<1>) -> Option<Self> { if x.0[0] < P { Some(Self::make(x.0[0])) } else { None } }
            fn from_le_bytes_mod_order(b: &[u8]) -> Self { Self::make(b.iter().rev().fold(0, |a, x| (a * 256 + *x as u64) % P)) }
            fn from_be_bytes_mod_order(b: &[u8]) -> Self { Self::make(b.iter().fold(0, |a, x| (a * 256 + *x as u64) % P)) }
        }
        impl ark_ff::Zero for FpBabyBear { fn zero() -> Self { Self::make(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
        impl ark_ff::One for FpBabyBear { fn one() -> Self { Self::make(1) } }
        impl ark_ff::Field for FpBabyBear { const ZERO: Self = FpBabyBear(0); const ONE: Self = FpBabyBear(R); }
        impl std::ops::Add for FpBabyBear { type Output = Self; fn add(self, o: Self) -> Self { FpBabyBear((self.0 + o.0) % P) } }
        impl std::ops::Sub for FpBabyBear { type Output = Self; fn sub(self, o: Self) -> Self { FpBabyBear((self.0 + P - o.0) % P) } }
        impl std::ops::Mul for FpBabyBear { type Output = Self; fn mul(self, o: Self) -> Self { Self::make(self.value() * o.value() % P) } }
    }
}
pub mod poseidon2 {
    pub mod poseidon2_params {
        pub struct Poseidon2Params<F> { pub t: usize, pub tag: u64, pub mark: std::marker::PhantomData<F> }
    }
    pub mod poseidon2_instance_babybear {
        use super::poseidon2_params::Poseidon2Params;
        use crate::fields::babybear::FpBabyBear;
        use std::sync::{Arc, LazyLock};
        fn p(t: usize) -> Arc<Poseidon2Params<FpBabyBear>> { Arc::new(Poseidon2Params { t, tag: 1000 + t as u64, mark: std::marker::PhantomData }) }
        pub static POSEIDON2_BABYBEAR_24_PARAMS: LazyLock<Arc<Poseidon2Params<FpBabyBear>>> = LazyLock::new(|| p(24));
        pub static POSEIDON2_BABYBEAR_16_PARAMS: LazyLock<Arc<Poseidon2Params<FpBabyBear>>> = LazyLock::new(|| p(16));
    }
    pub mod poseidon2 {
        use super::poseidon2_params::Poseidon2Params;
        use crate::fields::babybear::{FpBabyBear, P};
        use std::sync::Arc;
        #[derive(Clone)]
        pub struct Poseidon2<F> { pub(crate) params: Arc<Poseidon2Params<F>> }
        impl Poseidon2<FpBabyBear> {
            pub fn new(params: &Arc<Poseidon2Params<FpBabyBear>>) -> Self { Poseidon2 { params: Arc::clone(params) } }
            pub fn get_t(&self) -> usize { self.params.t }
            pub fn permutation(&self, input: &[FpBabyBear]) -> Vec<FpBabyBear> {
                let t = self.params.t;
                assert_eq!(input.len(), t);
                let mut s: Vec<u64> = input.iter().map(|x| x.value()).collect();
                for r in 0..4 {
                    for i in 0..t {
                        let n = s[(i + 1) % t];
                        s[i] = (s[i] * (i as u64 + 2) + n * n % P + 7 * r + i as u64 + self.params.tag) % P;
                    }
                }
                s.iter().map(|x| FpBabyBear::make(*x)).collect()
            }
        }
    }
}
