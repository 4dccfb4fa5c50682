//! Stand-in for ark-ff: the traits of a prime field as the wrapper may use them.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct BigInt<const N: usize>(pub [u64; N]);
impl<const N: usize> BigInt<N> {
    pub fn to_bytes_le(&self) -> Vec<u8> { self.0.iter().flat_map(|x| x.to_le_bytes()).collect() }
    pub fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
}
impl<const N: usize> AsRef<[u64]> for BigInt<N> { fn as_ref(&self) -> &[u64] { &self.0 } }
impl From<u64> for BigInt<1> { fn from(x: u64) -> Self { BigInt([x]) } }
impl From<u32> for BigInt<1> { fn from(x: u32) -> Self { BigInt([x as u64]) } }
pub trait BigInteger { fn to_bytes_le(&self) -> Vec<u8>; fn to_bytes_be(&self) -> Vec<u8>; }
impl<const N: usize> BigInteger for BigInt<N> {
    fn to_bytes_le(&self) -> Vec<u8> { BigInt::to_bytes_le(self) }
    fn to_bytes_be(&self) -> Vec<u8> { BigInt::to_bytes_be(self) }
}
pub trait Zero: Sized { fn zero() -> Self; fn is_zero(&self) -> bool; }
pub trait One: Sized { fn one() -> Self; }
pub trait Field: Copy { const ZERO: Self; const ONE: Self; }
pub trait PrimeField: Sized + Copy + From<u64> + From<u32> {
    type BigInt;
    fn into_bigint(self) -> Self::BigInt;
    fn from_bigint(x: Self::BigInt) -> Option<Self>;
    fn from_le_bytes_mod_order(b: &[u8]) -> Self;
    fn from_be_bytes_mod_order(b: &[u8]) -> Self;
}
