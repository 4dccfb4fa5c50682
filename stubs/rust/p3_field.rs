//! Stand-in for p3-field: the traits as the wrapper may use them.
pub trait PrimeCharacteristicRing: Sized + Clone {
    const ZERO: Self; const ONE: Self; const TWO: Self;
    fn from_u8(x: u8) -> Self; fn from_u16(x: u16) -> Self; fn from_u32(x: u32) -> Self; fn from_u64(x: u64) -> Self;
    fn from_usize(x: usize) -> Self { Self::from_u64(x as u64) }
    fn from_bool(x: bool) -> Self { Self::from_u8(x as u8) }
}
pub trait Field: PrimeCharacteristicRing + Copy {}
pub trait PrimeField: Field {}
pub trait PrimeField64: PrimeField { const ORDER_U64: u64; fn as_canonical_u64(&self) -> u64; }
pub trait PrimeField32: PrimeField64 { const ORDER_U32: u32; fn as_canonical_u32(&self) -> u32; }
pub mod integers {
    pub trait QuotientMap<I>: Sized { fn from_int(x: I) -> Self; }
}
