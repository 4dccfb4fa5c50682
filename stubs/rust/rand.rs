//! Stand-in for rand: the traits alone.
pub trait RngCore { fn next_u64(&mut self) -> u64; fn next_u32(&mut self) -> u32 { self.next_u64() as u32 } }
impl<R: RngCore + ?Sized> RngCore for &mut R { fn next_u64(&mut self) -> u64 { (**self).next_u64() } }
pub trait Rng: RngCore {}
impl<R: RngCore + ?Sized> Rng for R {}
pub trait SeedableRng: Sized { fn seed_from_u64(x: u64) -> Self; }
pub mod rngs {
    macro_rules! r { ($n:ident $k:expr) => {
        pub struct $n(u64);
        impl super::SeedableRng for $n { fn seed_from_u64(x: u64) -> Self { $n(x ^ $k) } }
        impl super::RngCore for $n { fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add($k | 1); self.0 ^ self.0 >> 29 } }
    } }
    r!(StdRng 0x5151); r!(SmallRng 0x7373);
}
