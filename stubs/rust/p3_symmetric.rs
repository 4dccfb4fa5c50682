//! Stand-in for p3-symmetric.
pub trait Permutation<T: Clone>: Clone + Sync {
    fn permute_mut(&self, input: &mut T);
    fn permute(&self, mut input: T) -> T { self.permute_mut(&mut input); input }
}
pub trait CryptographicPermutation<T: Clone>: Permutation<T> {}
