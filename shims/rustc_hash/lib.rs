//! Stands in for rustc-hash: every key has the same hash, so that maps with symbolic keys compare
//! keys instead of computing with symbolic hashes. Any correct use of a map gives the same answers.
#![no_std]
#[cfg(feature = "std")]
extern crate std;
use core::hash::Hasher;
#[cfg(feature = "std")]
use core::hash::BuildHasherDefault;
#[cfg(feature = "std")]
use std::collections::{HashMap, HashSet};
#[cfg(feature = "std")]
pub type FxHashMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;
#[cfg(feature = "std")]
pub type FxHashSet<V> = HashSet<V, BuildHasherDefault<FxHasher>>;
#[derive(Default, Clone, Copy)]
pub struct FxHasher;
impl Hasher for FxHasher {
    #[inline]
    fn write(&mut self, _: &[u8]) {}
    #[inline]
    fn finish(&self) -> u64 {
        0
    }
}
