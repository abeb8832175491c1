//! Minimal stand-in for bevy_utils 0.9: hash maps with a fixed hash function.
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Default, Debug)]
pub struct FixedState;

pub struct FixedHasher(u64);
impl Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
impl BuildHasher for FixedState {
    type Hasher = FixedHasher;
    fn build_hasher(&self) -> FixedHasher {
        FixedHasher(0xcbf29ce484222325)
    }
}
pub type StableHashMap<K, V> = std::collections::HashMap<K, V, FixedState>;
pub type StableHashSet<K> = std::collections::HashSet<K, FixedState>;
pub type HashMap<K, V> = StableHashMap<K, V>;
pub type HashSet<K> = StableHashSet<K>;
