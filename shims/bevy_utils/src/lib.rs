//! Stand-in for the part of bevy_utils that subsweep uses: hash containers with a fixed hasher.
use std::collections::hash_map::DefaultHasher;
use std::hash::BuildHasherDefault;

pub type StableHashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<DefaultHasher>>;
pub type StableHashSet<K> = std::collections::HashSet<K, BuildHasherDefault<DefaultHasher>>;
