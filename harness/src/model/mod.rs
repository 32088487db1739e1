//! `crate::vstd` replaces `std` in the copied sources (see build.rs): everything is std's own
//! except the maps (association lists) and, for the storage file layer only, the file system.
pub use ::std::*;
pub mod map {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/model/map_body.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/model/slots_heap.rs"));
}
/// the same maps without heap memory: rows and b-trees use them under the feature
#[cfg(feature = "inlinemaps")]
pub mod inl {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/model/map_body.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/model/slots_inline.rs"));
}
#[cfg(not(feature = "inlinemaps"))]
use map as inl;
#[cfg(feature = "inlinemaps")]
pub mod inlcollections {
    pub use super::inl::HashMap;
    pub mod hash_map { pub use crate::vstd::inl::{Entry, HashMap, Iter, Keys, Values}; }
}
pub mod fsmodel { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/model/fs.rs")); }
pub mod crcmodel { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/model/crc.rs")); }
pub mod collections {
    pub use ::std::collections::*;
    pub use super::map::{HashMap, HashSet};
    pub use super::inl::BTreeMap;
    pub mod hash_map {
        pub use ::std::collections::hash_map::DefaultHasher;
        pub use crate::vstd::hashmodel::RandomState;
        pub use crate::vstd::map::{Entry, HashMap, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut};
    }
    pub mod hash_set { pub use crate::vstd::map::HashSet; }
    pub mod btree_map { pub use crate::vstd::inl::{BTreeMap, Iter as Range, Iter, Keys, Values}; }
}
/// a deterministic stand-in for std's randomly keyed hasher
pub mod hashmodel {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct RandomState;
    impl RandomState { pub fn new() -> Self { Self } }
    impl ::std::hash::BuildHasher for RandomState { type Hasher = Mix; fn build_hasher(&self) -> Mix { Mix(0) } }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Mix(u64);
    impl ::std::hash::Hasher for Mix {
        fn finish(&self) -> u64 { self.0 }
        fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.write_u8(b[i]); i += 1; } }
        fn write_u8(&mut self, b: u8) { self.0 = self.0.rotate_left(5) ^ b as u64; }
        fn write_u64(&mut self, v: u64) { self.0 = self.0.rotate_left(5) ^ v; }
        fn write_usize(&mut self, v: usize) { self.write_u64(v as u64); }
    }
}
