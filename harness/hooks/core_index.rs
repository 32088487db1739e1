// hook: server/src/engine/core/index/mod.rs
use super::*;
#[cfg(kani)]
pub use super::row::skyverif::empty as row_empty;
