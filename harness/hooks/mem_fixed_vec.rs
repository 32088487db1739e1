// hook: server/src/engine/mem/fixed_vec.rs
use super::*;
