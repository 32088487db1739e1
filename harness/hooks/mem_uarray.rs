// hook: server/src/engine/mem/uarray.rs
use super::*;
