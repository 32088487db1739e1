// hook: server/src/engine/mem/rawslice.rs
use super::*;
