// hook: server/src/engine/mem/astr.rs
use super::*;
