// hook: server/src/engine/data/mod.rs
use super::*;
