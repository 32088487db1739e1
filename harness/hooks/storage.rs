// hook: server/src/engine/storage/mod.rs
use super::*;
