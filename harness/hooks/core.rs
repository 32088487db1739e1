// hook: server/src/engine/core/mod.rs
use super::*;
