// hook: server/src/engine/core/dml/mod.rs
use super::*;
