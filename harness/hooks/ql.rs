// hook: server/src/engine/ql/mod.rs
use super::*;
