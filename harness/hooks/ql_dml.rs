// hook: server/src/engine/ql/dml/mod.rs
use super::*;
