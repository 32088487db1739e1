// hook: server/src/engine/core/dml/ins.rs
use super::*;
