// hook: server/src/engine/core/dml/upd.rs
use super::*;
