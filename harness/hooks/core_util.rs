// hook: server/src/engine/core/util.rs
use super::*;
