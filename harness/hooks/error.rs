// hook: server/src/engine/error.rs
use super::*;
