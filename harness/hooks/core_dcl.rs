// hook: server/src/engine/core/dcl.rs
use super::*;
