// hook: server/src/engine/core/space.rs
use super::*;
