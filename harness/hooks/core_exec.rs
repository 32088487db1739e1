// hook: server/src/engine/core/exec.rs
use super::*;
