// hook: server/src/engine/config.rs
use super::*;
