// hook: server/src/engine/mem/numbuf.rs
use super::*;
