// hook: server/src/engine/mem/ll.rs
use super::*;
