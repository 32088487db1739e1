// hook: server/src/engine/mem/vinline.rs
use super::*;
