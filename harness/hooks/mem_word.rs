// hook: server/src/engine/mem/word.rs
use super::*;
