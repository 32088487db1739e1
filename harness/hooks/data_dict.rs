// hook: server/src/engine/data/dict.rs
use super::*;
