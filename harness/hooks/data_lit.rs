// hook: server/src/engine/data/lit.rs
use super::*;
