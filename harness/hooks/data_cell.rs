// hook: server/src/engine/data/cell.rs
use super::*;
