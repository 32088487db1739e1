// hook: server/src/engine/fractal/mod.rs
use super::*;
