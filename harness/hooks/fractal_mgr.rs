// hook: server/src/engine/fractal/mgr.rs
use super::*;
