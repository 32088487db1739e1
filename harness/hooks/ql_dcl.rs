// hook: server/src/engine/ql/dcl.rs
use super::*;
