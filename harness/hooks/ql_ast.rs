// hook: server/src/engine/ql/ast/mod.rs
use super::*;
