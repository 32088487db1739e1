// hook: server/src/engine/ql/ddl/mod.rs
use super::*;
