// hook: server/src/engine/txn/gns/mod.rs
use super::*;
