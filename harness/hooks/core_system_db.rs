// hook: server/src/engine/core/system_db.rs
use super::*;
