// hook: server/src/engine/storage/v2/impls/mdl_journal.rs
use super::*;
