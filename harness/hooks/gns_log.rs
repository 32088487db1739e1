// hook: server/src/engine/storage/v2/impls/gns_log.rs
use super::*;
