// hook: server/src/engine/storage/v2/raw/journal/raw/mod.rs
use super::*;
