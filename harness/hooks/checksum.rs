// hook: server/src/engine/storage/common/checksum.rs
use super::*;
