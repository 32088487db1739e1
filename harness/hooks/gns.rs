// hook: server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs
use super::*;
pub fn space(d: &SpaceIDRes) -> ([u8; 16], &[u8]) { (d.uuid.to_le_bytes(), d.name.as_bytes()) }
