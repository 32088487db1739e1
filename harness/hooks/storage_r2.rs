// hook: server/src/engine/storage/common_encoding/r2.rs
use super::*;
pub fn user(d: &FullUserDefinition) -> (&[u8], &[u8]) { (d.username.as_bytes(), &d.password) }
pub fn dropped(d: &DropUserPayload) -> &[u8] { d.0.as_bytes() }
