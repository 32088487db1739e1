// hook: server/src/engine/storage/common_encoding/r1/obj.rs
use super::*;
