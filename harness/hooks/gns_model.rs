// hook: server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
use super::*;
pub fn id(d: &ModelIDRes) -> (&crate::engine::storage::common_encoding::r1::impls::gns::SpaceIDRes, &[u8], [u8; 16], u64) {
    (&d.space_id, d.model_name.as_bytes(), d.model_uuid.to_le_bytes(), d.model_version)
}
pub fn removed(d: &AlterModelRemoveTxnRestorePL) -> &[Box<str>] { &d.removed_fields }
pub fn removed_id(d: &AlterModelRemoveTxnRestorePL) -> &ModelIDRes { &d.model_id }
