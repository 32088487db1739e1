// hook: server/src/engine/core/index/row.rs
use super::*;

/// an empty row's data
#[cfg(kani)]
pub fn empty() -> RwLock<RowData> {
    RwLock::new(RowData {
        fields: DcFieldIndex::with_hasher(HasherNativeFx::new()),
        txn_revised_data: DeltaVersion::genesis(),
        txn_revised_schema_version: DeltaVersion::genesis(),
    })
}
