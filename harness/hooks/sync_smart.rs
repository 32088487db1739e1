// hook: server/src/engine/sync/smart.rs
use super::*;

#[cfg(kani)]
mod k {
    use super::*;
    pub type RowLock = parking_lot::RwLock<crate::engine::core::index::RowData>;
    /// typed memory for a row's shared data (the encoder tracks constants through typed memory only)
    pub struct RowMem(RawRCData<RowLock>);
    impl RowMem {
        pub fn new() -> Self { Self(RawRCData { rc: AtomicUsize::new(0), data: crate::engine::core::index::skyverif::row_empty() }) }
        /// rows created from now on (one at a time) live here
        pub fn install(&mut self) { unsafe { MEM = &mut self.0 } }
    }
    static mut MEM: *mut RawRCData<RowLock> = ::core::ptr::null_mut();
    /// stands in for `RawRC::new`
    pub unsafe fn rc_new<T>(data: T) -> RawRC<T> {
        let p: *mut RawRCData<T> = if mem::size_of::<T>() == mem::size_of::<RowLock>() {
            MEM as *mut RawRCData<T>
        } else {
            Box::into_raw(Box::new(mem::MaybeUninit::<RawRCData<T>>::uninit())) as *mut RawRCData<T>
        };
        ::core::ptr::write(p, RawRCData { rc: AtomicUsize::new(1), data });
        RawRC { rc_data: NonNull::new_unchecked(p) }
    }
}
#[cfg(kani)]
pub use k::*;
