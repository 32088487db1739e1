// hook: server/src/engine/mod.rs
use super::*;
/// the diagnostic context attached to errors is not part of any property
pub fn no_origin() -> Option<super::fractal::context::Subsystem> {
    crate::vp::trap();
    None
}
pub fn no_dmsg() -> Option<super::fractal::context::Dmsg> {
    None
}
pub fn no_set_dmsg(_: impl Into<super::fractal::context::Dmsg>) {}
pub fn no_set_origin(_: super::fractal::context::Subsystem) {}
pub fn no_set(_: super::fractal::context::Subsystem, _: impl Into<super::fractal::context::Dmsg>) {}
pub fn trap_io(e: crate::util::os::SysIOError) -> crate::vstd::io::Error { crate::vp::trap(); ::core::mem::forget(e); crate::vstd::io::Error::from(crate::vstd::io::ErrorKind::InvalidInput) }
