// The server is a binary crate: its module tree is compiled here from /repo's working tree
// (copied by build.rs at every run, with std's maps and files replaced by models).  Harness
// bodies live in ../hooks and are included by the guarded
// `#[cfg(skyverif)] mod skyverif { include!(..) }` hooks inside /repo's modules.
#![allow(warnings, macro_expanded_macro_exports_accessed_by_absolute_paths)]
#[macro_use]
extern crate log;
#[path = "model/mod.rs"]
pub mod vstd;
#[macro_use]
pub mod vp;
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
type IoResult<T> = std::io::Result<T>;
const SKY_PID_FILE: &str = ".sky_pid";
