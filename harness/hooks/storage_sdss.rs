// hook: server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs
use super::*;
