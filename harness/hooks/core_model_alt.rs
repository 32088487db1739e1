// hook: server/src/engine/core/model/alt.rs
use super::*;
