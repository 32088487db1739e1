// hook: server/src/engine/idx/mtchm/mod.rs
use super::*;
