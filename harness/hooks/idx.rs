// hook: server/src/engine/idx/mod.rs
use super::*;
