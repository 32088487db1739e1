// hook: server/src/engine/idx/stord/mod.rs
use super::*;
