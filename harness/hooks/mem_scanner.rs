// hook: server/src/engine/mem/scanner.rs
use super::*;
