// hook: server/src/engine/net/protocol/exchange.rs
use super::*;
