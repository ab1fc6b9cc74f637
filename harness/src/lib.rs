//! entry point for extraction: everything reachable from the `h_*` contracts is verified
#![allow(dead_code)]
pub mod rt;
pub mod contracts;
