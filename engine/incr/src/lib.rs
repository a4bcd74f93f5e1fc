#![feature(try_trait_v2)]
#![allow(unused, non_camel_case_types, clippy::all)]
#![recursion_limit = "512"]
#[path = "../../streams/src/env.rs"]
pub mod env;
#[path = "../../streams/src/opq.rs"]
pub mod opq;
pub mod roots;
#[path = "../../streams/src/shim.rs"]
pub mod shim;
