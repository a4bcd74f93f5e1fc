#![feature(try_trait_v2)]
#![allow(unused, non_camel_case_types, clippy::all)]
#![recursion_limit = "512"]
pub mod env;
pub mod opq;
pub mod roots;
pub mod shim;
