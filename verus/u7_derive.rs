#![allow(unused_imports, dead_code, unused_mut, unused_variables, unreachable_patterns, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include common.rs
//@include varint_code.rs CRATE=dlhn_derive
//@include header_spec.rs
//@include derive_libs.rs
//@include derive_spec.rs
//@include derive_code.rs
fn main() {}
}
