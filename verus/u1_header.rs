#![allow(unused_imports, dead_code, unused_mut, unused_variables, unreachable_patterns, non_snake_case)]
use vstd::prelude::*;
verus! {
//@include common.rs
//@include varint_assumed.rs
//@include header_spec.rs
//@include header_code.rs
fn main() {}
}
