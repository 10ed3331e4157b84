#![allow(unused_imports, dead_code, unused_mut, unused_variables, unreachable_patterns, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include common.rs
//@include varint_assumed.rs
//@include header_spec.rs
//@include value_spec.rs
//@include libs.rs
//@include convert.rs
//@include types.rs
//@include convert_lemmas.rs
fn main() {}
}
