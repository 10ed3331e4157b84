#![allow(unused_imports, dead_code, unused_mut, unused_variables, unreachable_patterns, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include common.rs
//@include varint_assumed.rs
//@include header_spec.rs
//@include value_spec.rs
//@include libs.rs
//@include types.rs
//@include stand_ins.rs
//@include enc.rs
//@include ser_spec.rs
//@include ser_code.rs
//@include ser_glue.rs
//@include ser_values.rs
//@include ser_types.rs
//@include ser_format.rs
fn main() {}
}
