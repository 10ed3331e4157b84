#![allow(unused_imports, dead_code, unused_mut, unused_variables, unreachable_patterns, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include common.rs
//@include varint_assumed.rs
//@include header_spec.rs
//@include value_spec.rs
//@include body_lemmas.rs
pub mod header {
use super::*;
use super::header_spec::*;
//@consts dlhn/src/header/mod.rs
//@item dlhn/src/header/mod.rs :: enum Header
//@include header_view.rs
}
pub mod date {
use super::*;
//@include date_struct.rs
}
//@include types.rs
//@include body_code.rs
fn main() {}
}
