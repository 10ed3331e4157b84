#![allow(unused_imports, dead_code, unused_mut, unused_variables, unreachable_patterns, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include common.rs
//@include varint_assumed.rs
//@include header_spec.rs
//@include value_spec.rs
//@include body_lemmas.rs
pub mod date {
use super::*;
//@include date_struct.rs
}
//@include types.rs
//@include stand_ins.rs
//@include enc.rs
pub mod header {
use super::*;
use super::header_spec::*;
//@consts dlhn/src/header/mod.rs
//@item dlhn/src/header/mod.rs :: enum Header
//@include header_view.rs
pub mod types {
pub use crate::btree::{BTreeMap, HashMap};
pub use crate::{ByteBuf, Bytes};
pub use crate::date::Date;
pub use crate::date_time::DateTime;
pub use crate::big::{BigDecimal, BigInt, BigUint};
// Types of other crates that have a header, and whose values the format modules write.
pub mod num_bigint { pub struct BigUint(u8); pub struct BigInt(u8); }
pub mod bigdecimal { pub struct BigDecimal(u8); }
pub mod time { pub struct Date(u8); pub struct OffsetDateTime(u8); }
}
//@include header_ser.rs
}
//@include described.rs
fn main() {}
}
