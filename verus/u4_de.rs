#![allow(unused_imports, dead_code, unused_mut, unused_variables, unreachable_patterns, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include common.rs
//@include varint_assumed.rs
//@include header_spec.rs
//@include value_spec.rs
//@include libs.rs
pub mod date {
use super::*;
use super::value_spec::*;
use super::header_spec::H;
use super::varint::*;
use super::de_spec::*;
use super::de::{Deserializer, SeqDeserializer};
use super::de_glue::*;
use super::leaf::*;
use super::error::{self, de, Error, Unexpected};
use super::serde::de::{Deserialize, Visitor, Deserializer as _};
use std::io::Read;
broadcast use {group_varint, group_skip};
//@include date_struct.rs
//@consts dlhn/src/date.rs
//@rewrite impl<'de> Deserialize<'de> for $t:ident => impl Deserialize for $t
pub struct DateVisitor;
//@impl dlhn/src/date.rs :: impl<'de> Visitor<'de> for DateVisitor
//@inject
    type Out = L;
    open spec fn out(v: Date) -> L { v.leaf() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(L, nat)> { if count < 2 { None } else { lp(H::Date, s) } }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
//@end
//@impl dlhn/src/date.rs :: impl<'de> Deserialize<'de> for Date
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::Date, s) }
//@fn deserialize
//@sig <D>(deserializer: D) -> Result<Self, D::Error> where D: serde::Deserializer<'de>, => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<Self, Error>
//@end
//@norewrites
}
//@include types.rs
//@include stand_ins.rs
//@include enc.rs
//@include de_spec.rs
//@include de_code.rs
//@include de_glue.rs
//@include de_types.rs
//@include de_format.rs
//@include codec.rs
fn main() {}
}
