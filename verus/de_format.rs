/// The field-attribute modules: what they decode.
pub mod de_format {
use super::*;
pub mod date {
use super::super::*;
use super::super::octets::*; use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*;
use super::super::header_spec::H; use super::super::de_spec::*; use super::super::de::{Deserializer, SeqDeserializer};
use super::super::de_glue::*; use super::super::leaf::*; use super::super::outside::*; use super::super::numbers::*;
use super::super::error::{self, de, Error, Unexpected};
use super::super::serde::de::{Deserialize, Visitor, Deserializer as _};
use std::io::Read;
use super::super::time::Date; use super::super::time;
broadcast use {group_varint, group_skip};
//@consts dlhn/src/format/date.rs
pub struct DateVisitor;
//@impl dlhn/src/format/date.rs :: impl<'de> Visitor<'de> for DateVisitor
//@inject
    type Out = (i32, u16);
    open spec fn out(v: Date) -> (i32, u16) { (v.y, v.o) }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((i32, u16), nat)> { if count < 2 { None } else { date_at(s) } }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
//@end
//@fns dlhn/src/format/date.rs
//@fn serialize
//@skip
//@fn deserialize
    ensures match date_at(old(deserializer).rest()) {
        Some((o, n)) => r is Ok && DateVisitor::out(r->Ok_0) == o && moved(old(deserializer).rest(), final(deserializer).rest(), n),
        None => r is Err,
    }
//@sig <'de, T: Deserializer<'de>>(deserializer: T) -> Result<Date, T::Error> => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<Date, Error>
//@end
}
pub mod date_time {
use super::super::*;
use super::super::octets::*; use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*;
use super::super::header_spec::H; use super::super::de_spec::*; use super::super::de::{Deserializer, SeqDeserializer};
use super::super::de_glue::*; use super::super::leaf::*; use super::super::outside::*; use super::super::numbers::*;
use super::super::error::{self, de, Error, Unexpected};
use super::super::serde::de::{Deserialize, Visitor, Deserializer as _};
use std::io::Read;
use super::super::time::{OffsetDateTime, NumericalDuration, Duration};
broadcast use {group_varint, group_skip};
//@consts dlhn/src/format/date_time.rs
pub struct OffsetDateTimeVisitor;
//@impl dlhn/src/format/date_time.rs :: impl<'de> Visitor<'de> for OffsetDateTimeVisitor
//@inject
    type Out = int;
    open spec fn out(v: OffsetDateTime) -> int { v.instant() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(int, nat)> { if count < 2 { None } else { date_time_at(s) } }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
//@end
//@fns dlhn/src/format/date_time.rs
//@fn serialize
//@skip
//@fn deserialize
    ensures match date_time_at(old(deserializer).rest()) {
        Some((o, n)) => r is Ok && OffsetDateTimeVisitor::out(r->Ok_0) == o && moved(old(deserializer).rest(), final(deserializer).rest(), n),
        None => r is Err,
    }
//@sig <'de, T: Deserializer<'de>>(deserializer: T) -> Result<OffsetDateTime, T::Error> => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<OffsetDateTime, Error>
//@end
}
pub mod big_uint {
use super::super::*;
use super::super::octets::*; use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*;
use super::super::header_spec::H; use super::super::de_spec::*; use super::super::de::{Deserializer, SeqDeserializer};
use super::super::de_glue::*; use super::super::leaf::*; use super::super::outside::*; use super::super::numbers::*;
use super::super::error::{self, de, Error, Unexpected};
use super::super::serde::de::{Deserialize, Visitor, Deserializer as _};
use std::io::Read;
use super::super::num_bigint::BigUint;
broadcast use {group_varint, group_skip};
//@consts dlhn/src/format/big_uint.rs
pub struct BigUintVisitor;
//@impl dlhn/src/format/big_uint.rs :: impl<'de> Visitor<'de> for BigUintVisitor
//@inject
    type Out = nat;
    open spec fn out(v: BigUint) -> nat { v.v@ }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(nat, nat)> { if count < 1 { None } else { uint_at(s) } }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    proof { lemma_byte_vec(s); if let Some((b, n)) = pblob(s) { assert forall|v: Vec<u8>| v.out() == b.map_values(|b: u8| L::U8(b)) implies #[trigger] v@ == b by { lemma_same_octets(v, b); } } }
//@end
//@fns dlhn/src/format/big_uint.rs
//@fn serialize
//@skip
//@fn deserialize
    ensures match uint_at(old(deserializer).rest()) {
        Some((o, n)) => r is Ok && BigUintVisitor::out(r->Ok_0) == o && moved(old(deserializer).rest(), final(deserializer).rest(), n),
        None => r is Err,
    }
//@sig <'de, T: Deserializer<'de>>(deserializer: T) -> Result<BigUint, T::Error> => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<BigUint, Error>
//@end
}
pub mod big_int {
use super::super::*;
use super::super::octets::*; use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*;
use super::super::header_spec::H; use super::super::de_spec::*; use super::super::de::{Deserializer, SeqDeserializer};
use super::super::de_glue::*; use super::super::leaf::*; use super::super::outside::*; use super::super::numbers::*;
use super::super::error::{self, de, Error, Unexpected};
use super::super::serde::de::{Deserialize, Visitor, Deserializer as _};
use std::io::Read;
use super::super::num_bigint::BigInt;
broadcast use {group_varint, group_skip};
//@consts dlhn/src/format/big_int.rs
pub struct BigIntVisitor;
//@impl dlhn/src/format/big_int.rs :: impl<'de> Visitor<'de> for BigIntVisitor
//@inject
    type Out = int;
    open spec fn out(v: BigInt) -> int { v.v@ }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(int, nat)> { if count < 1 { None } else { int_at(s) } }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    proof { lemma_byte_vec(s); if let Some((b, n)) = pblob(s) { assert forall|v: Vec<u8>| v.out() == b.map_values(|b: u8| L::U8(b)) implies #[trigger] v@ == b by { lemma_same_octets(v, b); } } }
//@end
//@fns dlhn/src/format/big_int.rs
//@fn serialize
//@skip
//@fn deserialize
    ensures match int_at(old(deserializer).rest()) {
        Some((o, n)) => r is Ok && BigIntVisitor::out(r->Ok_0) == o && moved(old(deserializer).rest(), final(deserializer).rest(), n),
        None => r is Err,
    }
//@sig <'de, T: Deserializer<'de>>(deserializer: T) -> Result<BigInt, T::Error> => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<BigInt, Error>
//@end
}
pub mod big_decimal {
use super::super::*;
use super::super::octets::*; use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*;
use super::super::header_spec::H; use super::super::de_spec::*; use super::super::de::{Deserializer, SeqDeserializer};
use super::super::de_glue::*; use super::super::leaf::*; use super::super::outside::*; use super::super::numbers::*;
use super::super::error::{self, de, Error, Unexpected};
use super::super::serde::de::{Deserialize, Visitor, Deserializer as _};
use std::io::Read;
use super::super::num_bigint::BigInt; use super::super::bigdecimal::BigDecimal;
broadcast use {group_varint, group_skip};
//@consts dlhn/src/format/big_decimal.rs
pub struct BigDecimalVisitor;
//@impl dlhn/src/format/big_decimal.rs :: impl<'de> Visitor<'de> for BigDecimalVisitor
//@inject
    type Out = (int, i64);
    open spec fn out(v: BigDecimal) -> (int, i64) { (v.d@, v.s) }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((int, i64), nat)> {
        if count >= 2 { decimal_at(s) } else if count == 0 { None } else {
            match pblob(s) { Some((b, n)) => if b.len() == 0 { Some(((0, 0i64), n)) } else { None }, None => None }
        }
    }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    proof { lemma_byte_vec(s); if let Some((b, n)) = pblob(s) { assert forall|v: Vec<u8>| v.out() == b.map_values(|b: u8| L::U8(b)) implies #[trigger] v@ == b by { lemma_same_octets(v, b); } } }
//@end
//@fns dlhn/src/format/big_decimal.rs
//@fn serialize
//@skip
//@fn deserialize
    ensures match decimal_at(old(deserializer).rest()) {
        Some((o, n)) => r is Ok && BigDecimalVisitor::out(r->Ok_0) == o && moved(old(deserializer).rest(), final(deserializer).rest(), n),
        None => r is Err,
    }
//@sig <'de, T: Deserializer<'de>>(deserializer: T) -> Result<BigDecimal, T::Error> => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<BigDecimal, Error>
//@end
}
}
