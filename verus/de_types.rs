/// The types of dlhn: their own Deserialize implementations, with the deserializer's types for D and A.
pub mod error {
pub use super::de::Error;
/// What serde's Error trait makes: an error.
pub enum Unexpected { Seq }
pub mod de {
pub struct Error;
impl Error {
    #[verifier::external_body]
    pub fn invalid_value(unexpected: super::Unexpected, expected: &super::Error) -> super::Error { unimplemented!() }
}
}
}
pub mod octets {
use super::*;
use super::varint::*;
use super::value_spec::*;
use super::header_spec::H;
use super::de_spec::*;
use super::de_glue::*;
use super::leaf::*;
use super::serde::de::Deserialize;
/// count octets.
pub proof fn lemma_octets(count: nat, s: Seq<u8>)
    ensures many::<u8>(count, s) == if count <= s.len() { Some((s.take(count as int).map_values(|b: u8| L::U8(b)), count)) } else { None }
    decreases count
{
    if count > 0 {
        lemma_octets((count - 1) as nat, s);
        if count <= s.len() {
            assert(s.skip(count - 1)[0] == s[count - 1]);
            assert(s.take(count as int).map_values(|b: u8| L::U8(b)) =~= s.take(count - 1).map_values(|b: u8| L::U8(b)).push(L::U8(s[count - 1])));
        }
    } else {
        assert(s.take(0).map_values(|b: u8| L::U8(b)) =~= seq![]);
    }
}
/// A byte vector holds what a length and that many bytes hold.
pub proof fn lemma_byte_vec(s: Seq<u8>)
    ensures match pblob(s) {
        Some((b, n)) => <Vec<u8>>::parse(s) == Some((b.map_values(|b: u8| L::U8(b)), n)),
        None => <Vec<u8>>::parse(s) is None,
    }
{
    broadcast use group_varint;
    if let Some((c, k)) = du64(s) {
        lemma_octets(c as nat, s.skip(k as int));
        if k + c <= s.len() { assert(s.skip(k as int).take(c as int) =~= s.subrange(k as int, k + c)); }
    }
}
pub proof fn lemma_same_octets(v: Vec<u8>, b: Seq<u8>)
    requires v.out() == b.map_values(|b: u8| L::U8(b))
    ensures v@ == b
{
    let o = v.out();
    assert(o.len() == v@.len());
    assert forall|i: int| 0 <= i < b.len() implies v@[i] == b[i] by { assert(o[i] == L::U8(v@[i])); assert(o[i] == L::U8(b[i])); }
    assert(v@ =~= b);
}
}
pub mod de_types {
use super::*;
use super::octets::*;
use super::varint::*;
use super::value_spec::*;
use super::header_spec::H;
use super::de_spec::*;
use super::de::{Deserializer, SeqDeserializer};
use super::de_glue::*;
use super::leaf::*;
use super::error::{self, de, Error, Unexpected};
use super::big::*; use super::date_time::*;
use super::serde::de::{Deserialize, Visitor, Deserializer as _};
use std::io::Read;
broadcast use {group_varint, group_skip};
//@rewrite impl<'de> Deserialize<'de> for $t:ident => impl Deserialize for $t
pub struct BigUintVisitor;
//@impl dlhn/src/big_uint.rs :: impl<'de> Visitor<'de> for BigUintVisitor
//@inject
    type Out = L;
    open spec fn out(v: BigUint) -> L { v.leaf() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(L, nat)> { if count == 0 { None } else { lp(H::BigUint, s) } }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    proof { lemma_byte_vec(s); if let Some((b, n)) = pblob(s) { assert forall|v: Vec<u8>| v.out() == b.map_values(|b: u8| L::U8(b)) implies #[trigger] v@ == b by { lemma_same_octets(v, b); } } }
//@end
//@impl dlhn/src/big_uint.rs :: impl<'de> Deserialize<'de> for BigUint
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::BigUint, s) }
//@fn deserialize
//@sig <D>(deserializer: D) -> Result<Self, D::Error> where D: serde::Deserializer<'de>, => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<Self, Error>
//@end
pub struct BigIntVisitor;
//@impl dlhn/src/big_int.rs :: impl<'de> Visitor<'de> for BigIntVisitor
//@inject
    type Out = L;
    open spec fn out(v: BigInt) -> L { v.leaf() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(L, nat)> { if count == 0 { None } else { lp(H::BigInt, s) } }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    proof { lemma_byte_vec(s); if let Some((b, n)) = pblob(s) { assert forall|v: Vec<u8>| v.out() == b.map_values(|b: u8| L::U8(b)) implies #[trigger] v@ == b by { lemma_same_octets(v, b); } } }
//@end
//@impl dlhn/src/big_int.rs :: impl<'de> Deserialize<'de> for BigInt
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::BigInt, s) }
//@fn deserialize
//@sig <D>(deserializer: D) -> Result<Self, D::Error> where D: serde::Deserializer<'de>, => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<Self, Error>
//@end
pub struct BigDecimalVisitor;
//@impl dlhn/src/big_decimal.rs :: impl<'de> Visitor<'de> for BigDecimalVisitor
//@inject
    type Out = L;
    open spec fn out(v: BigDecimal) -> L { v.leaf() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(L, nat)> { 
        if count >= 2 { lp(H::BigDecimal, s) } else if count == 0 { None } else {
            match pblob(s) { Some((b, n)) => if b.len() == 0 { Some((L::BigDecimal(b, 0), n)) } else { None }, None => None }
        }
     }
//@fn expecting
//@skip
//@fn visit_seq
//@sig <A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>, => <'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Self::Value, Error>
//@start
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    proof { lemma_byte_vec(s); if let Some((b, n)) = pblob(s) { assert forall|v: Vec<u8>| v.out() == b.map_values(|b: u8| L::U8(b)) implies #[trigger] v@ == b by { lemma_same_octets(v, b); } } }
//@end
//@impl dlhn/src/big_decimal.rs :: impl<'de> Deserialize<'de> for BigDecimal
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::BigDecimal, s) }
//@fn deserialize
//@sig <D>(deserializer: D) -> Result<Self, D::Error> where D: serde::Deserializer<'de>, => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<Self, Error>
//@end
//@norewrites
//@derive_deserialize dlhn/src/date_time.rs :: DateTime
    type Whole = L;
    open spec fn of(a: L, b: L) -> L { match (a, b) { (L::I64(t), L::U32(n)) => L::DateTime(t, n), _ => L::Bool(false) } }
    open spec fn whole(self) -> L { self.leaf() }
//@end
impl Deserialize for DateTime {
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::DateTime, s) }
    fn deserialize<'de, R: Read>(d: &mut Deserializer<'de, R>) -> Result<Self, Error> { deserialize_derived::<Self, R>("DateTime", d) }
}
}
