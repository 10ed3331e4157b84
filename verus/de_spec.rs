/// What stands for the serde crate: what a visitor does with what it is given is up to its type, as on_bool() and so on;
/// what a type decodes to is parse(). Which of these a type of the standard library has is what serde documents.
pub mod serde {
use super::*;
pub use self::de::Deserialize;
pub mod de {
use super::*;
use super::super::io_spec::*;
use super::super::de_spec::*;
use crate::de::{Deserializer as Real, Error, SeqDeserializer, MapDeserializer, StructDeserializer, VariantDeserializer};
use std::io::Read;
use vstd::float::FloatBitsProperties;
pub trait Deserialize: Sized {
    type Out;
    spec fn out(self) -> Self::Out;
    /// The value that the bytes start with, and how many of them it takes.
    spec fn parse(s: Seq<u8>) -> Option<(Self::Out, nat)>;
    fn deserialize<'de, R: Read>(d: &mut Real<'de, R>) -> (r: Result<Self, Error>)
        ensures
            match Self::parse(old(d).rest()) {
                Some((o, n)) => r is Ok && r->Ok_0.out() == o && moved((*old(d)).rest(), (*final(d)).rest(), n),
                None => r is Err,
            };
}
pub trait DeserializeSeed<'de>: Sized {
    type Value;
    type Out;
    spec fn out(v: Self::Value) -> Self::Out;
    spec fn parse(self, s: Seq<u8>) -> Option<(Self::Out, nat)>;
    fn deserialize<R: Read>(self, d: &mut Real<'de, R>) -> (r: Result<Self::Value, Error>)
        ensures
            match self.parse(old(d).rest()) {
                Some((o, n)) => r is Ok && Self::out(r->Ok_0) == o && moved((*old(d)).rest(), (*final(d)).rest(), n),
                None => r is Err,
            };
    /// Given the name of a field, by way of BorrowedStrDeserializer.
    spec fn on_name(self, name: Seq<char>) -> Option<Self::Out>;
    fn deserialize_name(self, name: &'static str) -> (r: Result<Self::Value, Error>)
        ensures match self.on_name(name@) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err };
}
/// A visitor: a method that a type does not have makes an error, as serde's own.
pub trait Visitor<'de>: Sized {
    type Value;
    type Out;
    spec fn out(v: Self::Value) -> Self::Out;
    open spec fn on_bool(self, v: bool) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>)
        ensures match self.on_bool(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_i8(self, v: i8) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>)
        ensures match self.on_i8(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_i16(self, v: i16) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>)
        ensures match self.on_i16(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_i32(self, v: i32) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>)
        ensures match self.on_i32(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_i64(self, v: i64) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>)
        ensures match self.on_i64(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_u8(self, v: u8) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>)
        ensures match self.on_u8(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_u16(self, v: u16) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>)
        ensures match self.on_u16(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_u32(self, v: u32) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>)
        ensures match self.on_u32(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_u64(self, v: u64) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>)
        ensures match self.on_u64(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_f32(self, bits: u32) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>)
        ensures match self.on_f32(v.to_bits_spec()) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_f64(self, bits: u64) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>)
        ensures match self.on_f64(v.to_bits_spec()) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_char(self, v: char) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>)
        ensures match self.on_char(v) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_string(self, v: Seq<char>) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_string(self, v: String) -> (r: Result<Self::Value, Error>)
        ensures match self.on_string(v@) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_byte_buf(self, v: Seq<u8>) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, Error>)
        ensures match self.on_byte_buf(v@) { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_unit(self) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_unit(self) -> (r: Result<Self::Value, Error>)
        ensures match self.on_unit() { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_none(self) -> Option<Self::Out> { None }
    #[verifier::external_body]
    fn visit_none(self) -> (r: Result<Self::Value, Error>)
        ensures match self.on_none() { Some(o) => r is Ok && Self::out(r->Ok_0) == o, None => r is Err }
    { unimplemented!() }
    open spec fn on_some(self, s: Seq<u8>) -> Option<(Self::Out, nat)> { None }
    #[verifier::external_body]
    fn visit_some<R: Read>(self, d: &mut Real<'de, R>) -> (r: Result<Self::Value, Error>)
        ensures
            match self.on_some(old(d).rest()) {
                Some((o, n)) => r is Ok && Self::out(r->Ok_0) == o && moved((*old(d)).rest(), (*final(d)).rest(), n),
                None => r is Err,
            }
    { unimplemented!() }
    open spec fn on_newtype(self, s: Seq<u8>) -> Option<(Self::Out, nat)> { None }
    #[verifier::external_body]
    fn visit_newtype_struct<R: Read>(self, d: &mut Real<'de, R>) -> (r: Result<Self::Value, Error>)
        ensures
            match self.on_newtype(old(d).rest()) {
                Some((o, n)) => r is Ok && Self::out(r->Ok_0) == o && moved((*old(d)).rest(), (*final(d)).rest(), n),
                None => r is Err,
            }
    { unimplemented!() }
    /// At most count elements that start with s.
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(Self::Out, nat)> { None }
    #[verifier::external_body]
    fn visit_seq<'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> (r: Result<Self::Value, Error>)
        ensures
            match self.on_seq(seq.count as nat, (*old(seq.deserializer)).rest()) {
                Some((o, n)) => r is Ok && Self::out(r->Ok_0) == o && moved((*old(seq.deserializer)).rest(), (*final(seq.deserializer)).rest(), n),
                None => r is Err,
            }
    { unimplemented!() }
    /// At most count entries that start with s.
    open spec fn on_map(self, count: nat, s: Seq<u8>) -> Option<(Self::Out, nat)> { None }
    #[verifier::external_body]
    fn visit_map<'a, R: Read>(self, map: MapDeserializer<'a, 'de, R>) -> (r: Result<Self::Value, Error>)
        ensures
            match self.on_map(map.count as nat, (*old(map.deserializer)).rest()) {
                Some((o, n)) => r is Ok && Self::out(r->Ok_0) == o && moved((*old(map.deserializer)).rest(), (*final(map.deserializer)).rest(), n),
                None => r is Err,
            }
    { unimplemented!() }
    /// The values of these fields, that start with s.
    open spec fn on_struct(self, fields: Seq<Seq<char>>, s: Seq<u8>) -> Option<(Self::Out, nat)> { None }
    #[verifier::external_body]
    fn visit_struct<'a, R: Read>(self, map: StructDeserializer<'a, 'de, R>) -> (r: Result<Self::Value, Error>)
        ensures
            match self.on_struct(map.names(), (*old(map.deserializer)).rest()) {
                Some((o, n)) => r is Ok && Self::out(r->Ok_0) == o && moved((*old(map.deserializer)).rest(), (*final(map.deserializer)).rest(), n),
                None => r is Err,
            }
    { unimplemented!() }
    /// A variant and what it holds, that start with s.
    open spec fn on_enum(self, s: Seq<u8>) -> Option<(Self::Out, nat)> { None }
    #[verifier::external_body]
    fn visit_enum<'a, R: Read>(self, e: VariantDeserializer<'de, 'a, R>) -> (r: Result<Self::Value, Error>)
        ensures
            match self.on_enum((*old(e.de)).rest()) {
                Some((o, n)) => r is Ok && Self::out(r->Ok_0) == o && moved((*old(e.de)).rest(), (*final(e.de)).rest(), n),
                None => r is Err,
            }
    { unimplemented!() }
}
pub trait Deserializer<'de>: Sized {
    type Error;
    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_i8<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_i64<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_u64<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_unit_struct<V>(self, name: &'static str, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_newtype_struct<V>(self, name: &'static str, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_tuple_struct<V>(self, name: &'static str, len: usize, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_map<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_struct<V>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_enum<V>(self, name: &'static str, variants: &'static [&'static str], visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn is_human_readable(&self) -> bool { true }
}
pub trait SeqAccess<'de>: Sized {
    type Error;
    fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> where T: DeserializeSeed<'de>;
//@defaults @serde_core/src/de/mod.rs :: SeqAccess
//@only
//@fn size_hint
//@end
}
pub trait MapAccess<'de>: Sized {
    type Error;
    fn next_key_seed<K>(&mut self, seed: K) -> Result<Option<K::Value>, Self::Error> where K: DeserializeSeed<'de>;
    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value, Self::Error> where V: DeserializeSeed<'de>;
//@defaults @serde_core/src/de/mod.rs :: MapAccess
//@only
//@fn size_hint
//@end
}
pub trait EnumAccess<'de>: Sized {
    type Error;
    type Variant;
    fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant), Self::Error> where V: DeserializeSeed<'de>;
}
pub trait VariantAccess<'de>: Sized {
    type Error;
    fn unit_variant(self) -> Result<(), Self::Error>;
    fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error> where T: DeserializeSeed<'de>;
    fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn struct_variant<V>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
}
}
}
pub mod de_spec {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::header_spec::H;
use super::de::{Deserializer, Error};
use super::serde::de::{Visitor, DeserializeSeed};
use std::io::Read;

/// n bytes were taken.
pub open spec fn moved(b: Seq<u8>, a: Seq<u8>, n: nat) -> bool { n <= b.len() && a == b.skip(n as int) }
pub broadcast proof fn lemma_skip_none<T>(s: Seq<T>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_skip_take<T>(s: Seq<T>, a: int, n: int)
    requires 0 <= a, 0 <= n, a + n <= s.len()
    ensures #[trigger] s.skip(a).take(n) == s.subrange(a, a + n)
{ assert(s.skip(a).take(n) =~= s.subrange(a, a + n)); }
pub broadcast group group_skip { lemma_skip_none, lemma_skip_take, vstd::seq_lib::lemma_seq_skip_of_skip }
/// A value was taken from the front of b, and what the visitor does with it was done.
pub open spec fn took<'de, V: Visitor<'de>, R: Read>(b: Deserializer<'de, R>, a: Deserializer<'de, R>, e: Option<(V::Out, nat)>, r: Result<V::Value, Error>) -> bool {
    match e {
        Some((o, n)) => r is Ok && V::out(r->Ok_0) == o && moved(b.rest(), a.rest(), n),
        None => r is Err,
    }
}
pub open spec fn seeded<'de, S: DeserializeSeed<'de>, R: Read>(b: Deserializer<'de, R>, a: Deserializer<'de, R>, seed: S, r: Result<S::Value, Error>) -> bool {
    match seed.parse(b.rest()) {
        Some((o, n)) => r is Ok && S::out(r->Ok_0) == o && moved(b.rest(), a.rest(), n),
        None => r is Err,
    }
}
/// The next of count parts.
pub open spec fn next_seed<'de, S: DeserializeSeed<'de>, R: Read>(count: nat, b: Deserializer<'de, R>, seed: S, count2: nat, a: Deserializer<'de, R>, r: Result<Option<S::Value>, Error>) -> bool {
    if count == 0 { r is Ok && r->Ok_0 is None && count2 == 0 && a == b } else {
        &&& count2 == count - 1
        &&& match seed.parse(b.rest()) {
            Some((o, n)) => r is Ok && r->Ok_0 is Some && S::out(r->Ok_0->Some_0) == o && moved(b.rest(), a.rest(), n),
            None => r is Err,
        }
    }
}
/// What follows a part of n bytes.
pub open spec fn after<T>(n: nat, e: Option<(T, nat)>) -> Option<(T, nat)> {
    match e { Some((o, k)) => Some((o, n + k)), None => None }
}
/// What is made of a value of n bytes.
pub open spec fn with<T>(o: Option<T>, n: nat) -> Option<(T, nat)> {
    match o { Some(o) => Some((o, n)), None => None }
}
pub open spec fn names_of(keys: Seq<&'static str>) -> Seq<Seq<char>> { Seq::new(keys.len(), |i: int| keys[i]@) }
}
