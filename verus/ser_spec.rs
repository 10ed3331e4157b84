/// What stands for the serde crate: its traits as this crate implements them. Which methods a value's
/// Serialize implementation calls is what serde documents; that is assumed here, as enc() and key().
pub mod serde {
use super::*;
pub trait Serialize: crate::enc_spec::Enc {
    fn serialize<W: std::io::Write>(&self, serializer: &mut crate::ser::Serializer<W>) -> (r: Result<(), crate::ser::Error>)
        ensures crate::ser_spec::wrote(*old(serializer), *final(serializer), self.enc(), r is Ok);
    fn serialize_key<'a, W: std::io::Write>(&self, serializer: crate::ser::MapKeySerializer<'a, W>) -> (r: Result<(), crate::ser::Error>)
        ensures crate::ser_spec::wrote_key(*old(serializer.ser), *final(serializer.ser), self.key(), r);
}
/// What a Serialize implementation does with the serializer of keys.
pub trait AsKey: crate::enc_spec::Enc {
    fn as_key<'a, W: std::io::Write>(&self, serializer: crate::ser::MapKeySerializer<'a, W>) -> (r: Result<(), crate::ser::Error>)
        ensures crate::ser_spec::wrote_key(*old(serializer.ser), *final(serializer.ser), self.key(), r);
}
/// The same two contracts for the implementations that are assumed above, because the serializer itself uses them.
pub trait Shown: crate::enc_spec::Enc {
    fn shown<W: std::io::Write>(&self, serializer: &mut crate::ser::Serializer<W>) -> (r: Result<(), crate::ser::Error>)
        ensures crate::ser_spec::wrote(*old(serializer), *final(serializer), self.enc(), r is Ok);
}
pub trait ShownAsKey: crate::enc_spec::Enc {
    fn shown<'a, W: std::io::Write>(&self, serializer: crate::ser::MapKeySerializer<'a, W>) -> (r: Result<(), crate::ser::Error>)
        ensures crate::ser_spec::wrote_key(*old(serializer.ser), *final(serializer.ser), self.key(), r);
}
pub mod ser {
use super::*;
pub struct Impossible<A, B> { a: core::marker::PhantomData<(A, B)> }
impl<A, B> Impossible<A, B> {
    /// serde's has a field of a type without values; Verus has no such types.
    #[verifier::type_invariant]
    spec fn no_such_value(&self) -> bool { false }
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq;
    type SerializeTuple;
    type SerializeTupleStruct;
    type SerializeTupleVariant;
    type SerializeMap;
    type SerializeStruct;
    type SerializeStructVariant;
    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error>;
    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error>;
    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error>;
    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error>;
    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error>;
    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error>;
    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error>;
    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error>;
    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error>;
    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error>;
    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error>;
    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error>;
    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error>;
    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error>;
    fn serialize_none(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_some<T: ?Sized>(self, value: &T) -> Result<Self::Ok, Self::Error> where T: Serialize;
    fn serialize_unit(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_unit_struct(self, name: &'static str) -> Result<Self::Ok, Self::Error>;
    fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str) -> Result<Self::Ok, Self::Error>;
    fn serialize_newtype_struct<T: ?Sized>(self, name: &'static str, value: &T) -> Result<Self::Ok, Self::Error> where T: Serialize;
    fn serialize_newtype_variant<T: ?Sized>(self, name: &'static str, variant_index: u32, variant: &'static str, value: &T) -> Result<Self::Ok, Self::Error> where T: Serialize;
    fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error>;
    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error>;
    fn serialize_tuple_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeTupleStruct, Self::Error>;
    fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> Result<Self::SerializeTupleVariant, Self::Error>;
    fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error>;
    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct, Self::Error>;
    fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> Result<Self::SerializeStructVariant, Self::Error>;
    fn is_human_readable(&self) -> bool { true }
}
pub trait SerializeSeq: Sized {
    type Ok; type Error;
    fn serialize_element<T: ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> where T: Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeTuple: Sized {
    type Ok; type Error;
    fn serialize_element<T: ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> where T: Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeTupleStruct: Sized {
    type Ok; type Error;
    fn serialize_field<T: ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> where T: Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeTupleVariant: Sized {
    type Ok; type Error;
    fn serialize_field<T: ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> where T: Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeMap: Sized {
    type Ok; type Error;
    fn serialize_key<T: ?Sized>(&mut self, key: &T) -> Result<(), Self::Error> where T: Serialize;
    fn serialize_value<T: ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> where T: Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeStruct: Sized {
    type Ok; type Error;
    fn serialize_field<T: ?Sized>(&mut self, key: &'static str, value: &T) -> Result<(), Self::Error> where T: Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeStructVariant: Sized {
    type Ok; type Error;
    fn serialize_field<T: ?Sized>(&mut self, key: &'static str, value: &T) -> Result<(), Self::Error> where T: Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
// serde's methods of it are match self.void {}.
impl SerializeSeq for Impossible<(), crate::ser::Error> {
    type Ok = (); type Error = crate::ser::Error;
    fn serialize_element<T: ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> where T: Serialize { proof { use_type_invariant(&*self); } vstd::pervasive::unreached() }
    fn end(self) -> Result<Self::Ok, Self::Error> { proof { use_type_invariant(&self); } vstd::pervasive::unreached() }
}
impl SerializeMap for Impossible<(), crate::ser::Error> {
    type Ok = (); type Error = crate::ser::Error;
    fn serialize_key<T: ?Sized>(&mut self, key: &T) -> Result<(), Self::Error> where T: Serialize { proof { use_type_invariant(&*self); } vstd::pervasive::unreached() }
    fn serialize_value<T: ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> where T: Serialize { proof { use_type_invariant(&*self); } vstd::pervasive::unreached() }
    fn end(self) -> Result<Self::Ok, Self::Error> { proof { use_type_invariant(&self); } vstd::pervasive::unreached() }
}
impl Impossible<(), crate::ser::Error> {
    pub fn serialize_entry<K: ?Sized, V: ?Sized>(&mut self, key: &K, value: &V) -> Result<(), crate::ser::Error> where K: Serialize, V: Serialize { proof { use_type_invariant(&*self); } vstd::pervasive::unreached() }
}
impl SerializeTuple for Impossible<(), crate::ser::Error> {
    type Ok = (); type Error = crate::ser::Error;
    fn serialize_element<T: ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> where T: Serialize { proof { use_type_invariant(&*self); } vstd::pervasive::unreached() }
    fn end(self) -> Result<Self::Ok, Self::Error> { proof { use_type_invariant(&self); } vstd::pervasive::unreached() }
}
}
}
pub mod ser_spec {
use super::*;
use super::enc_spec::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::ser::{Serializer, Error};
use std::io::Write;

/// All bytes of e were accepted, in order, or there is an error: if and only if there is no e, or no room for it.
pub open spec fn wrote<W: Write>(b: Serializer<W>, a: Serializer<W>, e: Option<Seq<u8>>, ok: bool) -> bool {
    &&& ok <==> e is Some && fits(b.output.room(), e->Some_0.len())
    &&& ok ==> a.output.out() =~= b.output.out() + e->Some_0 && a.output.room() == minus(b.output.room(), e->Some_0.len())
}
/// A key: the same for a string, and nothing is written otherwise.
pub open spec fn wrote_key<W: Write>(b: Serializer<W>, a: Serializer<W>, key: Option<Seq<char>>, r: Result<(), Error>) -> bool {
    match key {
        Some(c) => wrote(b, a, Some(lb(L::Str(c))), r is Ok),
        None => a == b && r == Err::<(), Error>(Error::UnsupportedKeyType),
    }
}
/// What was opened goes on with the same serializer, after e.
#[verifier::prophetic]
pub open spec fn opened<W: Write>(b: Serializer<W>, a: Serializer<W>, e: Seq<u8>, r: Result<&mut Serializer<W>, Error>) -> bool {
    &&& r is Ok <==> fits(b.output.room(), e.len())
    &&& r is Ok ==> wrote(b, *r->Ok_0, Some(e), true) && *final(r->Ok_0) == a
}
}
