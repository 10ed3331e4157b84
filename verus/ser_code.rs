/// to_le_bytes of the standard library.
pub mod le_bytes {
use super::*;
use super::varint::*;
use vstd::float::FloatBitsProperties;
pub trait LeBytes<const N: usize>: Sized {
    spec fn le_(self) -> Seq<u8>;
    fn le_bytes(self) -> (r: [u8; N])
        ensures r@ == self.le_();
}
impl LeBytes<1> for u8 { open spec fn le_(self) -> Seq<u8> { seq![self] } #[verifier::external_body] fn le_bytes(self) -> [u8; 1] { self.to_le_bytes() } }
impl LeBytes<1> for i8 { open spec fn le_(self) -> Seq<u8> { seq![self as u8] } #[verifier::external_body] fn le_bytes(self) -> [u8; 1] { self.to_le_bytes() } }
impl LeBytes<4> for f32 { open spec fn le_(self) -> Seq<u8> { le(self.to_bits_spec() as nat, 4) } #[verifier::external_body] fn le_bytes(self) -> [u8; 4] { self.to_le_bytes() } }
impl LeBytes<8> for f64 { open spec fn le_(self) -> Seq<u8> { le(self.to_bits_spec() as nat, 8) } #[verifier::external_body] fn le_bytes(self) -> [u8; 8] { self.to_le_bytes() } }
#[verifier::external_body]
pub fn char_to_string(v: char) -> (r: String)
    ensures r@ == seq![v]
{ v.to_string() }
#[verifier::external_body]
pub fn str_len(v: &str) -> (r: usize)
    ensures r == vstd::utf8::encode_utf8(v@).len()
{ v.len() }
}
pub mod ser {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::ser_spec::*;
use super::enc_spec::*;
use super::serde::{self, Serialize, ser, ser::{Serializer as _, Impossible}};
use super::zigzag::*;
use super::le_bytes::*;
use std::io::Write;
use vstd::float::FloatBitsProperties;
broadcast use group_varint;
//@value U16_BUF dlhn/src/prefix_varint.rs :: impl PrefixVarint<3> for u16 :: PREFIX_VARINT_BUF_SIZE
//@value U32_BUF dlhn/src/prefix_varint.rs :: impl PrefixVarint<5> for u32 :: PREFIX_VARINT_BUF_SIZE
//@value U64_BUF dlhn/src/prefix_varint.rs :: impl PrefixVarint<9> for u64 :: PREFIX_VARINT_BUF_SIZE
//@rewrite u16::PREFIX_VARINT_BUF_SIZE => U16_BUF
//@rewrite u32::PREFIX_VARINT_BUF_SIZE => U32_BUF
//@rewrite u64::PREFIX_VARINT_BUF_SIZE => U64_BUF
//@rewrite v.to_le_bytes() => v.le_bytes()
//@rewrite v.to_string() => char_to_string(v)
//@rewrite (v.len() as u64).serialize(&mut *self)?; self.output.write_all(v.as_bytes()) => (str_len(v) as u64).serialize(&mut *self)?; self.output.write_all(v.as_bytes())
//@rewrite key.serialize(MapKeySerializer::new(self)) => key.serialize_key(MapKeySerializer::new(self))
//@item dlhn/src/ser.rs :: enum Error
//@item dlhn/src/ser.rs :: struct Serializer
//@item dlhn/src/ser.rs :: struct MapKeySerializer
//@impl dlhn/src/ser.rs :: impl<W: Write> Serializer<W>
//@fn new
    ensures r.output == output
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: 'a + Write> MapKeySerializer<'a, W>
//@fn new
    ensures *r.ser == *old(ser), *final(r.ser) == *final(ser)
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W>
//@fn serialize_bool
    ensures wrote(*old(self), *final(self), Some(lb(L::Bool(v))), r is Ok)
//@fn serialize_i8
    ensures wrote(*old(self), *final(self), Some(lb(L::I8(v))), r is Ok)
//@fn serialize_i16
    ensures wrote(*old(self), *final(self), Some(lb(L::I16(v))), r is Ok)
//@fn serialize_i32
    ensures wrote(*old(self), *final(self), Some(lb(L::I32(v))), r is Ok)
//@fn serialize_i64
    ensures wrote(*old(self), *final(self), Some(lb(L::I64(v))), r is Ok)
//@fn serialize_u8
    ensures wrote(*old(self), *final(self), Some(lb(L::U8(v))), r is Ok)
//@fn serialize_u16
    ensures wrote(*old(self), *final(self), Some(lb(L::U16(v))), r is Ok)
//@fn serialize_u32
    ensures wrote(*old(self), *final(self), Some(lb(L::U32(v))), r is Ok)
//@fn serialize_u64
    ensures wrote(*old(self), *final(self), Some(lb(L::U64(v))), r is Ok)
//@fn serialize_f32
    ensures wrote(*old(self), *final(self), Some(lb(L::F32(v.to_bits_spec()))), r is Ok)
//@fn serialize_f64
    ensures wrote(*old(self), *final(self), Some(lb(L::F64(v.to_bits_spec()))), r is Ok)
//@fn serialize_char
    ensures wrote(*old(self), *final(self), Some(lb(L::Str(seq![v]))), r is Ok)
//@fn serialize_str
    ensures wrote(*old(self), *final(self), Some(lb(L::Str(v@))), r is Ok)
//@fn serialize_bytes
    ensures wrote(*old(self), *final(self), Some(lb(L::Bin(v@))), r is Ok)
//@fn serialize_none
    ensures wrote(*old(self), *final(self), Some(seq![0u8]), r is Ok)
//@fn serialize_some
    ensures wrote(*old(self), *final(self), pre(seq![1u8], value.enc()), r is Ok)
//@fn serialize_unit
    ensures wrote(*old(self), *final(self), Some(seq![]), r is Ok)
//@fn serialize_unit_struct
    ensures wrote(*old(self), *final(self), Some(seq![]), r is Ok)
//@fn serialize_unit_variant
    ensures wrote(*old(self), *final(self), Some(vu32(variant_index)), r is Ok)
//@fn serialize_newtype_struct
    ensures wrote(*old(self), *final(self), value.enc(), r is Ok)
//@fn serialize_newtype_variant
    ensures wrote(*old(self), *final(self), pre(vu32(variant_index), value.enc()), r is Ok)
//@fn serialize_seq
    ensures opened(*old(self), *final(self), (match len { Some(n) => vu64(n as u64), None => seq![] }), r)
//@fn serialize_tuple
    ensures opened(*old(self), *final(self), seq![], r)
//@fn serialize_tuple_struct
    ensures opened(*old(self), *final(self), seq![], r)
//@fn serialize_tuple_variant
    ensures opened(*old(self), *final(self), vu32(variant_index), r)
//@fn serialize_map
    ensures opened(*old(self), *final(self), (match len { Some(n) => vu64(n as u64), None => seq![] }), r)
//@fn serialize_struct
    ensures opened(*old(self), *final(self), seq![], r)
//@fn serialize_struct_variant
    ensures opened(*old(self), *final(self), vu32(variant_index), r)
//@fn is_human_readable
    ensures !r
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::SerializeSeq for &'a mut Serializer<W>
//@fn serialize_element
    ensures wrote(**old(self), **final(self), value.enc(), r is Ok), *final(*final(self)) == *final(*old(self))
//@fn end
    ensures r is Ok, *final(self) == *old(self)
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::SerializeTuple for &'a mut Serializer<W>
//@fn serialize_element
    ensures wrote(**old(self), **final(self), value.enc(), r is Ok), *final(*final(self)) == *final(*old(self))
//@fn end
    ensures r is Ok, *final(self) == *old(self)
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::SerializeTupleStruct for &'a mut Serializer<W>
//@fn serialize_field
    ensures wrote(**old(self), **final(self), value.enc(), r is Ok), *final(*final(self)) == *final(*old(self))
//@fn end
    ensures r is Ok, *final(self) == *old(self)
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::SerializeTupleVariant for &'a mut Serializer<W>
//@fn serialize_field
    ensures wrote(**old(self), **final(self), value.enc(), r is Ok), *final(*final(self)) == *final(*old(self))
//@fn end
    ensures r is Ok, *final(self) == *old(self)
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::SerializeStruct for &'a mut Serializer<W>
//@fn serialize_field
    ensures wrote(**old(self), **final(self), value.enc(), r is Ok), *final(*final(self)) == *final(*old(self))
//@fn end
    ensures r is Ok, *final(self) == *old(self)
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::SerializeStructVariant for &'a mut Serializer<W>
//@fn serialize_field
    ensures wrote(**old(self), **final(self), value.enc(), r is Ok), *final(*final(self)) == *final(*old(self))
//@fn end
    ensures r is Ok, *final(self) == *old(self)
//@end
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::SerializeMap for &'a mut Serializer<W>
//@fn serialize_value
    ensures wrote(**old(self), **final(self), value.enc(), r is Ok), *final(*final(self)) == *final(*old(self))
//@fn serialize_key
    ensures wrote_key(**old(self), **final(self), key.key(), r), *final(*final(self)) == *final(*old(self))
//@fn end
    ensures r is Ok, *final(self) == *old(self)
//@end
//@rewrite $v:ident.serialize(self) => $v.serialize_key(self)
//@impl dlhn/src/ser.rs :: impl<'a, W: Write> ser::Serializer for MapKeySerializer<'a, W>
//@fn serialize_bool
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_i8
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_i16
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_i32
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_i64
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_u8
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_u16
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_u32
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_u64
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_f32
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_f64
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_char
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_str
    ensures wrote_key(*old(self.ser), *final(self.ser), Some(v@), r)
//@fn serialize_bytes
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_none
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_some
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_unit
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_unit_struct
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_unit_variant
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_newtype_struct
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_newtype_variant
    ensures wrote_key(*old(self.ser), *final(self.ser), None, r)
//@fn serialize_seq
    ensures r is Err, r->Err_0 == Error::UnsupportedKeyType, *final(self.ser) == *old(self.ser)
//@fn serialize_tuple
    ensures r is Err, r->Err_0 == Error::UnsupportedKeyType, *final(self.ser) == *old(self.ser)
//@fn serialize_tuple_struct
    ensures r is Err, r->Err_0 == Error::UnsupportedKeyType, *final(self.ser) == *old(self.ser)
//@fn serialize_tuple_variant
    ensures r is Err, r->Err_0 == Error::UnsupportedKeyType, *final(self.ser) == *old(self.ser)
//@fn serialize_map
    ensures r is Err, r->Err_0 == Error::UnsupportedKeyType, *final(self.ser) == *old(self.ser)
//@fn serialize_struct
    ensures r is Err, r->Err_0 == Error::UnsupportedKeyType, *final(self.ser) == *old(self.ser)
//@fn serialize_struct_variant
    ensures r is Err, r->Err_0 == Error::UnsupportedKeyType, *final(self.ser) == *old(self.ser)
//@fn is_human_readable
    ensures !r
//@end
//@norewrites
}
