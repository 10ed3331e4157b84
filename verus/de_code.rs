/// from_le_bytes and other things of the standard library.
pub mod std_spec {
use super::*;
use vstd::pervasive::*;
use super::io_spec::*;
use super::varint::*;
use super::de::Error;
use std::io::Read;
use vstd::float::FloatBitsProperties;
use vstd::utf8::*;
pub trait LeBytes<const N: usize>: Sized {
    spec fn is_le(self, b: Seq<u8>) -> bool;
    fn of_le_bytes(b: [u8; N]) -> (r: Self)
        ensures r.is_le(b@);
}
impl LeBytes<1> for u8 { open spec fn is_le(self, b: Seq<u8>) -> bool { self == b[0] } #[verifier::external_body] fn of_le_bytes(b: [u8; 1]) -> u8 { u8::from_le_bytes(b) } }
impl LeBytes<1> for i8 { open spec fn is_le(self, b: Seq<u8>) -> bool { self == b[0] as i8 } #[verifier::external_body] fn of_le_bytes(b: [u8; 1]) -> i8 { i8::from_le_bytes(b) } }
impl LeBytes<4> for f32 { open spec fn is_le(self, b: Seq<u8>) -> bool { self.to_bits_spec() == unle(b) as u32 } #[verifier::external_body] fn of_le_bytes(b: [u8; 4]) -> f32 { f32::from_le_bytes(b) } }
impl LeBytes<8> for f64 { open spec fn is_le(self, b: Seq<u8>) -> bool { self.to_bits_spec() == unle(b) as u64 } #[verifier::external_body] fn of_le_bytes(b: [u8; 8]) -> f64 { f64::from_le_bytes(b) } }
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]),
        (forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b) ==> r@ == s@;
#[verifier::external_body]
pub fn custom(message: &str) -> Error { unimplemented!() }
#[verifier::external_body]
pub fn first_char(s: &String) -> (r: Option<char>)
    ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None })
{ s.chars().into_iter().next() }
#[verifier::external_body]
pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> r->Ok_0@ == decode_utf8(v@)
{ String::from_utf8(v).or(Err(Error::Read)) }
pub open spec fn added(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a.len() == 0 { b } else { a + b } }
pub broadcast proof fn lemma_cloned(a: u8, b: u8)
    ensures #[trigger] cloned(a, b) ==> a == b
{}
/// take(n).read_to_string(s): what there is, up to n bytes, is added to s if it is UTF-8; that there is less is no error.
#[verifier::external_body]
pub fn take_read_to_string<R: Read>(reader: &mut R, n: u64, s: &mut String) -> (r: std::io::Result<usize>)
    ensures
        (*old(reader)).rest().len() >= n ==> {
            &&& r is Ok <==> valid_utf8((*old(reader)).rest().take(n as int))
            &&& r is Ok ==> r->Ok_0 == n && final(s)@ == added(old(s)@, decode_utf8((*old(reader)).rest().take(n as int)))
                && (*final(reader)).rest() == (*old(reader)).rest().skip(n as int)
        },
        (*old(reader)).rest().len() < n ==> r is Ok ==> r->Ok_0 == (*old(reader)).rest().len(),
{ reader.take(n).read_to_string(s) }
#[verifier::external_body]
pub fn min(a: u64, b: u64) -> (r: u64)
    ensures r == if a <= b { a } else { b }
{ std::cmp::min(a, b) }
/// &mut b[..n]
pub trait PrefixMut {
    spec fn all(&self) -> Seq<u8>;
    fn prefix_mut(&mut self, n: usize) -> (r: &mut [u8])
        requires n <= old(self).all().len()
        ensures r@ == old(self).all().take(n as int), final(self).all() == final(r)@ + old(self).all().skip(n as int),
            final(self).all().take(n as int) == final(r)@, final(self).all().subrange(0, n as int) == final(r)@;
}
impl<const N: usize> PrefixMut for [u8; N] {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn prefix_mut(&mut self, n: usize) -> &mut [u8] { &mut self[..n] }
}
impl PrefixMut for Vec<u8> {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn prefix_mut(&mut self, n: usize) -> &mut [u8] { &mut self[..n] }
}
/// A name, or a reference to one.
pub trait Name { spec fn text(self) -> Seq<char>; fn name(self) -> (r: &'static str) ensures r@ == self.text(); }
impl Name for &'static str { open spec fn text(self) -> Seq<char> { self@ } fn name(self) -> &'static str { self } }
impl<'a> Name for &'a &'static str { open spec fn text(self) -> Seq<char> { (*self)@ } fn name(self) -> &'static str { *self } }
pub fn name<N: Name>(n: N) -> (r: &'static str)
    ensures r@ == n.text()
{ n.name() }
/// vec![0; n], of which n must be bounded, whatever the input.
#[verifier::external_body]
pub fn bounded_zeros(n: usize) -> (r: Vec<u8>)
    requires n <= 65536
    ensures r@.len() == n
{ vec![0; n] }
}
pub mod de {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::header_spec::H;
use super::de_spec::*;
use super::std_spec::*;
use super::zigzag::*;
use super::serde::{self, de, Deserialize, de::{Deserializer as _, Visitor as _, DeserializeSeed, SeqAccess as _, MapAccess as _, EnumAccess as _, VariantAccess as _}};
use std::io::Read;
use std::slice::Iter;
use vstd::std_specs::iter::IteratorSpec;
use vstd::float::FloatBitsProperties;
use vstd::utf8::*;
broadcast use {group_varint, group_skip, lemma_cloned};
//@item dlhn/src/de.rs :: enum Error
//@item dlhn/src/de.rs :: struct Deserializer
//@item dlhn/src/de.rs :: struct SeqDeserializer
//@item dlhn/src/de.rs :: struct MapDeserializer
//@item dlhn/src/de.rs :: struct StructDeserializer
//@item dlhn/src/de.rs :: struct VariantDeserializer
//@rewrite $t:ident::from_le_bytes($b:ident) => <$t>::of_le_bytes($b)
//@rewrite $t:ident::decode_prefix_varint(self.reader).map($c:ident::decode_zigzag) => (match $t::decode_prefix_varint(self.reader) { Ok(v_) => Ok($c::decode_zigzag(v_)), Err(e_) => Err(e_) })
//@rewrite de::Error::custom($m) => custom($m)
//@rewrite String::deserialize(self)?.chars().into_iter().next() => first_char(&String::deserialize(self)?)
//@rewrite String::from_utf8($v).or(Err(Error::Read)) => from_utf8($v)
//@rewrite self.reader.take($n).read_to_string(&mut s) => take_read_to_string(self.reader, $n, &mut s)
//@rewrite &mut $b:ident[..$e] => $b.prefix_mut($e)
//@rewrite (mut self, => (self,
//@rewrite ::new(&mut self => ::new(&mut *self
//@rewrite vec![0; $n] => bounded_zeros($n)
//@rewrite Vec::with_capacity($n) => bounded_vec($n)
//@rewrite String::with_capacity($n) => bounded_string($n)
//@rewrite $v:ident.reserve($n) => $v.bounded_reserve($n)
//@rewrite $v:ident.reserve_exact($n) => $v.bounded_reserve($n)
//@rewrite .map(Some) => .some_()
//@rewrite seed.deserialize(&mut *self.deserializer).some_() => (match seed.deserialize(&mut *self.deserializer) { Ok(v_) => Ok(Some(v_)), Err(e_) => Err(e_) })
//@rewrite Some(&$k:ident) => Some($k)
//@rewrite seed.deserialize(serde::de::value::BorrowedStrDeserializer::new($k)).some_() => (match seed.deserialize_name(name($k)) { Ok(v_) => Ok(Some(v_)), Err(e_) => Err(e_) })
//@rewrite visitor.visit_map(StructDeserializer::new(self, fields)) => visitor.visit_struct(StructDeserializer::new(self, fields))
impl<'de, R: Read> Deserializer<'de, R> {
    /// What the reader has left.
    pub open spec fn rest(&self) -> Seq<u8> { (*self.reader).rest() }
}
//@impl dlhn/src/de.rs :: impl<'de, R: Read> Deserializer<'de, R>
//@fn new
    ensures *r.reader == *old($1), *final(r.reader) == *final($1)
//@end
//@impl dlhn/src/de.rs :: impl<'a, 'de: 'a, R: Read> SeqDeserializer<'a, 'de, R>
//@fn new
    ensures r.count == $2, *r.deserializer == *old($1), *final(r.deserializer) == *final($1)
//@end
//@impl dlhn/src/de.rs :: impl<'a, 'de: 'a, R: Read> MapDeserializer<'a, 'de, R>
//@fn new
    ensures r.count == $2, *r.deserializer == *old($1), *final(r.deserializer) == *final($1)
//@end
//@impl dlhn/src/de.rs :: impl<'a, 'de: 'a, R: Read> StructDeserializer<'a, 'de, R>
//@inject
    /// The names of the fields still to come.
    #[verifier::prophetic]
    pub closed spec fn names(&self) -> Seq<Seq<char>> { Seq::new(self.keys.remaining().len(), |i: int| (*self.keys.remaining()[i])@) }
//@fn new
    ensures r.names() == names_of($2@), *r.deserializer == *old($1), *final(r.deserializer) == *final($1)
//@end
//@impl dlhn/src/de.rs :: impl<'de, 'a, R: Read> VariantDeserializer<'de, 'a, R>
//@fn new
    ensures *r.de == *old($1), *final(r.de) == *final($1)
//@end
//@impl dlhn/src/de.rs :: impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R>
//@fn deserialize_any
    ensures r is Err
//@fn deserialize_bool
    ensures took::<V, R>(*old(self), *final(self), match lp(H::Bool, old(self).rest()) { Some((L::Bool(v), n)) => with($1.on_bool(v), n), _ => None }, r)
//@fn deserialize_i8
    ensures took::<V, R>(*old(self), *final(self), match lp(H::I8, old(self).rest()) { Some((L::I8(v), n)) => with($1.on_i8(v), n), _ => None }, r)
//@fn deserialize_i16
    ensures took::<V, R>(*old(self), *final(self), match lp(H::I16, old(self).rest()) { Some((L::I16(v), n)) => with($1.on_i16(v), n), _ => None }, r)
//@fn deserialize_i32
    ensures took::<V, R>(*old(self), *final(self), match lp(H::I32, old(self).rest()) { Some((L::I32(v), n)) => with($1.on_i32(v), n), _ => None }, r)
//@fn deserialize_i64
    ensures took::<V, R>(*old(self), *final(self), match lp(H::I64, old(self).rest()) { Some((L::I64(v), n)) => with($1.on_i64(v), n), _ => None }, r)
//@fn deserialize_u8
    ensures took::<V, R>(*old(self), *final(self), match lp(H::U8, old(self).rest()) { Some((L::U8(v), n)) => with($1.on_u8(v), n), _ => None }, r)
//@fn deserialize_u16
    ensures took::<V, R>(*old(self), *final(self), match lp(H::U16, old(self).rest()) { Some((L::U16(v), n)) => with($1.on_u16(v), n), _ => None }, r)
//@fn deserialize_u32
    ensures took::<V, R>(*old(self), *final(self), match lp(H::U32, old(self).rest()) { Some((L::U32(v), n)) => with($1.on_u32(v), n), _ => None }, r)
//@fn deserialize_u64
    ensures took::<V, R>(*old(self), *final(self), match lp(H::U64, old(self).rest()) { Some((L::U64(v), n)) => with($1.on_u64(v), n), _ => None }, r)
//@fn deserialize_f32
    ensures took::<V, R>(*old(self), *final(self), match lp(H::F32, old(self).rest()) { Some((L::F32(v), n)) => with($1.on_f32(v), n), _ => None }, r)
//@fn deserialize_f64
    ensures took::<V, R>(*old(self), *final(self), match lp(H::F64, old(self).rest()) { Some((L::F64(v), n)) => with($1.on_f64(v), n), _ => None }, r)
//@fn deserialize_char
    ensures took::<V, R>(*old(self), *final(self), match lp(H::Str, old(self).rest()) { Some((L::Str(c), n)) => if c.len() > 0 { with($1.on_char(c[0]), n) } else { None }, _ => None }, r)
//@fn deserialize_str
    ensures took::<V, R>(*old(self), *final(self), match lp(H::Str, old(self).rest()) { Some((L::Str(c), n)) => with($1.on_string(c), n), _ => None }, r)
//@fn deserialize_string
    ensures took::<V, R>(*old(self), *final(self), match lp(H::Str, old(self).rest()) { Some((L::Str(c), n)) => with($1.on_string(c), n), _ => None }, r)
//@fn deserialize_bytes
    ensures took::<V, R>(*old(self), *final(self), match lp(H::Bin, old(self).rest()) { Some((L::Bin(b), n)) => with($1.on_byte_buf(b), n), _ => None }, r)
//@fn deserialize_byte_buf
    ensures took::<V, R>(*old(self), *final(self), match lp(H::Bin, old(self).rest()) { Some((L::Bin(b), n)) => with($1.on_byte_buf(b), n), _ => None }, r)
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost s0 = self.rest();
    let ghost k: nat = match du64(s0) { Some((_, n)) => n, None => 0 };
//@loop 1
    invariant
        pos <= len, result@.len() == pos as nat, buf@.len() == MAX_SIZE, du64(s0) == Some((len, k)),
        k + result@.len() <= s0.len(),
        result@ == s0.subrange(k as int, k + result@.len() as int),
        self.rest() == s0.skip(k + result@.len() as int),
    decreases len - result@.len()
//@fn deserialize_option
    ensures took::<V, R>(*old(self), *final(self), match lp(H::Bool, old(self).rest()) { Some((L::Bool(v), n)) => if v { after(n, $1.on_some(old(self).rest().skip(n as int))) } else { with($1.on_none(), n) }, _ => None }, r)
//@fn deserialize_unit
    ensures took::<V, R>(*old(self), *final(self), with($1.on_unit(), 0), r)
//@fn deserialize_unit_struct
    ensures took::<V, R>(*old(self), *final(self), with($2.on_unit(), 0), r)
//@fn deserialize_newtype_struct
    ensures took::<V, R>(*old(self), *final(self), $2.on_newtype(old(self).rest()), r)
//@fn deserialize_seq
    ensures took::<V, R>(*old(self), *final(self), match du64(old(self).rest()) { Some((c, n)) => after(n, $1.on_seq(c as nat, old(self).rest().skip(n as int))), None => None }, r)
//@fn deserialize_tuple
    ensures took::<V, R>(*old(self), *final(self), $2.on_seq($1 as nat, old(self).rest()), r)
//@fn deserialize_tuple_struct
    ensures took::<V, R>(*old(self), *final(self), $3.on_seq($2 as nat, old(self).rest()), r)
//@fn deserialize_map
    ensures took::<V, R>(*old(self), *final(self), match du64(old(self).rest()) { Some((c, n)) => after(n, $1.on_map(c as nat, old(self).rest().skip(n as int))), None => None }, r)
//@fn deserialize_struct
    ensures took::<V, R>(*old(self), *final(self), $3.on_struct(names_of($2@), old(self).rest()), r)
//@fn deserialize_enum
    ensures took::<V, R>(*old(self), *final(self), $3.on_enum(old(self).rest()), r)
//@fn deserialize_identifier
    ensures took::<V, R>(*old(self), *final(self), match lp(H::U32, old(self).rest()) { Some((L::U32(v), n)) => with($1.on_u32(v), n), _ => None }, r)
//@fn deserialize_ignored_any
    ensures r is Err
//@fn is_human_readable
    ensures !r
//@end
//@impl dlhn/src/de.rs :: impl<'a, 'de: 'a, R: Read> de::SeqAccess<'de> for SeqDeserializer<'a, 'de, R>
//@fn next_element_seed
    ensures
        *final(final(self).deserializer) == *final(old(self).deserializer),
        next_seed::<T, R>(old(self).count as nat, *old(self).deserializer, $1, final(self).count as nat, *final(self).deserializer, r),
//@end
//@impl dlhn/src/de.rs :: impl<'a, 'de: 'a, R: Read> de::MapAccess<'de> for MapDeserializer<'a, 'de, R>
//@fn next_key_seed
    ensures
        *final(final(self).deserializer) == *final(old(self).deserializer),
        next_seed::<K, R>(old(self).count as nat, *old(self).deserializer, $1, final(self).count as nat, *final(self).deserializer, r),
//@fn next_value_seed
    ensures
        *final(final(self).deserializer) == *final(old(self).deserializer),
        final(self).count == old(self).count,
        seeded::<V, R>(*old(self).deserializer, *final(self).deserializer, $1, r),
//@end
//@impl dlhn/src/de.rs :: impl<'a, 'de: 'a, R: Read> de::MapAccess<'de> for StructDeserializer<'a, 'de, R>
//@fn next_key_seed
    ensures
        *final(self).deserializer == *old(self).deserializer,
        *final(final(self).deserializer) == *final(old(self).deserializer),
        if old(self).names().len() == 0 { r is Ok && r->Ok_0 is None && final(self).names().len() == 0 } else {
            &&& final(self).names() == old(self).names().skip(1)
            &&& match $1.on_name(old(self).names()[0]) {
                Some(o) => r is Ok && r->Ok_0 is Some && K::out(r->Ok_0->Some_0) == o,
                None => r is Err,
            }
        },
//@fn next_value_seed
    ensures
        *final(final(self).deserializer) == *final(old(self).deserializer),
        final(self).names() == old(self).names(),
        seeded::<V, R>(*old(self).deserializer, *final(self).deserializer, $1, r),
//@end
//@impl dlhn/src/de.rs :: impl<'de, 'a, R: Read> de::EnumAccess<'de> for VariantDeserializer<'de, 'a, R>
//@fn variant_seed
    ensures
        match $1.parse((*old(self.de)).rest()) {
            Some((o, n)) => r is Ok && V::out(r->Ok_0.0) == o && moved((*old(self.de)).rest(), (*r->Ok_0.1.de).rest(), n)
                && *final(r->Ok_0.1.de) == *final(self.de),
            None => r is Err,
        },
//@end
//@impl dlhn/src/de.rs :: impl<'de, 'a, R: Read> de::VariantAccess<'de> for VariantDeserializer<'de, 'a, R>
//@fn unit_variant
    ensures r is Ok, *final(self.de) == *old(self.de)
//@fn newtype_variant_seed
    ensures seeded::<T, R>(*old(self.de), *final(self.de), $1, r)
//@fn tuple_variant
    ensures took::<V, R>(*old(self.de), *final(self.de), $2.on_seq($1 as nat, (*old(self.de)).rest()), r)
//@fn struct_variant
    ensures took::<V, R>(*old(self.de), *final(self.de), $2.on_struct(names_of($1@), (*old(self.de)).rest()), r)
//@end
//@norewrites
}
