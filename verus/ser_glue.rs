/// How the values of the standard library serialize: serde's own code, with the serializer's types for S. Those that
/// the serializer itself uses are assumed: their code would call it back.
pub mod glue {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::ser_spec::*;
use super::ser::*;
use super::serde::{Serialize, AsKey, Shown, ShownAsKey};
use super::enc_spec::*;
use super::serde::ser::Serializer as _;
use std::io::Write;
use vstd::float::FloatBitsProperties;
//@expand @serde_core/src/ser/impls.rs :: primitive_impl
//@expand @serde_core/src/ser/impls.rs :: deref_impl
//@rewrite impl<'a, T> Serialize for &'a T where => impl<'x, T> Serialize for &'x T where
//@rewrite <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for bool
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for i8
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for i16
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for i32
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for i64
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u8
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u16
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u32
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@attr #[verifier::external_body]
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u64
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@attr #[verifier::external_body]
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for f32
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for f64
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for char
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for usize
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@attr #[verifier::external_body]
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for str
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for String
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@attr #[verifier::external_body]
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for ()
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl <'a, T> Serialize for &'a T where T: ?Sized + Serialize
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@norewrites
// The same code once more, with the serializer of keys for S.
//@rewrite impl<'a, T> Serialize for &'a T where => impl<'x, T> AsKey for &'x T where
//@rewrite impl Serialize for => impl AsKey for
//@rewrite (**self).serialize(serializer) => (**self).serialize_key(serializer)
//@rewrite fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for bool
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for i8
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for i16
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for i32
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for i64
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u8
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u16
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u32
//@fn serialize
//@attr #[verifier::external_body]
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u64
//@fn serialize
//@attr #[verifier::external_body]
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for f32
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for f64
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for char
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for usize
//@fn serialize
//@attr #[verifier::external_body]
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for str
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for String
//@fn serialize
//@attr #[verifier::external_body]
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for ()
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl <'a, T> Serialize for &'a T where T: ?Sized + Serialize
//@fn serialize
//@end
//@norewrites
// What is assumed of those that the serializer uses, shown of the code that they have.
//@rewrite impl Serialize for => impl Shown for
//@rewrite fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn shown<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u32
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u64
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for usize
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for String
//@fn serialize
//@end
//@norewrites
//@rewrite impl Serialize for => impl ShownAsKey for
//@rewrite fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn shown<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u32
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for u64
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for usize
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl Serialize for String
//@fn serialize
//@end
//@norewrites
impl Serialize for Bytes {
    fn serialize<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error> { serializer.serialize_bytes(&self.bytes) }
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { serializer.serialize_bytes(&self.bytes) }
}
}
