/// How the types of the standard library deserialize: serde's own code, verified against the deserializer's contracts.
/// Those that the deserializer itself uses are assumed, as their code calls it back, and shown on a copy. Below it, what
/// serde's derive generates, written by hand.
pub mod de_glue {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::header_spec::H;
use super::de_spec::*;
use super::de::*;
use super::leaf::*;
use super::date::*; use super::date_time::*; use super::big::*; use super::btree::*; use super::stand_ins::*;
use super::serde::de::{Deserialize, DeserializeSeed, Deserializer as _, Visitor, SeqAccess as _, MapAccess as _, EnumAccess as _, VariantAccess as _};
use std::io::Read;
use std::marker::PhantomData;
use vstd::float::FloatBitsProperties;
broadcast use {group_varint, group_skip};

//@include serde_de.rs
//@rewrite impl<'de, T> DeserializeSeed<'de> for PhantomData<T> where T: Deserialize, => impl<'de, T: Deserialize> DeserializeSeed<'de> for PhantomData<T>
//@impl @serde_core/src/de/mod.rs :: impl<'de, T> DeserializeSeed<'de> for PhantomData<T> where T: Deserialize<'de>,
//@inject
    type Out = T::Out;
    open spec fn out(v: T) -> T::Out { v.out() }
    open spec fn parse(self, s: Seq<u8>) -> Option<(T::Out, nat)> { T::parse(s) }
    open spec fn on_name(self, name: Seq<char>) -> Option<T::Out> { None }
    #[verifier::external_body]
    fn deserialize_name(self, name: &'static str) -> Result<T, Error> { unimplemented!() }
//@fn deserialize
//@sig <D>(self, deserializer: D) -> Result<T, D::Error> where D: Deserializer<'de>, => <R: Read>(self, deserializer: &mut Deserializer<'de, R>) -> Result<T, Error>
//@end
//@norewrites
/// What stands for core::cmp and core::mem there.
pub mod cmp {
use super::*;
pub fn min(a: usize, b: usize) -> (r: usize)
    ensures r == if b < a { b } else { a }
{ if b < a { b } else { a } }
}
pub mod mem { pub use std::mem::size_of; }
/// serde's bound on what a length that the bytes claim reserves.
pub mod size_hint {
use super::*;
use super::{cmp, mem};
/// What n elements of z bytes take.
pub open spec fn bytes(n: nat, z: nat) -> nat { n * z }
proof fn lemma_reserved(z: nat)
    ensures forall|n: nat| n == 0 || (z > 0 && n <= 1048576nat / z) ==> #[trigger] bytes(n, z) <= 1048576
{
    assert forall|n: nat| n == 0 || (z > 0 && n <= 1048576nat / z) implies #[trigger] bytes(n, z) <= 1048576 by {
        if n > 0 { assert(n * z <= 1048576) by (nonlinear_arith) requires z > 0, n <= 1048576nat / z; }
    }
}
//@fns @serde_core/src/private/size_hint.rs
//@only
//@fn cautious
    ensures bytes(r as nat, vstd::layout::size_of::<Element>()) <= 1024 * 1024
//@start
    proof { lemma_reserved(vstd::layout::size_of::<Element>()); }
//@end
}

//@include serde_de.rs
//@expand @serde_core/src/de/impls.rs :: impl_deserialize_num
//@private_item @serde_core/src/de/impls.rs :: struct UnitVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for UnitVisitor
//@inject
    type Out = ();
    open spec fn out(v: ()) -> () { v }
    open spec fn on_unit(self) -> Option<()> { Some(()) }
//@only
//@fn visit_unit
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for ()
//@inject
    type Out = ();
    open spec fn out(self) -> () { self }
    open spec fn parse(s: Seq<u8>) -> Option<((), nat)> { Some(((), 0)) }
//@only
//@fn deserialize
//@end
//@private_item @serde_core/src/de/impls.rs :: struct BoolVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for BoolVisitor
//@inject
    type Out = L;
    open spec fn out(v: bool) -> L { v.leaf() }
    open spec fn on_bool(self, v: bool) -> Option<L> { Some(L::Bool(v)) }
//@only
//@fn visit_bool
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for bool
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::Bool, s) }
//@only
//@fn deserialize
//@attr #[verifier::external_body]
//@end
//@hoist U8 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for u8
//@private_item @serde_core/src/de/impls.rs :: struct U8PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for U8PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: u8) -> L { v.leaf() }
    open spec fn on_u8(self, v: u8) -> Option<L> { Some(L::U8(v)) }
//@only
//@fn visit_u8
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for u8
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::U8, s) }
//@only
//@fn deserialize
//@end
//@hoist U16 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for u16
//@private_item @serde_core/src/de/impls.rs :: struct U16PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for U16PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: u16) -> L { v.leaf() }
    open spec fn on_u16(self, v: u16) -> Option<L> { Some(L::U16(v)) }
//@only
//@fn visit_u16
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for u16
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::U16, s) }
//@only
//@fn deserialize
//@end
//@hoist U32 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for u32
//@private_item @serde_core/src/de/impls.rs :: struct U32PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for U32PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: u32) -> L { v.leaf() }
    open spec fn on_u32(self, v: u32) -> Option<L> { Some(L::U32(v)) }
//@only
//@fn visit_u32
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for u32
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::U32, s) }
//@only
//@fn deserialize
//@end
//@hoist U64 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for u64
//@private_item @serde_core/src/de/impls.rs :: struct U64PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for U64PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: u64) -> L { v.leaf() }
    open spec fn on_u64(self, v: u64) -> Option<L> { Some(L::U64(v)) }
//@only
//@fn visit_u64
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for u64
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::U64, s) }
//@only
//@fn deserialize
//@end
//@hoist I8 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for i8
//@private_item @serde_core/src/de/impls.rs :: struct I8PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for I8PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: i8) -> L { v.leaf() }
    open spec fn on_i8(self, v: i8) -> Option<L> { Some(L::I8(v)) }
//@only
//@fn visit_i8
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for i8
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::I8, s) }
//@only
//@fn deserialize
//@end
//@hoist I16 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for i16
//@private_item @serde_core/src/de/impls.rs :: struct I16PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for I16PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: i16) -> L { v.leaf() }
    open spec fn on_i16(self, v: i16) -> Option<L> { Some(L::I16(v)) }
//@only
//@fn visit_i16
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for i16
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::I16, s) }
//@only
//@fn deserialize
//@end
//@hoist I32 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for i32
//@private_item @serde_core/src/de/impls.rs :: struct I32PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for I32PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: i32) -> L { v.leaf() }
    open spec fn on_i32(self, v: i32) -> Option<L> { Some(L::I32(v)) }
//@only
//@fn visit_i32
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for i32
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::I32, s) }
//@only
//@fn deserialize
//@end
//@hoist I64 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for i64
//@private_item @serde_core/src/de/impls.rs :: struct I64PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for I64PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: i64) -> L { v.leaf() }
    open spec fn on_i64(self, v: i64) -> Option<L> { Some(L::I64(v)) }
//@only
//@fn visit_i64
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for i64
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::I64, s) }
//@only
//@fn deserialize
//@end
//@hoist F32 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for f32
//@private_item @serde_core/src/de/impls.rs :: struct F32PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for F32PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: f32) -> L { v.leaf() }
    open spec fn on_f32(self, bits: u32) -> Option<L> { Some(L::F32(bits)) }
//@only
//@fn visit_f32
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for f32
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::F32, s) }
//@only
//@fn deserialize
//@end
//@hoist F64 @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for f64
//@private_item @serde_core/src/de/impls.rs :: struct F64PrimitiveVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for F64PrimitiveVisitor
//@inject
    type Out = L;
    open spec fn out(v: f64) -> L { v.leaf() }
    open spec fn on_f64(self, bits: u64) -> Option<L> { Some(L::F64(bits)) }
//@only
//@fn visit_f64
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for f64
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::F64, s) }
//@only
//@fn deserialize
//@end
//@private_item @serde_core/src/de/impls.rs :: struct CharVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for CharVisitor
//@inject
    type Out = char;
    open spec fn out(v: char) -> char { v }
    open spec fn on_char(self, v: char) -> Option<char> { Some(v) }
//@only
//@fn visit_char
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for char
//@inject
    type Out = char;
    open spec fn out(self) -> char { self }
    open spec fn parse(s: Seq<u8>) -> Option<(char, nat)> {
        match lp(H::Str, s) { Some((L::Str(c), n)) => if c.len() > 0 { Some((c[0], n)) } else { None }, _ => None }
    }
//@only
//@fn deserialize
//@end
//@private_item @serde_core/src/de/impls.rs :: struct StringVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de> Visitor<'de> for StringVisitor
//@inject
    type Out = L;
    open spec fn out(v: String) -> L { v.leaf() }
    open spec fn on_string(self, v: Seq<char>) -> Option<L> { Some(L::Str(v)) }
//@only
//@fn visit_string
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for String
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::Str, s) }
//@only
//@fn deserialize
//@attr #[verifier::external_body]
//@end
/// The code of bool's and String's implementations, which are assumed above, again.
pub trait Shown: Sized {
    type Out;
    spec fn out(self) -> Self::Out;
    spec fn parse(s: Seq<u8>) -> Option<(Self::Out, nat)>;
    fn deserialize<'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> (r: Result<Self, Error>)
        ensures
            match Self::parse(old(deserializer).rest()) {
                Some((o, n)) => r is Ok && r->Ok_0.out() == o && moved((*old(deserializer)).rest(), (*final(deserializer)).rest(), n),
                None => r is Err,
            };
}
//@rewrite impl Deserialize for => impl Shown for
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for bool
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::Bool, s) }
//@only
//@fn deserialize
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de> Deserialize<'de> for String
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::Str, s) }
//@only
//@fn deserialize
//@end
//@norewrites
/// serde_bytes::ByteBuf.
//@include serde_de.rs
//@rewrite <T: Into<Vec<u8>>>(bytes: T) => (bytes: Vec<u8>)
//@rewrite bytes.into() => bytes
//@private_item @serde_bytes/src/bytebuf.rs :: struct ByteBufVisitor
//@impl @serde_bytes/src/bytebuf.rs :: impl ByteBuf
//@only
//@fn from
    ensures r.bytes == bytes
//@end
//@impl @serde_bytes/src/bytebuf.rs :: impl<'de> Visitor<'de> for ByteBufVisitor
//@inject
    type Out = L;
    open spec fn out(v: ByteBuf) -> L { v.leaf() }
    open spec fn on_byte_buf(self, v: Seq<u8>) -> Option<L> { Some(L::Bin(v)) }
//@only
//@fn visit_byte_buf
//@sig <E>(self, v: Vec<u8>) -> Result<ByteBuf, E> where E: Error, => (self, v: Vec<u8>) -> Result<ByteBuf, Error>
//@end
//@impl @serde_bytes/src/bytebuf.rs :: impl<'de> Deserialize<'de> for ByteBuf
//@inject
    type Out = L;
    open spec fn out(self) -> L { self.leaf() }
    open spec fn parse(s: Seq<u8>) -> Option<(L, nat)> { lp(H::Bin, s) }
//@only
//@fn deserialize
//@sig <D>(deserializer: D) -> Result<ByteBuf, D::Error> where D: Deserializer<'de>, => <'de, R: Read>(deserializer: &mut Deserializer<'de, R>) -> Result<Self, Error>
//@end
//@norewrites
//@include serde_de.rs
//@private_item @serde_core/src/de/impls.rs :: struct OptionVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T> Visitor<'de> for OptionVisitor<T> where T: Deserialize<'de>,
//@inject
    type Out = Option<T::Out>;
    open spec fn out(v: Option<T>) -> Option<T::Out> { v.out() }
    open spec fn on_none(self) -> Option<Option<T::Out>> { Some(None) }
    open spec fn on_some(self, s: Seq<u8>) -> Option<(Option<T::Out>, nat)> { match T::parse(s) { Some((o, n)) => Some((Some(o), n)), None => None } }
//@only
//@fn visit_none
//@fn visit_some
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T> Deserialize<'de> for Option<T> where T: Deserialize<'de>,
//@inject
    type Out = Option<T::Out>;
    open spec fn out(self) -> Option<T::Out> { match self { Some(x) => Some(x.out()), None => None } }
    open spec fn parse(s: Seq<u8>) -> Option<(Option<T::Out>, nat)> {
        match lp(H::Bool, s) {
            Some((L::Bool(v), n)) => if !v { Some((None, n)) } else {
                match T::parse(s.skip(n as int)) { Some((o, m)) => Some((Some(o), n + m)), None => None }
            },
            _ => None,
        }
    }
//@only
//@fn deserialize
//@end
//@expand @serde_core/src/de/impls.rs :: forwarded_impl
//@impl @serde_core/src/de/impls.rs :: impl<'de, T: Deserialize<'de>,> Deserialize<'de> for Box<T>
//@inject
    type Out = T::Out;
    open spec fn out(self) -> T::Out { (*self).out() }
    open spec fn parse(s: Seq<u8>) -> Option<(T::Out, nat)> { T::parse(s) }
//@only
//@fn deserialize
//@end
//@norewrites
/// count values, one after another.
pub open spec fn many<T: Deserialize>(count: nat, s: Seq<u8>) -> Option<(Seq<T::Out>, nat)>
    decreases count
{
    if count == 0 { Some((seq![], 0)) } else {
        match many::<T>((count - 1) as nat, s) {
            Some((v, n)) => match T::parse(s.skip(n as int)) { Some((o, m)) => Some((v.push(o), n + m)), None => None },
            None => None,
        }
    }
}
pub proof fn lemma_many_fails<T: Deserialize>(k: nat, count: nat, s: Seq<u8>)
    requires k <= count, many::<T>(k, s) is None
    ensures many::<T>(count, s) is None
    decreases count
{ if k < count { lemma_many_fails::<T>(k, (count - 1) as nat, s); } }
/// One more.
pub open spec fn many_one<T: Deserialize>(count: nat, s: Seq<u8>) -> Option<(Seq<T::Out>, nat)> {
    match many::<T>(count, s) {
        Some((v, n)) => match T::parse(s.skip(n as int)) { Some((o, m)) => Some((v.push(o), n + m)), None => None },
        None => None,
    }
}
pub proof fn lemma_many<T: Deserialize>(count: nat, s: Seq<u8>)
    ensures many::<T>(count + 1, s) == many_one::<T>(count, s), many::<T>(0, s) == Some((Seq::<T::Out>::empty(), 0nat))
{}
pub proof fn lemma_no_outs<T: Deserialize>(v: Seq<T>)
    requires v.len() == 0
    ensures outs(v) == Seq::<T::Out>::empty()
{ assert(outs(v) =~= seq![]); }
pub proof fn lemma_outs<T: Deserialize>(v: Seq<T>, w: Seq<T>, x: T)
    requires w == v.push(x)
    ensures outs(w) == outs(v).push(x.out())
{ assert(outs(w) =~= outs(v).push(x.out())); }
pub open spec fn outs<T: Deserialize>(v: Seq<T>) -> Seq<T::Out> { v.map_values(|x: T| x.out()) }
//@include serde_de.rs
//@rewrite Vec::<T>::with_capacity($e) => reserve::<T>($e)
//@hoist Vec @serde_core/src/de/impls.rs :: impl<'de, T> Deserialize<'de> for Vec<T> where T: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct VecVecVisitor
/// Vec::with_capacity, which wants a bound on what it reserves.
pub fn reserve<T>(capacity: usize) -> (r: Vec<T>)
    requires size_hint::bytes(capacity as nat, vstd::layout::size_of::<T>()) <= 1024 * 1024
    ensures r@.len() == 0
{ Vec::with_capacity(capacity) }
//@impl @serde_core/src/de/impls.rs :: impl<'de, T> Visitor<'de> for VecVecVisitor<T> where T: Deserialize<'de>,
//@inject
    type Out = Seq<T::Out>;
    open spec fn out(v: Vec<T>) -> Seq<T::Out> { outs(v@) }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(Seq<T::Out>, nat)> { many::<T>(count, s) }
//@only
//@fn visit_seq
//@attr #[verifier::loop_isolation(false)]
//@start
    hide(many);
    hide(outs);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    let ghost end = *final(seq.deserializer);
//@before 1
    proof { lemma_many::<T>(0, s); lemma_no_outs(values@); if seq.count > 0 && many::<T>(1, s) is None { lemma_many_fails::<T>(1, count, s); } }
//@loop 1
    invariant
        seq.count <= count, *final(seq.deserializer) == end,
        values@.len() == count - seq.count,
        many::<T>((count - seq.count) as nat, s) matches Some((o, n)) && outs(values@) == o && moved(s, (*seq.deserializer).rest(), n),
        many::<T>((count - seq.count) as nat + 1, s) == many_one::<T>((count - seq.count) as nat, s),
        seq.count > 0 && many::<T>((count - seq.count) as nat + 1, s) is None ==> many::<T>(count, s) is None,
    decreases seq.count
//@loopbody 1
    let ghost v0 = values@;
//@loopend 1
    proof {
        let k = (count - seq.count) as nat;
        lemma_many::<T>(k, s);
        lemma_outs(v0, values@, values@.last());
        if seq.count > 0 && many::<T>(k + 1, s) is None { lemma_many_fails::<T>(k + 1, count, s); }
    }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T> Deserialize<'de> for Vec<T> where T: Deserialize<'de>,
//@inject
    type Out = Seq<T::Out>;
    open spec fn out(self) -> Seq<T::Out> { outs(self@) }
    open spec fn parse(s: Seq<u8>) -> Option<(Seq<T::Out>, nat)> {
        match du64(s) { Some((c, n)) => after(n, many::<T>(c as nat, s.skip(n as int))), None => None }
    }
//@only
//@fn deserialize
//@end
//@norewrites
/// One value and then another.
pub open spec fn two<A: Deserialize, B: Deserialize>(s: Seq<u8>) -> Option<((A::Out, B::Out), nat)> {
    match A::parse(s) {
        Some((a, n)) => match B::parse(s.skip(n as int)) { Some((b, m)) => Some(((a, b), n + m)), None => None },
        None => None,
    }
}
//@include de_tuples.rs
/// The entries of a map, put in one after another.
pub open spec fn entries<V: Deserialize>(count: nat, s: Seq<u8>) -> Option<(Seq<(Seq<char>, V::Out)>, nat)>
    decreases count
{
    if count == 0 { Some((seq![], 0)) } else {
        match entries::<V>((count - 1) as nat, s) {
            Some((e, n)) => match lp(H::Str, s.skip(n as int)) {
                Some((L::Str(k), m)) => match V::parse(s.skip((n + m) as int)) {
                    Some((o, j)) => Some((put(e, firsts(e), k, (k, o)), n + m + j)),
                    None => None,
                },
                _ => None,
            },
            None => None,
        }
    }
}
pub open spec fn firsts<T>(m: Seq<(Seq<char>, T)>) -> Seq<Seq<char>> { Seq::new(m.len(), |i: int| m[i].0) }
pub proof fn lemma_entries_fails<V: Deserialize>(k: nat, count: nat, s: Seq<u8>)
    requires k <= count, entries::<V>(k, s) is None
    ensures entries::<V>(count, s) is None
    decreases count
{ if k < count { lemma_entries_fails::<V>(k, (count - 1) as nat, s); } }
pub open spec fn out_entries<V: Deserialize>(v: Seq<(String, V)>) -> Seq<(Seq<char>, V::Out)> { v.map_values(|x: (String, V)| (x.0@, x.1.out())) }
proof fn lemma_place_bound(keys: Seq<Seq<char>>, k: Seq<char>)
    ensures place(keys, k) <= keys.len()
    decreases keys.len()
{ if keys.len() > 0 { lemma_place_bound(keys.drop_last(), k); } }
proof fn lemma_inserted<V: Deserialize>(m: BTreeMap<String, V>, m2: BTreeMap<String, V>, key: String, value: V)
    requires inserted(m, m2, key, value)
    ensures ({
        let e = out_entries(m.entries@);
        out_entries(m2.entries@) == put(e, firsts(e), key@, (key@, value.out()))
    })
{
    let e = out_entries(m.entries@);
    assert(firsts(e) =~= m.keys());
    lemma_place_bound(m.keys(), key@);
    assert(out_entries(m2.entries@) =~= put(e, firsts(e), key@, (key@, value.out())));
}
pub proof fn lemma_no_entries<V: Deserialize>(s: Seq<u8>)
    ensures entries::<V>(0, s) == Some((Seq::<(Seq<char>, V::Out)>::empty(), 0nat))
{}
/// One entry more.
pub open spec fn entry<V: Deserialize>(count: nat, s: Seq<u8>) -> Option<(Seq<(Seq<char>, V::Out)>, nat)> {
    match entries::<V>(count, s) {
        Some((e, n)) => match lp(H::Str, s.skip(n as int)) {
            Some((L::Str(k), m)) => match V::parse(s.skip((n + m) as int)) {
                Some((o, j)) => Some((put(e, firsts(e), k, (k, o)), n + m + j)),
                None => None,
            },
            _ => None,
        },
        None => None,
    }
}
pub proof fn lemma_entry<V: Deserialize>(count: nat, s: Seq<u8>)
    ensures entries::<V>(count + 1, s) == entry::<V>(count, s)
{}
//@include serde_de.rs
//@expand @serde_core/src/de/impls.rs :: map_impl
//@hoist Tree @serde_core/src/de/impls.rs :: impl<'de, K, V> Deserialize<'de> for BTreeMap<K, V> where K: Deserialize<'de> + Ord, V: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct TreeMapVisitor
//@rewrite impl<'de, K, V> Visitor<'de> for TreeMapVisitor<K, V> where K: Deserialize + Ord, V: Deserialize, => impl<'de, V> Visitor<'de> for TreeMapVisitor<String, V> where V: Deserialize,
//@rewrite impl<'de, K, V> Deserialize for BTreeMap<K, V> where K: Deserialize + Ord, V: Deserialize, => impl<V> Deserialize for BTreeMap<String, V> where V: Deserialize,
//@rewrite type Value = BTreeMap<K, V> => type Value = BTreeMap<String, V>
//@impl @serde_core/src/de/impls.rs :: impl<'de, K, V> Visitor<'de> for TreeMapVisitor<K, V> where K: Deserialize<'de> + Ord, V: Deserialize<'de>,
//@inject
    type Out = Seq<(Seq<char>, V::Out)>;
    open spec fn out(v: BTreeMap<String, V>) -> Seq<(Seq<char>, V::Out)> { out_entries(v.entries@) }
    open spec fn on_map(self, count: nat, s: Seq<u8>) -> Option<(Seq<(Seq<char>, V::Out)>, nat)> { entries::<V>(count, s) }
//@only
//@fn visit_map
//@attr #[verifier::loop_isolation(false)]
//@start
    hide(entries);
    let mut map = map;
    proof { lemma_no_entries::<V>((*map.deserializer).rest()); }
    let ghost s = (*map.deserializer).rest();
    let ghost count = map.count as nat;
    let ghost end = *final(map.deserializer);
//@before 1
    proof { lemma_entry::<V>(0, s); assert(out_entries(values.entries@) =~= seq![]); if map.count > 0 && entries::<V>(1, s) is None { lemma_entries_fails::<V>(1, count, s); } }
//@loop 1
    invariant
        map.count <= count, *final(map.deserializer) == end,
        entries::<V>((count - map.count) as nat, s) matches Some((o, n)) && out_entries(values.entries@) == o && moved(s, (*map.deserializer).rest(), n),
        entries::<V>((count - map.count) as nat + 1, s) == entry::<V>((count - map.count) as nat, s),
        map.count > 0 && entries::<V>((count - map.count) as nat + 1, s) is None ==> entries::<V>(count, s) is None,
    decreases map.count
//@loopbody 1
    let ghost v0 = values;
    let ghost key0 = key;
    let ghost value0 = value;
//@loopend 1
    proof {
        let k = (count - map.count) as nat;
        lemma_entry::<V>(k, s);
        lemma_inserted(v0, values, key0, value0);
        if map.count > 0 && entries::<V>(k + 1, s) is None { lemma_entries_fails::<V>(k + 1, count, s); }
    }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, K, V> Deserialize<'de> for BTreeMap<K, V> where K: Deserialize<'de> + Ord, V: Deserialize<'de>,
//@inject
    type Out = Seq<(Seq<char>, V::Out)>;
    open spec fn out(self) -> Seq<(Seq<char>, V::Out)> { out_entries(self.entries@) }
    open spec fn parse(s: Seq<u8>) -> Option<(Seq<(Seq<char>, V::Out)>, nat)> {
        match du64(s) { Some((c, n)) => after(n, entries::<V>(c as nat, s.skip(n as int))), None => None }
    }
//@only
//@fn deserialize
//@end
//@norewrites
/// The entries of a hash map, put in one after another: a later one replaces an earlier one with its key.
pub open spec fn hashed<V: Deserialize>(count: nat, s: Seq<u8>) -> Option<(Map<Seq<char>, V::Out>, nat)>
    decreases count
{
    if count == 0 { Some((Map::empty(), 0)) } else {
        match hashed::<V>((count - 1) as nat, s) {
            Some((e, n)) => match lp(H::Str, s.skip(n as int)) {
                Some((L::Str(k), m)) => match V::parse(s.skip((n + m) as int)) {
                    Some((o, j)) => Some((e.insert(k, o), n + m + j)),
                    None => None,
                },
                _ => None,
            },
            None => None,
        }
    }
}
/// One entry more.
pub open spec fn hashed_one<V: Deserialize>(count: nat, s: Seq<u8>) -> Option<(Map<Seq<char>, V::Out>, nat)> {
    match hashed::<V>(count, s) {
        Some((e, n)) => match lp(H::Str, s.skip(n as int)) {
            Some((L::Str(k), m)) => match V::parse(s.skip((n + m) as int)) {
                Some((o, j)) => Some((e.insert(k, o), n + m + j)),
                None => None,
            },
            _ => None,
        },
        None => None,
    }
}
pub proof fn lemma_hashed<V: Deserialize>(count: nat, s: Seq<u8>)
    ensures hashed::<V>(count + 1, s) == hashed_one::<V>(count, s), hashed::<V>(0, s) == Some((Map::<Seq<char>, V::Out>::empty(), 0nat))
{}
pub proof fn lemma_hashed_fails<V: Deserialize>(k: nat, count: nat, s: Seq<u8>)
    requires k <= count, hashed::<V>(k, s) is None
    ensures hashed::<V>(count, s) is None
    decreases count
{ if k < count { lemma_hashed_fails::<V>(k, (count - 1) as nat, s); } }
pub open spec fn out_held<V: Deserialize>(v: Seq<(String, V)>) -> Map<Seq<char>, V::Out> { held(v).map_values(|x: V| x.out()) }
proof fn lemma_none_held<V: Deserialize>(v: Seq<(String, V)>)
    requires v.len() == 0
    ensures out_held(v) == Map::<Seq<char>, V::Out>::empty()
{ assert(out_held(v) =~= Map::empty()); }
proof fn lemma_held<V: Deserialize>(v: Seq<(String, V)>, w: Seq<(String, V)>, k: Seq<char>, x: V)
    requires held(w) == held(v).insert(k, x)
    ensures out_held(w) == out_held(v).insert(k, x.out())
{ assert(out_held(w) =~= out_held(v).insert(k, x.out())); }
//@include serde_de.rs
//@hoist Hash @serde_core/src/de/impls.rs :: impl<'de, K, V, S> Deserialize<'de> for HashMap<K, V, S> where K: Deserialize<'de> + Eq + Hash, V: Deserialize<'de>, S: BuildHasher + Default
//@rewrite impl<'de, K, V, S> Visitor<'de> for HashMapVisitor<K, V, S> where K: Deserialize + Eq + Hash, V: Deserialize, S: BuildHasher + Default => impl<'de, V> Visitor<'de> for HashMapVisitor<String, V> where V: Deserialize,
//@rewrite impl<'de, K, V, S> Deserialize for HashMap<K, V, S> where K: Deserialize + Eq + Hash, V: Deserialize, S: BuildHasher + Default => impl<V> Deserialize for HashMap<String, V> where V: Deserialize,
//@rewrite type Value = HashMap<K, V, S> => type Value = HashMap<String, V>
//@rewrite cautious::<(K, V)> => cautious::<(String, V)>
//@rewrite HashMap::with_capacity_and_hasher($n, S::default()) => reserve_entries::<V>($n)
/// HashMap::with_capacity_and_hasher, which wants a bound on what it reserves.
#[verifier::external_body]
pub fn reserve_entries<V>(capacity: usize) -> (r: HashMap<String, V>)
    requires size_hint::bytes(capacity as nat, vstd::layout::size_of::<(String, V)>()) <= 1024 * 1024
    ensures r.entries@.len() == 0
{ unimplemented!() }
/// Without the type of the hasher.
pub struct HashMapVisitor<K, V> { marker: PhantomData<HashMap<K, V>> }
//@impl @serde_core/src/de/impls.rs :: impl<'de, K, V, S> Visitor<'de> for HashMapVisitor<K, V, S> where K: Deserialize<'de> + Eq + Hash, V: Deserialize<'de>, S: BuildHasher + Default
//@inject
    type Out = Map<Seq<char>, V::Out>;
    open spec fn out(v: HashMap<String, V>) -> Map<Seq<char>, V::Out> { out_held(v.entries@) }
    open spec fn on_map(self, count: nat, s: Seq<u8>) -> Option<(Map<Seq<char>, V::Out>, nat)> { hashed::<V>(count, s) }
//@only
//@fn visit_map
//@attr #[verifier::loop_isolation(false)]
//@start
    hide(hashed);
    hide(out_held);
    let mut map = map;
    let ghost s = (*map.deserializer).rest();
    let ghost count = map.count as nat;
    let ghost end = *final(map.deserializer);
//@before 1
    proof { lemma_hashed::<V>(0, s); lemma_none_held(values.entries@); if map.count > 0 && hashed::<V>(1, s) is None { lemma_hashed_fails::<V>(1, count, s); } }
//@loop 1
    invariant
        map.count <= count, *final(map.deserializer) == end,
        hashed::<V>((count - map.count) as nat, s) matches Some((o, n)) && out_held(values.entries@) == o && moved(s, (*map.deserializer).rest(), n),
        hashed::<V>((count - map.count) as nat + 1, s) == hashed_one::<V>((count - map.count) as nat, s),
        map.count > 0 && hashed::<V>((count - map.count) as nat + 1, s) is None ==> hashed::<V>(count, s) is None,
    decreases map.count
//@loopbody 1
    let ghost v0 = values;
    let ghost key0 = key;
    let ghost value0 = value;
//@loopend 1
    proof {
        let k = (count - map.count) as nat;
        lemma_hashed::<V>(k, s);
        lemma_held(v0.entries@, values.entries@, key0@, value0);
        if map.count > 0 && hashed::<V>(k + 1, s) is None { lemma_hashed_fails::<V>(k + 1, count, s); }
    }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, K, V, S> Deserialize<'de> for HashMap<K, V, S> where K: Deserialize<'de> + Eq + Hash, V: Deserialize<'de>, S: BuildHasher + Default
//@inject
    type Out = Map<Seq<char>, V::Out>;
    open spec fn out(self) -> Map<Seq<char>, V::Out> { out_held(self.entries@) }
    open spec fn parse(s: Seq<u8>) -> Option<(Map<Seq<char>, V::Out>, nat)> {
        match du64(s) { Some((c, n)) => after(n, hashed::<V>(c as nat, s.skip(n as int))), None => None }
    }
//@only
//@fn deserialize
//@end
//@norewrites

// What serde's derive generates.
pub struct NothingVisitor;
impl<'de> Visitor<'de> for NothingVisitor {
    type Value = Nothing;
    type Out = ();
    open spec fn out(v: Nothing) -> () { () }
    open spec fn on_unit(self) -> Option<()> { Some(()) }
    fn visit_unit(self) -> Result<Nothing, Error> { Ok(Nothing) }
}
impl Deserialize for Nothing {
    type Out = ();
    open spec fn out(self) -> () { () }
    open spec fn parse(s: Seq<u8>) -> Option<((), nat)> { Some(((), 0)) }
    fn deserialize<'de, R: Read>(d: &mut Deserializer<'de, R>) -> Result<Self, Error> { d.deserialize_unit_struct("Nothing", NothingVisitor) }
}
pub struct WrapVisitor<A> { a: PhantomData<A> }
impl<'de, A: Deserialize> Visitor<'de> for WrapVisitor<A> {
    type Value = Wrap<A>;
    type Out = A::Out;
    open spec fn out(v: Wrap<A>) -> A::Out { v.0.out() }
    open spec fn on_newtype(self, s: Seq<u8>) -> Option<(A::Out, nat)> { A::parse(s) }
    fn visit_newtype_struct<R: Read>(self, d: &mut Deserializer<'de, R>) -> Result<Wrap<A>, Error> { Ok(Wrap(A::deserialize(d)?)) }
}
impl<A: Deserialize> Deserialize for Wrap<A> {
    type Out = A::Out;
    open spec fn out(self) -> A::Out { self.0.out() }
    open spec fn parse(s: Seq<u8>) -> Option<(A::Out, nat)> { A::parse(s) }
    fn deserialize<'de, R: Read>(d: &mut Deserializer<'de, R>) -> Result<Self, Error> { d.deserialize_newtype_struct("Wrap", WrapVisitor { a: PhantomData }) }
}
pub struct TwoVisitor<A, B> { a: PhantomData<A>, b: PhantomData<B> }
impl<'de, A: Deserialize, B: Deserialize> Visitor<'de> for TwoVisitor<A, B> {
    type Value = Two<A, B>;
    type Out = (A::Out, B::Out);
    open spec fn out(v: Two<A, B>) -> (A::Out, B::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((A::Out, B::Out), nat)> { if count < 2 { None } else { two::<A, B>(s) } }
    fn visit_seq<'a, R: Read>(self, seq: SeqDeserializer<'a, 'de, R>) -> Result<Two<A, B>, Error> {
        let mut seq = seq;
        let a = match seq.next_element_seed(PhantomData::<A>)? { Some(x) => x, None => { return Err(Error::Read); } };
        let b = match seq.next_element_seed(PhantomData::<B>)? { Some(x) => x, None => { return Err(Error::Read); } };
        Ok(Two(a, b))
    }
}
impl<A: Deserialize, B: Deserialize> Deserialize for Two<A, B> {
    type Out = (A::Out, B::Out);
    open spec fn out(self) -> (A::Out, B::Out) { (self.0.out(), self.1.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((A::Out, B::Out), nat)> { two::<A, B>(s) }
    fn deserialize<'de, R: Read>(d: &mut Deserializer<'de, R>) -> Result<Self, Error> { d.deserialize_tuple_struct("Two", 2, TwoVisitor { a: PhantomData, b: PhantomData }) }
}
/// What serde's derive generates for a struct of two fields: the parts that depend on it.
pub trait Derived: Sized {
    type A: Deserialize;
    type B: Deserialize;
    type Whole;
    spec fn of(a: <Self::A as Deserialize>::Out, b: <Self::B as Deserialize>::Out) -> Self::Whole;
    spec fn whole(self) -> Self::Whole;
    spec fn name_a() -> Seq<char>;
    spec fn name_b() -> Seq<char>;
    proof fn distinct()
        ensures Self::name_a() != Self::name_b();
    fn make(a: Self::A, b: Self::B) -> (r: Self)
        ensures r.whole() == Self::of(a.out(), b.out());
    fn names() -> (r: &'static [&'static str])
        ensures names_of(r@) == seq![Self::name_a(), Self::name_b()];
    fn of_name(name: &'static str) -> (r: Field)
        ensures r == (if name@ == Self::name_a() { Field::A } else if name@ == Self::name_b() { Field::B } else { Field::Ignore });
}
pub open spec fn names_in<T: Derived>() -> Seq<Seq<char>> { seq![T::name_a(), T::name_b()] }
#[derive(Clone, Copy)]
pub enum Field { A, B, Ignore }
pub open spec fn field<T: Derived>(name: Seq<char>) -> Field { if name == T::name_a() { Field::A } else if name == T::name_b() { Field::B } else { Field::Ignore } }
pub struct FieldSeed<T> { t: PhantomData<T> }
impl<'de, T: Derived> DeserializeSeed<'de> for FieldSeed<T> {
    type Value = Field;
    type Out = Field;
    open spec fn out(v: Field) -> Field { v }
    open spec fn parse(self, s: Seq<u8>) -> Option<(Field, nat)> { None }
    #[verifier::external_body]
    fn deserialize<R: Read>(self, d: &mut Deserializer<'de, R>) -> Result<Field, Error> { unimplemented!() }
    open spec fn on_name(self, name: Seq<char>) -> Option<Field> { Some(field::<T>(name)) }
    fn deserialize_name(self, name: &'static str) -> Result<Field, Error> { Ok(T::of_name(name)) }
}
/// The fields that are still to come, with those that were there.
pub open spec fn fields<T: Derived>(names: Seq<Seq<char>>, a: Option<<T::A as Deserialize>::Out>, b: Option<<T::B as Deserialize>::Out>, s: Seq<u8>) -> Option<(T::Whole, nat)>
    decreases names.len()
{
    if names.len() == 0 {
        match (a, b) { (Some(a), Some(b)) => Some((T::of(a, b), 0)), _ => None }
    } else {
        match field::<T>(names[0]) {
            Field::A => if a is Some { None } else {
                match T::A::parse(s) { Some((o, n)) => after(n, fields::<T>(names.skip(1), Some(o), b, s.skip(n as int))), None => None }
            },
            Field::B => if b is Some { None } else {
                match T::B::parse(s) { Some((o, n)) => after(n, fields::<T>(names.skip(1), a, Some(o), s.skip(n as int))), None => None }
            },
            Field::Ignore => None,
        }
    }
}
/// One field and then the other.
pub open spec fn derived<T: Derived>(s: Seq<u8>) -> Option<(T::Whole, nat)> {
    match two::<T::A, T::B>(s) { Some(((a, b), n)) => Some((T::of(a, b), n)), None => None }
}
pub proof fn lemma_fields<T: Derived>(s: Seq<u8>)
    ensures fields::<T>(names_in::<T>(), None, None, s) == derived::<T>(s)
{
    T::distinct();
    let n = names_in::<T>();
    assert(n.skip(1) =~= seq![T::name_b()]);
    assert(n.skip(1).skip(1) =~= seq![]);
    assert(field::<T>(n[0]) == Field::A && field::<T>(n[1]) == Field::B);
    if let Some((o, k)) = T::A::parse(s) {
        let t = s.skip(k as int);
        if let Some((p, m)) = T::B::parse(t) {
            assert(fields::<T>(n.skip(1).skip(1), Some(o), Some(p), t.skip(m as int)) == Some((T::of(o, p), 0nat)));
        }
        assert(fields::<T>(n.skip(1), Some(o), None, t) == match T::B::parse(t) { Some((p, m)) => Some((T::of(o, p), m)), None => None });
    }
}
pub open spec fn maybe<T: Deserialize>(x: Option<T>) -> Option<T::Out> { match x { Some(x) => Some(x.out()), None => None } }
pub struct FieldsVisitor<T> { t: PhantomData<T> }
impl<'de, T: Derived> Visitor<'de> for FieldsVisitor<T> {
    type Value = T;
    type Out = T::Whole;
    open spec fn out(v: T) -> T::Whole { v.whole() }
    open spec fn on_struct(self, names: Seq<Seq<char>>, s: Seq<u8>) -> Option<(T::Whole, nat)> { fields::<T>(names, None, None, s) }
    #[verifier::allow_complex_invariants]
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
    fn visit_struct<'a, R: Read>(self, map: StructDeserializer<'a, 'de, R>) -> Result<T, Error> {
        let mut map = map;
        let mut a: Option<T::A> = None;
        let mut b: Option<T::B> = None;
        let ghost s = (*map.deserializer).rest();
        let ghost mut n: nat = 0;
        let ghost end = *final(map.deserializer);
        let ghost all = fields::<T>(map.names(), None, None, s);
        loop
            invariant_except_break
                *final(map.deserializer) == end, moved(s, (*map.deserializer).rest(), n),
                all == after(n, fields::<T>(map.names(), maybe(a), maybe(b), (*map.deserializer).rest())),
            ensures
                *final(map.deserializer) == end, moved(s, (*map.deserializer).rest(), n),
                all == after(n, fields::<T>(Seq::<Seq<char>>::empty(), maybe(a), maybe(b), (*map.deserializer).rest())),
        {
            let ghost rest = (*map.deserializer).rest();
            match map.next_key_seed(FieldSeed::<T> { t: PhantomData })? {
                None => { assert(fields::<T>(Seq::<Seq<char>>::empty(), maybe(a), maybe(b), rest) == fields::<T>(map.names(), maybe(a), maybe(b), rest)); break; }
                Some(Field::A) => {
                    if a.is_some() { return Err(Error::Read); }
                    a = Some(map.next_value_seed(PhantomData::<T::A>)?);
                    proof { n = n + T::A::parse(rest)->Some_0.1; }
                }
                Some(Field::B) => {
                    if b.is_some() { return Err(Error::Read); }
                    b = Some(map.next_value_seed(PhantomData::<T::B>)?);
                    proof { n = n + T::B::parse(rest)->Some_0.1; }
                }
                Some(Field::Ignore) => { return Err(Error::Read); }
            }
        }
        match (a, b) { (Some(a), Some(b)) => Ok(T::make(a, b)), _ => Err(Error::Read) }
    }
}
pub fn deserialize_derived<'de, T: Derived, R: Read>(name: &'static str, d: &mut Deserializer<'de, R>) -> (r: Result<T, Error>)
    ensures
        match derived::<T>(old(d).rest()) {
            Some((o, n)) => r is Ok && r->Ok_0.whole() == o && moved((*old(d)).rest(), (*final(d)).rest(), n),
            None => r is Err,
        }
{
    proof { lemma_fields::<T>(d.rest()); }
    d.deserialize_struct(name, T::names(), FieldsVisitor::<T> { t: PhantomData })
}
impl<A: Deserialize, B: Deserialize> Derived for Named<A, B> {
    type A = A;
    type B = B;
    type Whole = (A::Out, B::Out);
    open spec fn of(a: A::Out, b: B::Out) -> (A::Out, B::Out) { (a, b) }
    open spec fn whole(self) -> (A::Out, B::Out) { (self.a.out(), self.b.out()) }
    open spec fn name_a() -> Seq<char> { seq!['a'] }
    open spec fn name_b() -> Seq<char> { seq!['b'] }
    proof fn distinct() { assert(Self::name_a()[0] == 'a' && Self::name_b()[0] == 'b'); }
    fn make(a: A, b: B) -> Self { Named { a, b } }
    #[verifier::external_body]
    fn names() -> &'static [&'static str] { &["a", "b"] }
    #[verifier::external_body]
    fn of_name(name: &'static str) -> Field { match name { "a" => Field::A, "b" => Field::B, _ => Field::Ignore } }
}
impl<A: Deserialize, B: Deserialize> Deserialize for Named<A, B> {
    type Out = (A::Out, B::Out);
    open spec fn out(self) -> (A::Out, B::Out) { (self.a.out(), self.b.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((A::Out, B::Out), nat)> { two::<A, B>(s) }
    fn deserialize<'de, R: Read>(d: &mut Deserializer<'de, R>) -> Result<Self, Error> { deserialize_derived::<Self, R>("Named", d) }
}
#[verifier::external_body]
fn variants() -> &'static [&'static str] { &["Nothing", "Wrap", "Two", "Named"] }
pub struct TagVisitor;
impl<'de> Visitor<'de> for TagVisitor {
    type Value = u32;
    type Out = u32;
    open spec fn out(v: u32) -> u32 { v }
    open spec fn on_u32(self, v: u32) -> Option<u32> { if v < 4 { Some(v) } else { None } }
    fn visit_u32(self, v: u32) -> Result<u32, Error> { if v < 4 { Ok(v) } else { Err(Error::Read) } }
}
pub struct TagSeed;
impl<'de> DeserializeSeed<'de> for TagSeed {
    type Value = u32;
    type Out = u32;
    open spec fn out(v: u32) -> u32 { v }
    open spec fn parse(self, s: Seq<u8>) -> Option<(u32, nat)> { match du32(s) { Some((v, n)) => if v < 4 { Some((v, n)) } else { None }, None => None } }
    fn deserialize<R: Read>(self, d: &mut Deserializer<'de, R>) -> Result<u32, Error> { d.deserialize_identifier(TagVisitor) }
    open spec fn on_name(self, name: Seq<char>) -> Option<u32> { None }
    #[verifier::external_body]
    fn deserialize_name(self, name: &'static str) -> Result<u32, Error> { unimplemented!() }
}
pub open spec fn choice<A: Deserialize, B: Deserialize>(s: Seq<u8>) -> Option<(Choice<A::Out, B::Out>, nat)> {
    match du32(s) {
        Some((i, n)) => {
            let t = s.skip(n as int);
            if i == 0 { Some((Choice::Nothing, n)) }
            else if i == 1 { match A::parse(t) { Some((a, m)) => Some((Choice::Wrap(a), n + m)), None => None } }
            else if i == 2 { match two::<A, B>(t) { Some(((a, b), m)) => Some((Choice::Two(a, b), n + m)), None => None } }
            else if i == 3 { match two::<A, B>(t) { Some(((a, b), m)) => Some((Choice::Named { a, b }, n + m)), None => None } }
            else { None }
        },
        None => None,
    }
}
pub struct ChoiceVisitor<A, B> { a: PhantomData<A>, b: PhantomData<B> }
impl<'de, A: Deserialize, B: Deserialize> Visitor<'de> for ChoiceVisitor<A, B> {
    type Value = Choice<A, B>;
    type Out = Choice<A::Out, B::Out>;
    open spec fn out(v: Choice<A, B>) -> Choice<A::Out, B::Out> { v.out() }
    open spec fn on_enum(self, s: Seq<u8>) -> Option<(Choice<A::Out, B::Out>, nat)> { choice::<A, B>(s) }
    fn visit_enum<'a, R: Read>(self, e: VariantDeserializer<'de, 'a, R>) -> Result<Choice<A, B>, Error> {
        let ghost s = (*e.de).rest();
        let (i, variant) = e.variant_seed(TagSeed)?;
        proof { lemma_fields::<Named<A, B>>((*variant.de).rest()); }
        match i {
            0 => { variant.unit_variant()?; Ok(Choice::Nothing) }
            1 => Ok(Choice::Wrap(variant.newtype_variant_seed(PhantomData::<A>)?)),
            2 => { let v = variant.tuple_variant(2, TwoVisitor::<A, B> { a: PhantomData, b: PhantomData })?; Ok(Choice::Two(v.0, v.1)) }
            _ => { let v = variant.struct_variant(<Named::<A, B> as Derived>::names(), FieldsVisitor::<Named<A, B>> { t: PhantomData })?; Ok(Choice::Named { a: v.a, b: v.b }) }
        }
    }
}
impl<A: Deserialize, B: Deserialize> Deserialize for Choice<A, B> {
    type Out = Choice<A::Out, B::Out>;
    open spec fn out(self) -> Choice<A::Out, B::Out> {
        match self {
            Choice::Nothing => Choice::Nothing, Choice::Wrap(a) => Choice::Wrap(a.out()),
            Choice::Two(a, b) => Choice::Two(a.out(), b.out()), Choice::Named { a, b } => Choice::Named { a: a.out(), b: b.out() },
        }
    }
    open spec fn parse(s: Seq<u8>) -> Option<(Choice<A::Out, B::Out>, nat)> { choice::<A, B>(s) }
    fn deserialize<'de, R: Read>(d: &mut Deserializer<'de, R>) -> Result<Self, Error> {
        d.deserialize_enum("Choice", variants(), ChoiceVisitor { a: PhantomData, b: PhantomData })
    }
}
/// What serde's SeqAccess and MapAccess add.
//@rewrite Self::Error => Error
//@rewrite Deserialize<'de> => Deserialize
//@rewrite tri!($e) => $e?
impl<'a, 'de, R: Read> SeqDeserializer<'a, 'de, R> {
//@default @serde_core/src/de/mod.rs :: SeqAccess
//@fn next_element
    ensures
        *final(final(self).deserializer) == *final(old(self).deserializer),
        next_seed::<PhantomData<T>, R>(old(self).count as nat, *old(self).deserializer, PhantomData::<T>, final(self).count as nat, *final(self).deserializer, r),
//@end
}
/// The next of count entries.
pub open spec fn next_both<'de, K: DeserializeSeed<'de>, V: DeserializeSeed<'de>, R: Read>(count: nat, b: Deserializer<'de, R>, kseed: K, vseed: V, count2: nat, a: Deserializer<'de, R>, r: Result<Option<(K::Value, V::Value)>, Error>) -> bool {
    if count == 0 { r is Ok && r->Ok_0 is None && count2 == 0 && a == b } else {
        match kseed.parse(b.rest()) {
            Some((k, n)) => match vseed.parse(b.rest().skip(n as int)) {
                Some((v, m)) => r is Ok && r->Ok_0 is Some && K::out(r->Ok_0->Some_0.0) == k && V::out(r->Ok_0->Some_0.1) == v && moved(b.rest(), a.rest(), n + m) && count2 == count - 1,
                None => r is Err,
            },
            None => r is Err,
        }
    }
}
impl<'a, 'de, R: Read> MapDeserializer<'a, 'de, R> {
//@default @serde_core/src/de/mod.rs :: MapAccess
//@fn next_entry
    ensures
        *final(final(self).deserializer) == *final(old(self).deserializer),
        next_both::<PhantomData<K>, PhantomData<V>, R>(old(self).count as nat, *old(self).deserializer, PhantomData::<K>, PhantomData::<V>, final(self).count as nat, *final(self).deserializer, r),
//@fn next_entry_seed
    ensures
        *final(final(self).deserializer) == *final(old(self).deserializer),
        next_both::<K, V, R>(old(self).count as nat, *old(self).deserializer, $1, $2, final(self).count as nat, *final(self).deserializer, r),
//@end
}
//@norewrites
}
