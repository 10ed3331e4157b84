pub mod date {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::ser_spec::*;
use super::ser::*;
use super::composites::*;
use super::leaf::*;
use super::serde::Serialize;
use super::enc_spec::*;
use super::serde::ser::{SerializeTuple, Serializer as _};
use std::io::Write;
//@include date_struct.rs
//@consts dlhn/src/date.rs
//@impl dlhn/src/date.rs :: impl Serialize for Date
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@sig <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    broadcast use group_varint;
    proof { use_type_invariant(self); }
//@end
//@rewrite impl Serialize for $t:ident => impl $t
//@impl dlhn/src/date.rs :: impl Serialize for Date
//@fn serialize
    ensures wrote_key(*old(serializer.ser), *final(serializer.ser), None, r)
//@sig fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@start
    proof { use_type_invariant(self); }
//@end
//@norewrites
}
/// The types of dlhn: their own Serialize implementations, with the serializer's types for S.
pub mod ser_types {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::ser_spec::*;
use super::ser::*;
use super::composites::*;
use super::leaf::*;
use super::serde::Serialize;
use super::enc_spec::*;
use super::serde::ser::Serializer as _;
use std::io::Write;
use super::date::*; use super::date_time::*; use super::big::*;

#[verifier::external_body]
pub fn is_empty(v: &Vec<u8>) -> (r: bool)
    ensures r == (v@.len() == 0)
{ v.is_empty() }

pub mod seqs {
use super::*;
use super::super::serde::ser::SerializeSeq;
//@rewrite self.signed_bytes == [] => is_empty(&self.signed_bytes)
//@impl dlhn/src/big_uint.rs :: impl Serialize for BigUint
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@sig <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    proof { lemma_bytes(self.0); }
//@end
//@impl dlhn/src/big_int.rs :: impl Serialize for BigInt
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@sig <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    proof { lemma_bytes(self.0); }
//@end
//@impl dlhn/src/big_decimal.rs :: impl Serialize for BigDecimal
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@sig <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    proof { lemma_bytes(self.signed_bytes); }
//@end
//@rewrite impl Serialize for $t:ident => impl $t
//@impl dlhn/src/big_uint.rs :: impl Serialize for BigUint
//@fn serialize
    ensures wrote_key(*old(serializer.ser), *final(serializer.ser), None, r)
//@sig fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@end
//@impl dlhn/src/big_int.rs :: impl Serialize for BigInt
//@fn serialize
    ensures wrote_key(*old(serializer.ser), *final(serializer.ser), None, r)
//@sig fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@end
//@impl dlhn/src/big_decimal.rs :: impl Serialize for BigDecimal
//@fn serialize
    ensures wrote_key(*old(serializer.ser), *final(serializer.ser), None, r)
//@sig fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@end
//@norewrites
}
/// DateTime derives its implementation, and serde_bytes::ByteBuf serializes as bytes.
pub mod derived {
use super::*;
use super::super::serde::ser::SerializeStruct;
//@derive_serialize dlhn/src/date_time.rs :: DateTime
//@end
//@rewrite (&self.bytes) => (self.bytes.as_slice())
//@impl @serde_bytes/src/bytebuf.rs :: impl Serialize for ByteBuf
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@sig <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@end
//@rewrite impl Serialize for ByteBuf => impl ByteBuf
//@impl @serde_bytes/src/bytebuf.rs :: impl Serialize for ByteBuf
//@fn serialize
    ensures wrote_key(*old(serializer.ser), *final(serializer.ser), None, r)
//@sig fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@end
//@norewrites
}
}
pub mod body {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::ser_spec::*;
use super::ser::*;
use super::composites::*;
use super::leaf::*;
use super::btree::*;
use super::serde::Serialize;
use super::enc_spec::*;
use super::serde::ser::{Serializer as _, SerializeTuple};
use std::io::Write;
use super::date::*; use super::date_time::*; use super::big::*;
//@include body_view.rs

/// How a value is written.
impl Enc for Body {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(bb(bv(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { match *self { Body::String(s) => Some(s@), _ => None } }
}
/// How a value inside of another one is written: what Body::serialize below is shown to do, of which this is the
/// induction hypothesis (values are finite).
impl Serialize for Body {
    #[verifier::external_body]
    fn serialize<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body]
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { unimplemented!() }
}
proof fn lemma_bodies(v: Vec<Body>)
    ensures all(encs(v@)) == Some(bbs(bvs(v))), bvs(v).len() == v@.len()
{
    lemma_bodies_to(v, v@.len());
    assert(encs(v@).take(v@.len() as int) =~= encs(v@));
    assert(bvs(v).take(v@.len() as int) =~= bvs(v));
}
proof fn lemma_bodies_to(v: Vec<Body>, n: nat)
    requires n <= v@.len()
    ensures all(encs(v@).take(n as int)) == Some(bbs(bvs(v).take(n as int)))
    decreases n
{
    if n > 0 {
        lemma_bodies_to(v, (n - 1) as nat);
        assert(encs(v@).take(n as int).drop_last() =~= encs(v@).take(n - 1));
        assert(bvs(v).take(n as int).drop_last() =~= bvs(v).take(n - 1));
    } else {
        assert(bvs(v).take(0) =~= seq![]);
    }
}
proof fn lemma_entries(m: BTreeMap<String, Body>)
    ensures all(pairs(m.entries@)) == Some(bms(bvm(m))), bvm(m).len() == m.entries@.len()
{
    lemma_entries_to(m, m.entries@.len());
    assert(pairs(m.entries@).take(2 * m.entries@.len() as int) =~= pairs(m.entries@));
    assert(bvm(m).take(m.entries@.len() as int) =~= bvm(m));
}
proof fn lemma_entries_to(m: BTreeMap<String, Body>, n: nat)
    requires n <= m.entries@.len()
    ensures all(pairs(m.entries@).take(2 * n as int)) == Some(bms(bvm(m).take(n as int)))
    decreases n
{
    if n > 0 {
        lemma_entries_to(m, (n - 1) as nat);
        let ps = pairs(m.entries@);
        assert(ps.take(2 * n as int).drop_last() =~= ps.take(2 * n - 1));
        assert(ps.take(2 * n - 1).drop_last() =~= ps.take(2 * (n - 1)));
        assert(ps[2 * n - 1] == m.entries@[n - 1].1.enc());
        assert(ps[2 * n - 2] == key_enc(m.entries@[n - 1].0));
        assert(bvm(m).take(n as int).drop_last() =~= bvm(m).take(n - 1));
        let a = bms(bvm(m).take(n - 1)); let k = lb(L::Str(m.entries@[n - 1].0@)); let x = bb(bv(m.entries@[n - 1].1));
        assert((a + k) + x =~= a + (k + x));
        assert(all(ps.take(2 * n - 1)) == Some(a + k));
        assert(bvm(m).take(n as int).last() == (m.entries@[n - 1].0@, bv(m.entries@[n - 1].1)));
        assert(all(ps.take(2 * n as int)) == Some((a + k) + x));
    } else {
        assert(bvm(m).take(0) =~= seq![]);
    }
}
//@rewrite impl Serialize for $t:ident => impl $t
//@rewrite for $x:ident in $e { => for $x in it_: $e {
//@impl dlhn/src/body/mod.rs :: impl Serialize for Body
//@fn serialize
    ensures wrote(*old(serializer), *final(serializer), Some(bb(bv(*self))), r is Ok)
//@sig <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost b0_ = *$1;
    proof {
        match self {
            Body::Array(v) => lemma_bodies(*v),
            Body::Tuple(v) => lemma_bodies(*v),
            Body::Map(m) => lemma_entries(*m),
            _ => {}
        }
    }
//@before 1
    let ghost es_ = encs(v@);
    let ghost end_ = *final(tuple);
    proof { lemma_so_far_none(b0_, *tuple, seq![], es_); }
//@loop 1
    invariant so_far(b0_, *tuple, seq![], es_, it_.index() as nat), *final(tuple) == end_,
        it_.seq().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] it_.seq()[i]) == v@[i],
//@loopbody 1
    let ghost m_ = *tuple;
    proof {
        let n_ = it_.index() as nat;
        if !(es_[n_ as int] is Some && fits(m_.output.room(), es_[n_ as int]->Some_0.len())) { lemma_so_far_fails(b0_, m_, seq![], es_, n_); }
    }
//@loopend 1
    proof { lemma_so_far(b0_, m_, *tuple, seq![], es_, it_.index() as nat, true); }
//@after 1
    proof { lemma_so_far_done(b0_, *tuple, seq![], es_); assert(seq![] + bbs(bvs(*v)) =~= bbs(bvs(*v))); }
//@end
//@rewrite .serialize(serializer) => .serialize_key(serializer)
//@impl dlhn/src/body/mod.rs :: impl Serialize for Body
//@fn serialize
    ensures wrote_key(*old(serializer.ser), *final(serializer.ser), self.key(), r)
//@sig fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: serde::Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@attr #[verifier::loop_isolation(false)]
//@end
//@norewrites
}
