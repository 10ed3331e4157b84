/// How composite values of the standard library serialize: serde's own code, verified against the serializer's contracts.
/// Below it, what serde's derive makes of types of each shape, written by hand.
pub mod composites {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::value_spec::*;
use super::ser_spec::*;
use super::ser::*;
use super::btree::*;
use super::stand_ins::*;
use super::serde::{Serialize, AsKey};
use super::enc_spec::*;
use super::serde::ser::Serializer as _;
use super::serde::ser::Impossible;
use std::io::Write;
broadcast use group_varint;

/// The first n of them are written: then the next decides, or the whole fails.
pub proof fn lemma_all(es: Seq<Option<Seq<u8>>>, n: nat)
    requires n < es.len()
    ensures
        all(es.take((n + 1) as int)) == both(all(es.take(n as int)), es[n as int]),
{
    assert(es.take((n + 1) as int).drop_last() =~= es.take(n as int));
}
pub proof fn lemma_all_prefix(es: Seq<Option<Seq<u8>>>, n: nat)
    requires n <= es.len()
    ensures all(es.take(n as int)) is None ==> all(es) is None,
        all(es) is Some ==> all(es.take(n as int)) is Some && all(es.take(n as int))->Some_0.len() <= all(es)->Some_0.len(),
    decreases es.len() - n
{
    if n < es.len() {
        lemma_all(es, n);
        lemma_all_prefix(es, n + 1);
    } else {
        assert(es.take(n as int) =~= es);
    }
}
/// What is written so far: a part in front, and n of them.
pub open spec fn so_far<W: Write>(b: Serializer<W>, a: Serializer<W>, front: Seq<u8>, es: Seq<Option<Seq<u8>>>, n: nat) -> bool {
    n <= es.len() && all(es.take(n as int)) is Some && wrote(b, a, Some(front + all(es.take(n as int))->Some_0), true)
}
pub proof fn lemma_so_far<W: Write>(b: Serializer<W>, m: Serializer<W>, a: Serializer<W>, front: Seq<u8>, es: Seq<Option<Seq<u8>>>, n: nat, ok: bool)
    requires so_far(b, m, front, es, n), n < es.len(), wrote(m, a, es[n as int], ok)
    ensures ok ==> so_far(b, a, front, es, n + 1), !ok ==> wrote(b, a, pre(front, all(es)), false)
{
    lemma_all(es, n);
    lemma_all_prefix(es, n + 1);
    let p = all(es.take(n as int))->Some_0;
    if es[n as int] is Some {
        assert(front + (p + es[n as int]->Some_0) =~= (front + p) + es[n as int]->Some_0);
    }
}
/// When the next one cannot be written, the whole cannot.
pub proof fn lemma_so_far_fails<W: Write>(b: Serializer<W>, m: Serializer<W>, front: Seq<u8>, es: Seq<Option<Seq<u8>>>, n: nat)
    requires so_far(b, m, front, es, n), n < es.len(), !(es[n as int] is Some && fits(m.output.room(), es[n as int]->Some_0.len()))
    ensures !(all(es) is Some && fits(b.output.room(), front.len() + all(es)->Some_0.len()))
{ lemma_so_far(b, m, m, front, es, n, false); }
pub proof fn lemma_so_far_done<W: Write>(b: Serializer<W>, a: Serializer<W>, front: Seq<u8>, es: Seq<Option<Seq<u8>>>)
    requires so_far(b, a, front, es, es.len())
    ensures wrote(b, a, pre(front, all(es)), true)
{ assert(es.take(es.len() as int) =~= es); }
pub proof fn lemma_so_far_none<W: Write>(b: Serializer<W>, a: Serializer<W>, front: Seq<u8>, es: Seq<Option<Seq<u8>>>)
    requires wrote(b, a, Some(front), true)
    ensures so_far(b, a, front, es, 0)
{ assert(front + seq![] =~= front); }


/// The same for two at once.
pub proof fn lemma_so_far_two<W: Write>(b: Serializer<W>, m: Serializer<W>, a: Serializer<W>, front: Seq<u8>, es: Seq<Option<Seq<u8>>>, n: nat, ok: bool)
    requires so_far(b, m, front, es, n), n + 1 < es.len(), wrote(m, a, both(es[n as int], es[n as int + 1]), ok)
    ensures ok ==> so_far(b, a, front, es, n + 2), !ok ==> wrote(b, a, pre(front, all(es)), false)
{
    lemma_all(es, n);
    lemma_all(es, n + 1);
    lemma_all_prefix(es, n + 1);
    lemma_all_prefix(es, n + 2);
    let p = all(es.take(n as int))->Some_0;
    if es[n as int] is Some && es[n as int + 1] is Some {
        let (x, y) = (es[n as int]->Some_0, es[n as int + 1]->Some_0);
        assert(front + ((p + x) + y) =~= (front + p) + (x + y));
        assert((p + x) + y =~= p + (x + y));
    }
}
//@expand @serde_core/src/ser/impls.rs :: seq_impl
//@expand @serde_core/src/ser/impls.rs :: map_impl
//@expand @serde_core/src/ser/impls.rs :: tuple_impls
//@rewrite impl<T> Serialize for Box<T> where T: ?Sized + Serialize => impl<T: Serialize> Serialize for Box<T>
//@rewrite <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl <T> Serialize for Box<T> where T: ?Sized + Serialize
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T> Serialize for Option<T> where T: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@norewrites
//@rewrite impl<T> Serialize for Box<T> where T: ?Sized + Serialize => impl<T: Serialize> AsKey for Box<T>
//@rewrite impl<T> Serialize for $t where => impl<T> AsKey for $t where
//@rewrite (**self).serialize(serializer) => (**self).serialize_key(serializer)
//@rewrite fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl <T> Serialize for Box<T> where T: ?Sized + Serialize
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T> Serialize for Option<T> where T: Serialize,
//@fn serialize
//@end
//@norewrites
use vstd::std_specs::iter::IteratorSpec;
/// serde asks the iterator itself how many there are: that of a slice and that of a map say so exactly.
#[verifier::external_body]
pub fn iterator_len_hint<'x, T>(iter: &core::slice::Iter<'x, T>) -> (r: Option<usize>)
    ensures r == Some(iter.remaining().len() as usize)
{ Some(iter.len()) }
mod seq {
use super::*;
use super::super::serde::ser::SerializeSeq;
//@rewrite tri!(iter.try_for_each(|item| $e)); => for item in it_: iter { let ghost m = *serializer; let r = $e; proof { lemma_so_far(b, m, *serializer, front, es, it_.index() as nat, r is Ok); } r?; }
//@rewrite tri!($e) => $e?
//@rewrite self.serialize_seq => self_.serialize_seq
//@default @serde_core/src/ser/mod.rs :: Serializer
//@fn collect_seq
    ensures wrote(*old(self_), *final(self_), iter.enc(), r is Ok)
//@sig <I>(self, iter: I) -> Result<Self::Ok, Self::Error> where I: IntoIterator, <I as IntoIterator>::Item: Serialize, => <T: Serialize, W: Write>(self_: &mut Serializer<W>, iter: &Vec<T>) -> Result<(), Error>
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost b = *self_;
    let ghost all_ = iter@;
    let ghost front = vu64(all_.len() as u64);
    let ghost es = encs(iter@);
//@before 1
    let ghost end = *final(serializer);
    proof { lemma_so_far_none(b, *serializer, front, es); }
//@loop 1
    invariant so_far(b, *serializer, front, es, it_.index() as nat), *final(serializer) == end, it_.seq().len() == all_.len(),
        forall|i: int| 0 <= i < all_.len() ==> *(#[trigger] it_.seq()[i]) == all_[i],
//@after 1
    proof { lemma_so_far_done(b, *serializer, front, es); }
//@end
//@norewrites
//@rewrite serializer.collect_seq(self) => collect_seq(serializer, self)
//@rewrite <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl<T> Serialize for Vec<T> where T: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@norewrites
mod key {
use super::*;
//@rewrite tri!(iter.try_for_each(|item| $e)); => for item in it_: iter { $e?; }
//@rewrite tri!($e) => $e?
//@rewrite self.serialize_seq => self_.serialize_seq
//@default @serde_core/src/ser/mod.rs :: Serializer
//@fn collect_seq
    ensures wrote_key(*old(self_.ser), *final(self_.ser), None, r)
//@sig <I>(self, iter: I) -> Result<Self::Ok, Self::Error> where I: IntoIterator, <I as IntoIterator>::Item: Serialize, => <'a, T: Serialize, W: Write>(self_: MapKeySerializer<'a, W>, iter: &Vec<T>) -> Result<(), Error>
//@attr #[verifier::loop_isolation(false)]
//@end
//@norewrites
//@rewrite impl<T> Serialize for $t where => impl<T> AsKey for $t where
//@rewrite serializer.collect_seq(self) => collect_seq(serializer, self)
//@rewrite fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl<T> Serialize for Vec<T> where T: Serialize,
//@fn serialize
//@end
//@norewrites
}
}
mod map {
use super::*;
use super::super::serde::ser::SerializeMap;
//@rewrite tri!($e) => $e?
//@rewrite self.$m:ident($a) => self_.$m($a)
//@default @serde_core/src/ser/mod.rs :: SerializeMap
//@fn serialize_entry
    ensures wrote(**old(self_), **final(self_), both(key_enc(*key), value.enc()), r is Ok), *final(*final(self_)) == *final(*old(self_))
//@sig <K, V>(&mut self, key: &K, value: &V) -> Result<(), Self::Error> where K: ?Sized + Serialize, V: ?Sized + Serialize, => <K: Serialize, V: Serialize, W: Write>(self_: &mut &mut Serializer<W>, key: &K, value: &V) -> Result<(), Error>
//@end
//@norewrites
mod ordered {
use super::*;
//@rewrite iter.into_iter() => iter.entries.iter()
//@rewrite tri!(iter.try_for_each(|(key, value)| serializer.serialize_entry($e))); => for entry in it_: iter { let (key, value) = entry; let ghost m = *serializer; let r = serialize_entry(&mut serializer, $e); proof { let i = it_.index(); assert(es[2 * i] == key_enc(all_[i].0)); assert(es[2 * i + 1] == all_[i].1.enc()); lemma_so_far_two(b, m, *serializer, front, es, 2 * i as nat, r is Ok); } r?; }
//@rewrite tri!($e) => $e?
//@rewrite self.serialize_map => self_.serialize_map
//@default @serde_core/src/ser/mod.rs :: Serializer
//@fn collect_map
    ensures wrote(*old(self_), *final(self_), iter.enc(), r is Ok)
//@sig <K, V, I>(self, iter: I) -> Result<Self::Ok, Self::Error> where K: Serialize, V: Serialize, I: IntoIterator<Item = (K, V)>, => <K: Serialize, V: Serialize, W: Write>(self_: &mut Serializer<W>, iter: &BTreeMap<K, V>) -> Result<(), Error>
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost b = *self_;
    let ghost all_ = iter.entries@;
    let ghost front = vu64(all_.len() as u64);
    let ghost es = pairs(iter.entries@);
//@before 1
    let ghost end = *final(serializer);
    proof { lemma_so_far_none(b, *serializer, front, es); }
//@loop 1
    invariant so_far(b, *serializer, front, es, 2 * it_.index() as nat), *final(serializer) == end, it_.seq().len() == all_.len(),
        forall|i: int| 0 <= i < all_.len() ==> *(#[trigger] it_.seq()[i]) == all_[i],
//@after 1
    proof { lemma_so_far_done(b, *serializer, front, es); }
//@end
//@norewrites
//@rewrite serializer.collect_map(self) => collect_map(serializer, self)
//@rewrite <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl<K, V> Serialize for BTreeMap<K, V> where K: Serialize, V: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@norewrites
mod key {
use super::*;
//@rewrite iter.into_iter() => iter.entries.iter()
//@rewrite tri!(iter.try_for_each(|(key, value)| $e)); => for entry in it_: iter { let (key, value) = entry; $e?; }
//@rewrite tri!($e) => $e?
//@rewrite self.serialize_map => self_.serialize_map
//@default @serde_core/src/ser/mod.rs :: Serializer
//@fn collect_map
    ensures wrote_key(*old(self_.ser), *final(self_.ser), None, r)
//@sig <K, V, I>(self, iter: I) -> Result<Self::Ok, Self::Error> where K: Serialize, V: Serialize, I: IntoIterator<Item = (K, V)>, => <'a, K: Serialize, V: Serialize, W: Write>(self_: MapKeySerializer<'a, W>, iter: &BTreeMap<K, V>) -> Result<(), Error>
//@attr #[verifier::loop_isolation(false)]
//@end
//@norewrites
//@rewrite impl<K, V> Serialize for $t where => impl<K, V> AsKey for $t where
//@rewrite serializer.collect_map(self) => collect_map(serializer, self)
//@rewrite fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl<K, V> Serialize for BTreeMap<K, V> where K: Serialize, V: Serialize,
//@fn serialize
//@end
//@norewrites
}
}
mod hashed {
use super::*;
//@rewrite iter.into_iter() => iter.entries.iter()
//@rewrite tri!(iter.try_for_each(|(key, value)| serializer.serialize_entry($e))); => for entry in it_: iter { let (key, value) = entry; let ghost m = *serializer; let r = serialize_entry(&mut serializer, $e); proof { let i = it_.index(); assert(es[2 * i] == key_enc(all_[i].0)); assert(es[2 * i + 1] == all_[i].1.enc()); lemma_so_far_two(b, m, *serializer, front, es, 2 * i as nat, r is Ok); } r?; }
//@rewrite tri!($e) => $e?
//@rewrite self.serialize_map => self_.serialize_map
//@default @serde_core/src/ser/mod.rs :: Serializer
//@fn collect_map
    ensures wrote(*old(self_), *final(self_), iter.enc(), r is Ok)
//@sig <K, V, I>(self, iter: I) -> Result<Self::Ok, Self::Error> where K: Serialize, V: Serialize, I: IntoIterator<Item = (K, V)>, => <K: Serialize, V: Serialize, W: Write>(self_: &mut Serializer<W>, iter: &HashMap<K, V>) -> Result<(), Error>
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost b = *self_;
    let ghost all_ = iter.entries@;
    let ghost front = vu64(all_.len() as u64);
    let ghost es = pairs(iter.entries@);
//@before 1
    let ghost end = *final(serializer);
    proof { lemma_so_far_none(b, *serializer, front, es); }
//@loop 1
    invariant so_far(b, *serializer, front, es, 2 * it_.index() as nat), *final(serializer) == end, it_.seq().len() == all_.len(),
        forall|i: int| 0 <= i < all_.len() ==> *(#[trigger] it_.seq()[i]) == all_[i],
//@after 1
    proof { lemma_so_far_done(b, *serializer, front, es); }
//@end
//@norewrites
//@rewrite serializer.collect_map(self) => collect_map(serializer, self)
//@rewrite impl<K, V, H> Serialize for HashMap<K, V, H> => impl<K, V> Serialize for HashMap<K, V>
//@rewrite <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl<K, V, H> Serialize for HashMap<K, V, H> where K: Serialize, V: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@end
//@norewrites
mod key {
use super::*;
//@rewrite iter.into_iter() => iter.entries.iter()
//@rewrite tri!(iter.try_for_each(|(key, value)| $e)); => for entry in it_: iter { let (key, value) = entry; $e?; }
//@rewrite tri!($e) => $e?
//@rewrite self.serialize_map => self_.serialize_map
//@default @serde_core/src/ser/mod.rs :: Serializer
//@fn collect_map
    ensures wrote_key(*old(self_.ser), *final(self_.ser), None, r)
//@sig <K, V, I>(self, iter: I) -> Result<Self::Ok, Self::Error> where K: Serialize, V: Serialize, I: IntoIterator<Item = (K, V)>, => <'a, K: Serialize, V: Serialize, W: Write>(self_: MapKeySerializer<'a, W>, iter: &HashMap<K, V>) -> Result<(), Error>
//@attr #[verifier::loop_isolation(false)]
//@end
//@norewrites
//@rewrite impl<K, V, H> Serialize for HashMap<K, V, H> => impl<K, V> AsKey for HashMap<K, V>
//@rewrite serializer.collect_map(self) => collect_map(serializer, self)
//@rewrite fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl<K, V, H> Serialize for HashMap<K, V, H> where K: Serialize, V: Serialize,
//@fn serialize
//@end
//@norewrites
}
}
}
mod tuple {
use super::*;
use super::super::serde::ser::SerializeTuple;
/// Nothing in front changes nothing.
proof fn lemma_no_front(e: Option<Seq<u8>>)
    ensures pre(seq![], e) == e
{ if e is Some { assert(seq![] + e->Some_0 =~= e->Some_0); } }
proof fn lemma_both(a: Option<Seq<u8>>, b: Option<Seq<u8>>)
    ensures all(seq![a, b]) == both(a, b)
{
    let es = seq![a, b];
    lemma_all(es, 0);
    lemma_all(es, 1);
    assert(es.take(0) =~= seq![]);
    assert(es.take(2) =~= es);
    if a is Some { assert(seq![] + a->Some_0 =~= a->Some_0); }
}
//@include ser_tuples.rs
}
mod plain {
use super::*;
impl Serialize for Nothing {
    fn serialize<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error> { serializer.serialize_unit_struct("Nothing") }
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { serializer.serialize_unit_struct("Nothing") }
}
impl<A: Serialize> Serialize for Wrap<A> {
    fn serialize<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error> { serializer.serialize_newtype_struct("Wrap", &self.0) }
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { serializer.serialize_newtype_struct("Wrap", &self.0) }
}
}
mod tuple_struct {
use super::*;
use super::super::serde::ser::SerializeTupleStruct;
impl<A: Serialize, B: Serialize> Serialize for Two<A, B> {
    fn serialize<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error> {
        let mut s = serializer.serialize_tuple_struct("Two", 2)?;
        s.serialize_field(&self.0)?;
        s.serialize_field(&self.1)?;
        s.end()
    }
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> {
        serializer.serialize_tuple_struct("Two", 2)?;
        Ok(())
    }
}
}
mod named {
use super::*;
use super::super::serde::ser::SerializeStruct;
impl<A: Serialize, B: Serialize> Serialize for Named<A, B> {
    fn serialize<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error> {
        let mut s = serializer.serialize_struct("Named", 2)?;
        s.serialize_field("a", &self.a)?;
        s.serialize_field("b", &self.b)?;
        s.end()
    }
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> {
        serializer.serialize_struct("Named", 2)?;
        Ok(())
    }
}
}
mod variants {
use super::*;
pub mod two {
use super::*;
use super::super::super::serde::ser::SerializeTupleVariant;
pub fn write<A: Serialize, B: Serialize, W: Write>(a: &A, b: &B, serializer: &mut Serializer<W>) -> (r: Result<(), Error>)
    ensures wrote(*old(serializer), *final(serializer), pre(vu32(2), both(a.enc(), b.enc())), r is Ok)
{
    let mut s = serializer.serialize_tuple_variant("Choice", 2, "Two", 2)?;
    s.serialize_field(a)?;
    s.serialize_field(b)?;
    s.end()
}
}
pub mod named {
use super::*;
use super::super::super::serde::ser::SerializeStructVariant;
pub fn write<A: Serialize, B: Serialize, W: Write>(a: &A, b: &B, serializer: &mut Serializer<W>) -> (r: Result<(), Error>)
    ensures wrote(*old(serializer), *final(serializer), pre(vu32(3), both(a.enc(), b.enc())), r is Ok)
{
    let mut s = serializer.serialize_struct_variant("Choice", 3, "Named", 2)?;
    s.serialize_field("a", a)?;
    s.serialize_field("b", b)?;
    s.end()
}
}
impl<A: Serialize, B: Serialize> Serialize for Choice<A, B> {
    fn serialize<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error> {
        match self {
            Choice::Nothing => serializer.serialize_unit_variant("Choice", 0, "Nothing"),
            Choice::Wrap(a) => serializer.serialize_newtype_variant("Choice", 1, "Wrap", a),
            Choice::Two(a, b) => two::write(a, b, serializer),
            Choice::Named { a, b } => named::write(a, b, serializer),
        }
    }
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> {
        match self {
            Choice::Nothing => serializer.serialize_unit_variant("Choice", 0, "Nothing"),
            Choice::Wrap(a) => serializer.serialize_newtype_variant("Choice", 1, "Wrap", a),
            Choice::Two(a, b) => { serializer.serialize_tuple_variant("Choice", 2, "Two", 2)?; Ok(()) }
            Choice::Named { a, b } => { serializer.serialize_struct_variant("Choice", 3, "Named", 2)?; Ok(()) }
        }
    }
}
}
/// Elements of a sequence that is not told its length: just the elements.
pub proof fn lemma_bytes(b: Vec<u8>)
    ensures b.enc() == Some(blob(b@))
{
    lemma_octets(b@);
    let f = vu64(b@.len() as u64);
}
proof fn lemma_octets(b: Seq<u8>)
    ensures all(encs(b)) == Some(b)
    decreases b.len()
{
    if b.len() > 0 {
        assert(encs(b).drop_last() =~= encs(b.drop_last()));
        lemma_octets(b.drop_last());
        assert(b.drop_last() + seq![b.last()] =~= b);
    }
}
}
