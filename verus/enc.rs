/// What the bytes of the values of a type are: the format, without the code.
pub mod enc_spec {
use super::*;
use super::varint::*;
use super::value_spec::*;
use super::leaf::*;
use super::btree::*;
use super::stand_ins::*;
use super::date::*; use super::date_time::*; use super::big::*;
use vstd::float::FloatBitsProperties;
pub trait Enc {
    /// The bytes of the value, if it can be written.
    spec fn enc(&self) -> Option<Seq<u8>>;
    /// Its characters, if it serializes as a string.
    spec fn key(&self) -> Option<Seq<char>>;
}
/// What a part in front does.
pub open spec fn pre(s: Seq<u8>, e: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match e { Some(x) => Some(s + x), None => None }
}
/// All of them, one after another.
pub open spec fn all(es: Seq<Option<Seq<u8>>>) -> Option<Seq<u8>>
    decreases es.len()
{
    if es.len() == 0 { Some(seq![]) } else {
        match (all(es.drop_last()), es.last()) { (Some(a), Some(b)) => Some(a + b), _ => None }
    }
}
pub open spec fn both(a: Option<Seq<u8>>, b: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match (a, b) { (Some(a), Some(b)) => Some(a + b), _ => None }
}
pub open spec fn encs<T: Enc>(v: Seq<T>) -> Seq<Option<Seq<u8>>> { Seq::new(v.len(), |i: int| v[i].enc()) }
pub open spec fn key_enc<K: Enc>(k: K) -> Option<Seq<u8>> { match k.key() { Some(c) => Some(lb(L::Str(c))), None => None } }
pub open spec fn pairs<K: Enc, V: Enc>(v: Seq<(K, V)>) -> Seq<Option<Seq<u8>>> {
    Seq::new(2 * v.len(), |i: int| if i % 2 == 0 { key_enc(v[i / 2].0) } else { v[i / 2].1.enc() })
}
impl Enc for bool {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::Bool(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for i8 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::I8(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for i16 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::I16(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for i32 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::I32(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for i64 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::I64(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for u8 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::U8(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for u16 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::U16(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for u32 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::U32(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for u64 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::U64(*self))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for f32 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::F32(self.to_bits_spec()))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for f64 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::F64(self.to_bits_spec()))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for char {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::Str(seq![*self]))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for usize {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(vu64(*self as u64)) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for str {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::Str(self@))) }
    open spec fn key(&self) -> Option<Seq<char>> { Some(self@) }
}
impl Enc for String {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::Str(self@))) }
    open spec fn key(&self) -> Option<Seq<char>> { Some(self@) }
}
impl<T: ?Sized + Enc> Enc for &T {
    open spec fn enc(&self) -> Option<Seq<u8>> { (**self).enc() }
    open spec fn key(&self) -> Option<Seq<char>> { (**self).key() }
}
impl Enc for Bytes {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(L::Bin(self.bytes@))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for () {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(seq![]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T: Enc> Enc for Box<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { (**self).enc() }
    open spec fn key(&self) -> Option<Seq<char>> { (**self).key() }
}
impl<T: Enc> Enc for Option<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { match *self { None => Some(seq![0u8]), Some(x) => pre(seq![1u8], x.enc()) } }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T: Enc> Enc for Vec<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { pre(vu64(self@.len() as u64), all(encs(self@))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<K: Enc, V: Enc> Enc for BTreeMap<K, V> {
    open spec fn enc(&self) -> Option<Seq<u8>> { pre(vu64(self.entries@.len() as u64), all(pairs(self.entries@))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<K: Enc, V: Enc> Enc for HashMap<K, V> {
    open spec fn enc(&self) -> Option<Seq<u8>> { pre(vu64(self.entries@.len() as u64), all(pairs(self.entries@))) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<A: Enc, B: Enc> Enc for (A, B) {
    open spec fn enc(&self) -> Option<Seq<u8>> { both(self.0.enc(), self.1.enc()) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for Date {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(self.leaf())) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for BigUint {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(self.leaf())) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for BigInt {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(self.leaf())) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for BigDecimal {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(self.leaf())) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for DateTime {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(self.leaf())) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for ByteBuf {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(lb(self.leaf())) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl Enc for Nothing {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(seq![]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<A: Enc> Enc for Wrap<A> {
    open spec fn enc(&self) -> Option<Seq<u8>> { self.0.enc() }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<A: Enc, B: Enc> Enc for Two<A, B> {
    open spec fn enc(&self) -> Option<Seq<u8>> { both(self.0.enc(), self.1.enc()) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<A: Enc, B: Enc> Enc for Named<A, B> {
    open spec fn enc(&self) -> Option<Seq<u8>> { both(self.a.enc(), self.b.enc()) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<A: Enc, B: Enc> Enc for Choice<A, B> {
    open spec fn enc(&self) -> Option<Seq<u8>> {
        match *self {
            Choice::Nothing => Some(vu32(0)),
            Choice::Wrap(a) => pre(vu32(1), a.enc()),
            Choice::Two(a, b) => pre(vu32(2), both(a.enc(), b.enc())),
            Choice::Named { a, b } => pre(vu32(3), both(a.enc(), b.enc())),
        }
    }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
//@include enc_tuples.rs
}
