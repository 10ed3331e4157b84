pub mod date_time { use super::*;
//@item dlhn/src/date_time.rs :: struct DateTime
}
pub mod big { use super::*;
//@item dlhn/src/big_uint.rs :: struct BigUint
//@item dlhn/src/big_int.rs :: struct BigInt
//@item dlhn/src/big_decimal.rs :: struct BigDecimal
}
/// Stands for serde_bytes::ByteBuf.
pub struct ByteBuf { pub bytes: Vec<u8> }
/// Stands for serde_bytes::Bytes.
pub struct Bytes { pub bytes: [u8] }

/// What a value without parts is.
pub mod leaf {
use super::*;
use super::value_spec::*;
use super::header_spec::H;
use super::date::*; use super::date_time::*; use super::big::*;
use vstd::float::FloatBitsProperties;
pub trait Leaf: Sized {
    spec fn knd() -> H;
    spec fn leaf(self) -> L;
}
impl Leaf for bool { open spec fn knd() -> H { H::Bool } open spec fn leaf(self) -> L { L::Bool(self) } }
impl Leaf for u8 { open spec fn knd() -> H { H::U8 } open spec fn leaf(self) -> L { L::U8(self) } }
impl Leaf for u16 { open spec fn knd() -> H { H::U16 } open spec fn leaf(self) -> L { L::U16(self) } }
impl Leaf for u32 { open spec fn knd() -> H { H::U32 } open spec fn leaf(self) -> L { L::U32(self) } }
impl Leaf for u64 { open spec fn knd() -> H { H::U64 } open spec fn leaf(self) -> L { L::U64(self) } }
impl Leaf for i8 { open spec fn knd() -> H { H::I8 } open spec fn leaf(self) -> L { L::I8(self) } }
impl Leaf for i16 { open spec fn knd() -> H { H::I16 } open spec fn leaf(self) -> L { L::I16(self) } }
impl Leaf for i32 { open spec fn knd() -> H { H::I32 } open spec fn leaf(self) -> L { L::I32(self) } }
impl Leaf for i64 { open spec fn knd() -> H { H::I64 } open spec fn leaf(self) -> L { L::I64(self) } }
impl Leaf for f32 { open spec fn knd() -> H { H::F32 } open spec fn leaf(self) -> L { L::F32(self.to_bits_spec()) } }
impl Leaf for f64 { open spec fn knd() -> H { H::F64 } open spec fn leaf(self) -> L { L::F64(self.to_bits_spec()) } }
impl Leaf for String { open spec fn knd() -> H { H::Str } open spec fn leaf(self) -> L { L::Str(self@) } }
impl Leaf for ByteBuf { open spec fn knd() -> H { H::Bin } open spec fn leaf(self) -> L { L::Bin(self.bytes@) } }
impl Leaf for BigUint { open spec fn knd() -> H { H::BigUint } open spec fn leaf(self) -> L { L::BigUint(self.0@) } }
impl Leaf for BigInt { open spec fn knd() -> H { H::BigInt } open spec fn leaf(self) -> L { L::BigInt(self.0@) } }
impl Leaf for BigDecimal { open spec fn knd() -> H { H::BigDecimal } open spec fn leaf(self) -> L { L::BigDecimal(self.signed_bytes@, self.scale) } }
impl Leaf for Date { open spec fn knd() -> H { H::Date } open spec fn leaf(self) -> L { L::Date(self.year_(), self.ordinal_()) } }
impl Leaf for DateTime { open spec fn knd() -> H { H::DateTime } open spec fn leaf(self) -> L { L::DateTime(self.unix_timestamp, self.nanosecond) } }
}
/// What stands for the ordered map of the standard library.
pub mod btree {
use super::*;
use super::value_spec::*;
/// Stands for the ordered map of the standard library: its entries in the order of the keys.
pub struct BTreeMap<K, V> { pub entries: Vec<(K, V)> }
impl<V> BTreeMap<String, V> {
    pub open spec fn keys(self) -> Seq<Seq<char>> { Seq::new(self.entries@.len(), |i: int| self.entries@[i].0@) }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.entries@.len() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, key: String, value: V) -> (r: Option<V>)
        ensures inserted(*old(self), *final(self), key, value)
    { unimplemented!() }
}

/// Stands for the hash map of the standard library: its entries in the order in which it goes through them.
pub struct HashMap<K, V> { pub entries: Vec<(K, V)> }
/// What entries hold: under each key its value.
pub open spec fn held<V>(v: Seq<(String, V)>) -> Map<Seq<char>, V>
    decreases v.len()
{ if v.len() == 0 { Map::empty() } else { held(v.drop_last()).insert(v.last().0@, v.last().1) } }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn insert(&mut self, key: String, value: V) -> (r: Option<V>)
        ensures held(final(self).entries@) == held(old(self).entries@).insert(key@, value)
    { unimplemented!() }
}

/// What insert does: the key of an entry that is replaced stays the old one, which is equal to the new one.
pub open spec fn inserted<V>(m: BTreeMap<String, V>, m2: BTreeMap<String, V>, key: String, value: V) -> bool {
    let p = place(m.keys(), key@) as int;
    if p < m.keys().len() && m.keys()[p] == key@ {
        &&& m2.entries@.len() == m.entries@.len()
        &&& m2.entries@[p].0@ == key@ && m2.entries@[p].1 == value
        &&& forall|i: int| 0 <= i < m.entries@.len() && i != p ==> #[trigger] m2.entries@[i] == m.entries@[i]
    } else {
        m2.entries@ == m.entries@.insert(p, (key, value))
    }
}
}
