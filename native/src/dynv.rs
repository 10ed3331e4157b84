//! Every value that a serde type can present to a serializer, as data, with its reference
//! encoding, and a decoder that asks the deserializer for the same shape.
use crate::refmodel::{lenbytes, varint, zigzag};
use crate::rng::Rng;
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::*;
use serde::{Deserialize, Deserializer};
use std::fmt;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None(Box<V>),
    Some(Box<V>),
    UnitStruct,
    NewStruct(Box<V>),
    Seq(Vec<V>),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    Map(Vec<(V, V)>),
    Struct(Vec<V>),
    UnitVar(u32),
    NewVar(u32, Box<V>),
    TupVar(u32, Vec<V>),
    StructVar(u32, Vec<V>),
}

pub const MAX_FIELDS: usize = 700;

pub fn fields(n: usize) -> &'static [&'static str] {
    static F: OnceLock<Vec<&'static str>> = OnceLock::new();
    &F.get_or_init(|| {
        (0..MAX_FIELDS)
            .map(|i| &*Box::leak(format!("field{}", i).into_boxed_str()))
            .collect()
    })[..n]
}

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Unit => s.serialize_unit(),
            V::Bool(v) => s.serialize_bool(*v),
            V::I8(v) => s.serialize_i8(*v),
            V::I16(v) => s.serialize_i16(*v),
            V::I32(v) => s.serialize_i32(*v),
            V::I64(v) => s.serialize_i64(*v),
            V::U8(v) => s.serialize_u8(*v),
            V::U16(v) => s.serialize_u16(*v),
            V::U32(v) => s.serialize_u32(*v),
            V::U64(v) => s.serialize_u64(*v),
            V::F32(v) => s.serialize_f32(f32::from_bits(*v)),
            V::F64(v) => s.serialize_f64(f64::from_bits(*v)),
            V::Char(v) => s.serialize_char(*v),
            V::Str(v) => s.serialize_str(v),
            V::Bytes(v) => s.serialize_bytes(v),
            V::None(_) => s.serialize_none(),
            V::Some(v) => s.serialize_some(&**v),
            V::UnitStruct => s.serialize_unit_struct("UnitStruct"),
            V::NewStruct(v) => s.serialize_newtype_struct("NewStruct", &**v),
            V::Seq(v) => {
                let mut t = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    t.serialize_element(x)?;
                }
                t.end()
            }
            V::Tuple(v) => {
                let mut t = s.serialize_tuple(v.len())?;
                for x in v {
                    t.serialize_element(x)?;
                }
                t.end()
            }
            V::TupleStruct(v) => {
                let mut t = s.serialize_tuple_struct("TupleStruct", v.len())?;
                for x in v {
                    t.serialize_field(x)?;
                }
                t.end()
            }
            V::Map(v) => {
                let mut t = s.serialize_map(Some(v.len()))?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        t.serialize_entry(k, x)?;
                    } else {
                        t.serialize_key(k)?;
                        t.serialize_value(x)?;
                    }
                }
                t.end()
            }
            V::Struct(v) => {
                let mut t = s.serialize_struct("Struct", v.len())?;
                for (f, x) in fields(v.len()).iter().zip(v) {
                    t.serialize_field(f, x)?;
                }
                t.end()
            }
            V::UnitVar(i) => s.serialize_unit_variant("Enum", *i, "A"),
            V::NewVar(i, v) => s.serialize_newtype_variant("Enum", *i, "B", &**v),
            V::TupVar(i, v) => {
                let mut t = s.serialize_tuple_variant("Enum", *i, "C", v.len())?;
                for x in v {
                    t.serialize_field(x)?;
                }
                t.end()
            }
            V::StructVar(i, v) => {
                let mut t = s.serialize_struct_variant("Enum", *i, "D", v.len())?;
                for (f, x) in fields(v.len()).iter().zip(v) {
                    t.serialize_field(f, x)?;
                }
                t.end()
            }
        }
    }
}

impl V {
    pub fn enc(&self, out: &mut Vec<u8>) {
        let all = |v: &Vec<V>, out: &mut Vec<u8>| v.iter().for_each(|x| x.enc(out));
        match self {
            V::Unit | V::UnitStruct => {}
            V::Bool(v) => out.push(*v as u8),
            V::I8(v) => out.push(*v as u8),
            V::I16(v) => out.extend(varint(zigzag(*v as i64), 2)),
            V::I32(v) => out.extend(varint(zigzag(*v as i64), 4)),
            V::I64(v) => out.extend(varint(zigzag(*v), 8)),
            V::U8(v) => out.push(*v),
            V::U16(v) => out.extend(varint(*v as u64, 2)),
            V::U32(v) => out.extend(varint(*v as u64, 4)),
            V::U64(v) => out.extend(varint(*v, 8)),
            V::F32(v) => out.extend(v.to_le_bytes()),
            V::F64(v) => out.extend(v.to_le_bytes()),
            V::Char(v) => lenbytes(v.encode_utf8(&mut [0; 4]).as_bytes(), out),
            V::Str(v) => lenbytes(v.as_bytes(), out),
            V::Bytes(v) => lenbytes(v, out),
            V::None(_) => out.push(0),
            V::Some(v) => {
                out.push(1);
                v.enc(out)
            }
            V::NewStruct(v) => v.enc(out),
            V::Seq(v) => {
                out.extend(varint(v.len() as u64, 8));
                all(v, out)
            }
            V::Tuple(v) | V::TupleStruct(v) | V::Struct(v) => all(v, out),
            V::Map(v) => {
                out.extend(varint(v.len() as u64, 8));
                for (k, x) in v {
                    k.enc(out);
                    x.enc(out);
                }
            }
            V::UnitVar(i) => out.extend(varint(*i as u64, 4)),
            V::NewVar(i, v) => {
                out.extend(varint(*i as u64, 4));
                v.enc(out)
            }
            V::TupVar(i, v) | V::StructVar(i, v) => {
                out.extend(varint(*i as u64, 4));
                all(v, out)
            }
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.enc(&mut v);
        v
    }

    pub fn scalar(r: &mut Rng, size: u64) -> V {
        match r.below(17) {
            0 => V::Unit,
            1 => V::Bool(r.one_in(2)),
            2 => V::I8(r.int(8) as i8),
            3 => V::I16(r.i16()),
            4 => V::I32(r.i32()),
            5 => V::I64(r.i64()),
            6 => V::U8(r.int(8) as u8),
            7 => V::U16(r.int(16) as u16),
            8 => V::U32(r.int(32) as u32),
            9 => V::U64(r.int(64)),
            10 => V::F32(r.f32bits()),
            11 => V::F64(r.f64bits()),
            12 => V::Char(r.char()),
            13 | 14 => V::Str(r.string(size)),
            15 => V::Bytes(r.bytes(size)),
            _ => V::UnitStruct,
        }
    }

    /// A value; map keys are strings.
    pub fn arb(r: &mut Rng, depth: u32, size: u64) -> V {
        if depth == 0 || r.one_in(4) {
            return V::scalar(r, size);
        }
        let many = |r: &mut Rng| {
            let n = r.size(size.min(MAX_FIELDS as u64));
            let d = if n > 8 { 0 } else { depth - 1 };
            (0..n)
                .map(|_| V::arb(r, d, (size / (1 + n as u64)).max(2)))
                .collect::<Vec<_>>()
        };
        match r.below(13) {
            0 => V::None(Box::new(V::arb(r, depth - 1, size))),
            1 => V::Some(Box::new(V::arb(r, depth - 1, size))),
            2 => V::NewStruct(Box::new(V::arb(r, depth - 1, size))),
            3 | 4 => V::Seq(many(r)),
            5 => V::Tuple(many(r)),
            6 => V::TupleStruct(many(r)),
            7 => {
                let v = many(r);
                V::Map(v.into_iter().map(|x| (V::Str(r.string(size.min(200))), x)).collect())
            }
            8 => V::Struct(many(r)),
            9 => V::UnitVar(r.int(32) as u32),
            10 => V::NewVar(r.int(32) as u32, Box::new(V::arb(r, depth - 1, size))),
            11 => V::TupVar(r.int(32) as u32, many(r)),
            _ => V::StructVar(r.int(32) as u32, many(r)),
        }
    }

    /// How many bytes a decoder must at least see.
    pub fn weight(&self) -> usize {
        self.bytes().len()
    }
}

/// Asks for the shape of the value.
#[derive(Clone, Copy)]
pub struct Shape<'a>(pub &'a V);

macro_rules! simple {
    ($d:expr, $ty:ty, $wrap:expr) => {
        <$ty>::deserialize($d).map($wrap)
    };
}

impl<'de, 'a> DeserializeSeed<'de> for Shape<'a> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            V::Unit => simple!(d, (), |_| V::Unit),
            V::Bool(_) => simple!(d, bool, V::Bool),
            V::I8(_) => simple!(d, i8, V::I8),
            V::I16(_) => simple!(d, i16, V::I16),
            V::I32(_) => simple!(d, i32, V::I32),
            V::I64(_) => simple!(d, i64, V::I64),
            V::U8(_) => simple!(d, u8, V::U8),
            V::U16(_) => simple!(d, u16, V::U16),
            V::U32(_) => simple!(d, u32, V::U32),
            V::U64(_) => simple!(d, u64, V::U64),
            V::F32(_) => simple!(d, f32, |v| V::F32(v.to_bits())),
            V::F64(_) => simple!(d, f64, |v| V::F64(v.to_bits())),
            V::Char(_) => simple!(d, char, V::Char),
            V::Str(_) => simple!(d, String, V::Str),
            V::Bytes(_) => simple!(d, serde_bytes::ByteBuf, |v| V::Bytes(v.into_vec())),
            V::None(_) | V::Some(_) => d.deserialize_option(Vis(self.0)),
            V::UnitStruct => d.deserialize_unit_struct("UnitStruct", Vis(self.0)),
            V::NewStruct(_) => d.deserialize_newtype_struct("NewStruct", Vis(self.0)),
            V::Seq(_) => d.deserialize_seq(Vis(self.0)),
            V::Tuple(v) => d.deserialize_tuple(v.len(), Vis(self.0)),
            V::TupleStruct(v) => d.deserialize_tuple_struct("TupleStruct", v.len(), Vis(self.0)),
            V::Map(_) => d.deserialize_map(Vis(self.0)),
            V::Struct(v) => d.deserialize_struct("Struct", fields(v.len()), Vis(self.0)),
            V::UnitVar(_) | V::NewVar(..) | V::TupVar(..) | V::StructVar(..) => {
                d.deserialize_enum("Enum", &["A", "B", "C", "D"], Vis(self.0))
            }
        }
    }
}

struct Vis<'a>(&'a V);

struct Index;

impl<'de> DeserializeSeed<'de> for Index {
    type Value = u32;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> {
        d.deserialize_identifier(Index)
    }
}

impl<'de> Visitor<'de> for Index {
    type Value = u32;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a variant index")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u32, E> {
        u32::try_from(v).map_err(|_| E::custom("variant index above 32 bits"))
    }
}

/// A field name as a derived field visitor gets it.
struct Field;

impl<'de> DeserializeSeed<'de> for Field {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(Field)
    }
}

impl<'de> Visitor<'de> for Field {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a field name")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        Ok(v.to_string())
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<String, E> {
        Ok(format!("field{}", v))
    }
}

fn seq_all<'de, A: SeqAccess<'de>>(v: &[V], mut a: A, counted: bool) -> Result<Vec<V>, A::Error> {
    let mut out = Vec::new();
    for t in v {
        match a.next_element_seed(Shape(t))? {
            Some(x) => out.push(x),
            None => return Err(de::Error::custom("sequence ended early")),
        }
    }
    if counted && a.next_element_seed(Shape(&V::Unit))?.is_some() {
        return Err(de::Error::custom("sequence goes on"));
    }
    Ok(out)
}

fn struct_all<'de, A: MapAccess<'de>>(v: &[V], mut a: A) -> Result<Vec<V>, A::Error> {
    let mut out = Vec::new();
    for (t, name) in v.iter().zip(fields(v.len())) {
        match a.next_key_seed(Field)? {
            Some(k) if k == *name => out.push(a.next_value_seed(Shape(t))?),
            Some(k) => return Err(de::Error::custom(format!("field {} for {}", k, name))),
            None => return Err(de::Error::custom("fields end early")),
        }
    }
    if a.next_key_seed(Field)?.is_some() {
        return Err(de::Error::custom("more fields"));
    }
    Ok(out)
}

impl<'de, 'a> Visitor<'de> for Vis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "the shape of {:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> {
        match self.0 {
            V::UnitStruct => Ok(V::UnitStruct),
            _ => Err(E::custom("unit")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<V, E> {
        match self.0 {
            V::None(t) | V::Some(t) => Ok(V::None(t.clone())),
            _ => Err(E::custom("none")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            V::None(t) | V::Some(t) => Ok(V::Some(Box::new(Shape(t).deserialize(d)?))),
            _ => Err(de::Error::custom("some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            V::NewStruct(t) => Ok(V::NewStruct(Box::new(Shape(t).deserialize(d)?))),
            _ => Err(de::Error::custom("newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        match self.0 {
            V::Seq(v) => seq_all(v, a, true).map(V::Seq),
            V::Tuple(v) => seq_all(v, a, true).map(V::Tuple),
            V::TupleStruct(v) => seq_all(v, a, true).map(V::TupleStruct),
            V::Struct(v) => seq_all(v, a, true).map(V::Struct),
            V::TupVar(i, v) => seq_all(v, a, true).map(|v| V::TupVar(*i, v)),
            V::StructVar(i, v) => seq_all(v, a, true).map(|v| V::StructVar(*i, v)),
            _ => Err(de::Error::custom("seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match self.0 {
            V::Map(v) => {
                let mut out = Vec::new();
                for (k, x) in v {
                    match a.next_key_seed(Shape(k))? {
                        Some(k) => out.push((k, a.next_value_seed(Shape(x))?)),
                        None => return Err(de::Error::custom("map ended early")),
                    }
                }
                if a.next_key_seed(Shape(&V::Unit))?.is_some() {
                    return Err(de::Error::custom("map goes on"));
                }
                Ok(V::Map(out))
            }
            V::Struct(v) => struct_all(v, a).map(V::Struct),
            V::StructVar(i, v) => struct_all(v, a).map(|v| V::StructVar(*i, v)),
            _ => Err(de::Error::custom("map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let (i, x) = a.variant_seed(Index)?;
        match self.0 {
            V::UnitVar(_) => x.unit_variant().map(|_| V::UnitVar(i)),
            V::NewVar(_, t) => Ok(V::NewVar(i, Box::new(x.newtype_variant_seed(Shape(t))?))),
            V::TupVar(_, v) => match x.tuple_variant(v.len(), Vis(self.0))? {
                V::TupVar(_, v) => Ok(V::TupVar(i, v)),
                _ => unreachable!(),
            },
            V::StructVar(_, v) => match x.struct_variant(fields(v.len()), Vis(self.0))? {
                V::StructVar(_, v) => Ok(V::StructVar(i, v)),
                _ => unreachable!(),
            },
            _ => Err(de::Error::custom("enum")),
        }
    }
}
