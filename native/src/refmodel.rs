//! The format as the documentation and the pinned code define it, written independently: the
//! oracle that the real code is compared with.
use crate::rng::Rng;
use std::collections::BTreeMap;

pub fn varint(v: u64, width_bytes: usize) -> Vec<u8> {
    // width_bytes: 2, 4 or 8
    let full = width_bytes + 1;
    for n in 1..full {
        if n <= 8 && (v as u128) < 1u128 << (7 * n) {
            let low_bits = 8 - n;
            let prefix = (0xff00u32 >> (n - 1)) as u8;
            let prefix = if n == 1 { 0 } else { prefix };
            let mut out = vec![prefix | (v as u16 & ((1u16 << low_bits) - 1)) as u8];
            let rest = v >> low_bits;
            out.extend_from_slice(&rest.to_le_bytes()[..n - 1]);
            return out;
        }
    }
    let prefix = match width_bytes {
        2 => 0xc0,
        4 => 0xf0,
        _ => 0xff,
    };
    let mut out = vec![prefix];
    out.extend_from_slice(&v.to_le_bytes()[..width_bytes]);
    out
}

pub fn unvarint(b: &[u8], width_bytes: usize) -> Option<(u64, usize)> {
    let first = *b.first()?;
    let follow = (first.leading_ones() as usize).min(width_bytes);
    let rest = b.get(1..1 + follow)?;
    let mut le = [0u8; 8];
    le[..follow].copy_from_slice(rest);
    let high = u64::from_le_bytes(le);
    if follow == width_bytes {
        return Some((high, follow + 1));
    }
    if follow == 7 {
        return Some((high, 8));
    }
    let low_bits = 7 - follow;
    let low = first as u64 & ((1 << low_bits) - 1);
    Some((high << low_bits | low, follow + 1))
}

pub fn zigzag(v: i64) -> u64 {
    if v >= 0 {
        v as u64 * 2
    } else {
        (-(v as i128) * 2 - 1) as u64
    }
}

pub fn unzigzag(v: u64) -> i64 {
    if v % 2 == 0 {
        (v / 2) as i64
    } else {
        (-((v as i128 + 1) / 2)) as i64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum H {
    Unit,
    Opt(Box<H>),
    Bool,
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    BigUInt,
    BigInt,
    BigDec,
    Str,
    Bin,
    Arr(Box<H>),
    Tup(Vec<H>),
    Map(Box<H>),
    Enum(Vec<H>),
    Date,
    DateTime,
}

pub const LEAVES: [(u8, H); 19] = [
    (0, H::Unit),
    (2, H::Bool),
    (3, H::U8),
    (4, H::U16),
    (5, H::U32),
    (6, H::U64),
    (8, H::I8),
    (9, H::I16),
    (10, H::I32),
    (11, H::I64),
    (13, H::F32),
    (14, H::F64),
    (15, H::BigUInt),
    (16, H::BigInt),
    (17, H::BigDec),
    (18, H::Str),
    (19, H::Bin),
    (25, H::Date),
    (26, H::DateTime),
];

impl H {
    pub fn enc(&self, out: &mut Vec<u8>) {
        if let Some((c, _)) = LEAVES.iter().find(|(_, h)| h == self) {
            out.push(*c);
            return;
        }
        match self {
            H::Opt(h) => {
                out.push(1);
                h.enc(out)
            }
            H::Arr(h) => {
                out.push(20);
                h.enc(out)
            }
            H::Map(h) => {
                out.push(23);
                h.enc(out)
            }
            H::Tup(v) | H::Enum(v) => {
                out.push(if matches!(self, H::Tup(_)) { 21 } else { 24 });
                out.extend(varint(v.len() as u64, 2));
                for h in v {
                    h.enc(out)
                }
            }
            _ => unreachable!(),
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.enc(&mut v);
        v
    }

    /// How deep it nests.
    pub fn depth(&self) -> usize {
        match self {
            H::Opt(h) | H::Arr(h) | H::Map(h) => 1 + h.depth(),
            H::Tup(v) | H::Enum(v) => 1 + v.iter().map(|h| h.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }

    pub fn dec(b: &[u8], pos: &mut usize) -> Option<H> {
        let c = *b.get(*pos)?;
        *pos += 1;
        if let Some((_, h)) = LEAVES.iter().find(|(k, _)| *k == c) {
            return Some(h.clone());
        }
        match c {
            1 => Some(H::Opt(Box::new(H::dec(b, pos)?))),
            20 => Some(H::Arr(Box::new(H::dec(b, pos)?))),
            23 => Some(H::Map(Box::new(H::dec(b, pos)?))),
            21 | 24 => {
                let (n, k) = unvarint(&b[*pos..], 2)?;
                *pos += k;
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(H::dec(b, pos)?);
                }
                Some(if c == 21 { H::Tup(v) } else { H::Enum(v) })
            }
            _ => None,
        }
    }

    pub fn real(&self) -> dlhn::Header {
        use dlhn::Header as R;
        let many = |v: &Vec<H>| v.iter().map(|h| h.real()).collect::<Vec<_>>();
        match self {
            H::Unit => R::Unit,
            H::Opt(h) => R::Optional(Box::new(h.real())),
            H::Bool => R::Boolean,
            H::U8 => R::UInt8,
            H::U16 => R::UInt16,
            H::U32 => R::UInt32,
            H::U64 => R::UInt64,
            H::I8 => R::Int8,
            H::I16 => R::Int16,
            H::I32 => R::Int32,
            H::I64 => R::Int64,
            H::F32 => R::Float32,
            H::F64 => R::Float64,
            H::BigUInt => R::BigUInt,
            H::BigInt => R::BigInt,
            H::BigDec => R::BigDecimal,
            H::Str => R::String,
            H::Bin => R::Binary,
            H::Arr(h) => R::Array(Box::new(h.real())),
            H::Tup(v) => R::Tuple(many(v)),
            H::Map(h) => R::Map(Box::new(h.real())),
            H::Enum(v) => R::Enum(many(v)),
            H::Date => R::Date,
            H::DateTime => R::DateTime,
        }
    }

    pub fn zero_sized(&self) -> bool {
        match self {
            H::Unit => true,
            H::Tup(v) => v.iter().all(|h| h.zero_sized()),
            _ => false,
        }
    }

    /// Whether a value can exist at all (an enum without variants cannot).
    pub fn inhabited(&self) -> bool {
        match self {
            H::Tup(v) => v.iter().all(|h| h.inhabited()),
            H::Enum(v) => v.iter().any(|h| h.inhabited()),
            _ => true,
        }
    }

    pub fn arb(r: &mut Rng, depth: u32, max_children: u64) -> H {
        if depth == 0 || r.below(3) == 0 {
            return r.pick(&LEAVES).1.clone();
        }
        match r.below(6) {
            0 => H::Opt(Box::new(H::arb(r, depth - 1, max_children))),
            1 => H::Arr(Box::new(H::arb(r, depth - 1, max_children))),
            2 => H::Map(Box::new(H::arb(r, depth - 1, max_children))),
            k => {
                let n = r.size(max_children);
                let d = if n > 8 { 0 } else { depth - 1 };
                let v = (0..n).map(|_| H::arb(r, d, max_children / 4)).collect();
                if k < 4 {
                    H::Tup(v)
                } else {
                    H::Enum(v)
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Unit,
    Opt(Option<Box<B>>),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    BigUInt(Vec<u8>),
    BigInt(Vec<u8>),
    BigDec(Vec<u8>, i64),
    Str(String),
    Bin(Vec<u8>),
    Arr(Vec<B>),
    Tup(Vec<B>),
    Map(BTreeMap<String, B>),
    Enum(u32, Box<B>),
    Date(i32, u16),
    DateTime(i64, u32),
}

pub fn lenbytes(b: &[u8], out: &mut Vec<u8>) {
    out.extend(varint(b.len() as u64, 8));
    out.extend_from_slice(b);
}

fn take<'a>(b: &'a [u8], pos: &mut usize, n: u64) -> Option<&'a [u8]> {
    if n > (b.len() - *pos) as u64 {
        return None;
    }
    let r = &b[*pos..*pos + n as usize];
    *pos += n as usize;
    Some(r)
}

fn int(b: &[u8], pos: &mut usize, w: usize) -> Option<u64> {
    let (v, n) = unvarint(&b[*pos..], w)?;
    *pos += n;
    Some(v)
}

impl B {
    pub fn enc(&self, out: &mut Vec<u8>) {
        match self {
            B::Unit => {}
            B::Opt(None) => out.push(0),
            B::Opt(Some(v)) => {
                out.push(1);
                v.enc(out)
            }
            B::Bool(v) => out.push(*v as u8),
            B::U8(v) => out.push(*v),
            B::U16(v) => out.extend(varint(*v as u64, 2)),
            B::U32(v) => out.extend(varint(*v as u64, 4)),
            B::U64(v) => out.extend(varint(*v, 8)),
            B::I8(v) => out.push(*v as u8),
            B::I16(v) => out.extend(varint(zigzag(*v as i64), 2)),
            B::I32(v) => out.extend(varint(zigzag(*v as i64), 4)),
            B::I64(v) => out.extend(varint(zigzag(*v), 8)),
            B::F32(v) => out.extend(v.to_le_bytes()),
            B::F64(v) => out.extend(v.to_le_bytes()),
            B::BigUInt(v) | B::BigInt(v) | B::Bin(v) => lenbytes(v, out),
            B::BigDec(v, s) => {
                lenbytes(v, out);
                if !v.is_empty() {
                    out.extend(varint(zigzag(*s), 8));
                }
            }
            B::Str(s) => lenbytes(s.as_bytes(), out),
            B::Arr(v) => {
                out.extend(varint(v.len() as u64, 8));
                v.iter().for_each(|x| x.enc(out));
            }
            B::Tup(v) => v.iter().for_each(|x| x.enc(out)),
            B::Map(m) => {
                out.extend(varint(m.len() as u64, 8));
                for (k, v) in m {
                    lenbytes(k.as_bytes(), out);
                    v.enc(out);
                }
            }
            B::Enum(i, v) => {
                out.extend(varint(*i as u64, 4));
                v.enc(out);
            }
            B::Date(y, o) => {
                out.extend(varint(zigzag((*y as i64 - 2000) as i64), 4));
                out.extend(varint((*o - 1) as u64, 2));
            }
            B::DateTime(s, n) => {
                out.extend(varint(zigzag(*s), 8));
                out.extend(varint(*n as u64, 4));
            }
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.enc(&mut v);
        v
    }

    pub fn dec(h: &H, b: &[u8], pos: &mut usize) -> Option<B> {
        Some(match h {
            H::Unit => B::Unit,
            H::Opt(h) => match take(b, pos, 1)?[0] {
                0 => B::Opt(None),
                1 => B::Opt(Some(Box::new(B::dec(h, b, pos)?))),
                _ => return None,
            },
            H::Bool => match take(b, pos, 1)?[0] {
                0 => B::Bool(false),
                1 => B::Bool(true),
                _ => return None,
            },
            H::U8 => B::U8(take(b, pos, 1)?[0]),
            H::U16 => B::U16(int(b, pos, 2)? as u16),
            H::U32 => B::U32(int(b, pos, 4)? as u32),
            H::U64 => B::U64(int(b, pos, 8)?),
            H::I8 => B::I8(take(b, pos, 1)?[0] as i8),
            H::I16 => B::I16(unzigzag(int(b, pos, 2)?) as i16),
            H::I32 => B::I32(unzigzag(int(b, pos, 4)?) as i32),
            H::I64 => B::I64(unzigzag(int(b, pos, 8)?)),
            H::F32 => B::F32(u32::from_le_bytes(take(b, pos, 4)?.try_into().unwrap())),
            H::F64 => B::F64(u64::from_le_bytes(take(b, pos, 8)?.try_into().unwrap())),
            H::BigUInt | H::BigInt | H::Bin => {
                let n = int(b, pos, 8)?;
                let v = take(b, pos, n)?.to_vec();
                match h {
                    H::BigUInt => B::BigUInt(v),
                    H::BigInt => B::BigInt(v),
                    _ => B::Bin(v),
                }
            }
            H::BigDec => {
                let n = int(b, pos, 8)?;
                let v = take(b, pos, n)?.to_vec();
                let s = if v.is_empty() { 0 } else { unzigzag(int(b, pos, 8)?) };
                B::BigDec(v, s)
            }
            H::Str => {
                let n = int(b, pos, 8)?;
                B::Str(String::from_utf8(take(b, pos, n)?.to_vec()).ok()?)
            }
            H::Arr(h) => {
                let n = int(b, pos, 8)?;
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(B::dec(h, b, pos)?);
                }
                B::Arr(v)
            }
            H::Tup(hs) => {
                let mut v = Vec::new();
                for h in hs {
                    v.push(B::dec(h, b, pos)?);
                }
                B::Tup(v)
            }
            H::Map(h) => {
                let n = int(b, pos, 8)?;
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = match B::dec(&H::Str, b, pos)? {
                        B::Str(s) => s,
                        _ => unreachable!(),
                    };
                    m.insert(k, B::dec(h, b, pos)?);
                }
                B::Map(m)
            }
            H::Enum(hs) => {
                let i = int(b, pos, 4)? as u32;
                B::Enum(i, Box::new(B::dec(hs.get(i as usize)?, b, pos)?))
            }
            H::Date => {
                let y = unzigzag(int(b, pos, 4)?) as i32;
                let o = int(b, pos, 2)? as u16;
                B::Date(y.checked_add(2000)?, o.checked_add(1)?)
            }
            H::DateTime => {
                let s = unzigzag(int(b, pos, 8)?);
                B::DateTime(s, int(b, pos, 4)? as u32)
            }
        })
    }

    pub fn fits(&self, h: &H) -> bool {
        match (h, self) {
            (H::Unit, B::Unit)
            | (H::Bool, B::Bool(_))
            | (H::U8, B::U8(_))
            | (H::U16, B::U16(_))
            | (H::U32, B::U32(_))
            | (H::U64, B::U64(_))
            | (H::I8, B::I8(_))
            | (H::I16, B::I16(_))
            | (H::I32, B::I32(_))
            | (H::I64, B::I64(_))
            | (H::F32, B::F32(_))
            | (H::F64, B::F64(_))
            | (H::BigUInt, B::BigUInt(_))
            | (H::BigInt, B::BigInt(_))
            | (H::BigDec, B::BigDec(..))
            | (H::Str, B::Str(_))
            | (H::Bin, B::Bin(_))
            | (H::Date, B::Date(..))
            | (H::DateTime, B::DateTime(..)) => true,
            (H::Opt(h), B::Opt(v)) => v.as_ref().map_or(true, |v| v.fits(h)),
            (H::Arr(h), B::Arr(v)) => v.iter().all(|v| v.fits(h)),
            (H::Map(h), B::Map(v)) => v.values().all(|v| v.fits(h)),
            (H::Tup(h), B::Tup(v)) => {
                h.len() == v.len() && h.iter().zip(v).all(|(h, v)| v.fits(h))
            }
            (H::Enum(h), B::Enum(i, v)) => h.get(*i as usize).map_or(false, |h| v.fits(h)),
            _ => false,
        }
    }

    /// A value of the shape `h`; `None` where there is none.
    pub fn arb(h: &H, r: &mut Rng, size: u64) -> Option<B> {
        Some(match h {
            H::Unit => B::Unit,
            H::Opt(h) => {
                if r.one_in(3) {
                    B::Opt(None)
                } else {
                    B::Opt(B::arb(h, r, size).map(Box::new))
                }
            }
            H::Bool => B::Bool(r.one_in(2)),
            H::U8 => B::U8(r.int(8) as u8),
            H::U16 => B::U16(r.int(16) as u16),
            H::U32 => B::U32(r.int(32) as u32),
            H::U64 => B::U64(r.int(64)),
            H::I8 => B::I8(r.int(8) as i8),
            H::I16 => B::I16(r.i16()),
            H::I32 => B::I32(r.i32()),
            H::I64 => B::I64(r.i64()),
            H::F32 => B::F32(r.f32bits()),
            H::F64 => B::F64(r.f64bits()),
            H::BigUInt => B::BigUInt(r.bytes(size)),
            H::BigInt => B::BigInt(r.bytes(size)),
            H::BigDec => {
                let v = r.bytes(size);
                let s = if v.is_empty() { 0 } else { r.i64() };
                B::BigDec(v, s)
            }
            H::Str => B::Str(r.string(size)),
            H::Bin => B::Bin(r.bytes(size)),
            H::Arr(h) => {
                if !h.inhabited() {
                    return Some(B::Arr(vec![]));
                }
                let n = r.size(size);
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(B::arb(h, r, size / (1 + n as u64))?);
                }
                B::Arr(v)
            }
            H::Tup(hs) => {
                let mut v = Vec::new();
                for h in hs {
                    v.push(B::arb(h, r, size / (1 + hs.len() as u64))?);
                }
                B::Tup(v)
            }
            H::Map(h) => {
                let mut m = BTreeMap::new();
                if h.inhabited() {
                    let n = r.size(size.min(600));
                    for _ in 0..n {
                        let k = r.string((size / (1 + n as u64)).max(3));
                        m.insert(k, B::arb(h, r, size / (1 + n as u64))?);
                    }
                }
                B::Map(m)
            }
            H::Enum(hs) => {
                let ok: Vec<usize> = (0..hs.len()).filter(|i| hs[*i].inhabited()).collect();
                if ok.is_empty() {
                    return None;
                }
                let i = if r.one_in(3) {
                    *ok.last().unwrap()
                } else {
                    *r.pick(&ok)
                };
                B::Enum(i as u32, Box::new(B::arb(&hs[i], r, size)?))
            }
            H::Date => B::Date(
                r.i32().saturating_add(0).max(i32::MIN + 2000),
                (r.int(16) as u16).max(1),
            ),
            H::DateTime => B::DateTime(r.i64(), r.int(32) as u32),
        })
    }

    /// The real value. The types with private parts are made by decoding their reference bytes.
    pub fn real(&self) -> dlhn::Body {
        use dlhn::Body as R;
        fn opaque<T: for<'de> serde::Deserialize<'de>>(b: &B) -> T {
            let bytes = b.bytes();
            let mut r = bytes.as_slice();
            match T::deserialize(&mut dlhn::Deserializer::new(&mut r)) {
                Ok(v) if r.is_empty() => v,
                Ok(_) => panic!("{:?} does not consume {:?}", b, bytes),
                Err(e) => panic!("{:?} does not decode from {:?}: {:?}", b, bytes, e),
            }
        }
        match self {
            B::Unit => R::Unit,
            B::Opt(v) => R::Optional(v.as_ref().map(|v| Box::new(v.real()))),
            B::Bool(v) => R::Boolean(*v),
            B::U8(v) => R::UInt8(*v),
            B::U16(v) => R::UInt16(*v),
            B::U32(v) => R::UInt32(*v),
            B::U64(v) => R::UInt64(*v),
            B::I8(v) => R::Int8(*v),
            B::I16(v) => R::Int16(*v),
            B::I32(v) => R::Int32(*v),
            B::I64(v) => R::Int64(*v),
            B::F32(v) => R::Float32(f32::from_bits(*v)),
            B::F64(v) => R::Float64(f64::from_bits(*v)),
            B::BigUInt(_) => R::BigUInt(opaque(self)),
            B::BigInt(_) => R::BigInt(opaque(self)),
            B::BigDec(..) => R::BigDecimal(opaque(self)),
            B::Str(v) => R::String(v.clone()),
            B::Bin(v) => R::Binary(serde_bytes::ByteBuf::from(v.clone())),
            B::Arr(v) => R::Array(v.iter().map(|v| v.real()).collect()),
            B::Tup(v) => R::Tuple(v.iter().map(|v| v.real()).collect()),
            B::Map(m) => R::Map(m.iter().map(|(k, v)| (k.clone(), v.real())).collect()),
            B::Enum(i, v) => R::Enum(*i, Box::new(v.real())),
            B::Date(..) => R::Date(opaque(self)),
            B::DateTime(..) => R::DateTime(opaque(self)),
        }
    }

    /// Whether the real body is this value, floats bit for bit.
    pub fn is(&self, real: &dlhn::Body) -> bool {
        use dlhn::Body as R;
        fn same<T: serde::Serialize>(b: &B, v: &T) -> bool {
            crate::real::ser(v).ok() == Some(b.bytes())
        }
        match (self, real) {
            (B::Unit, R::Unit) => true,
            (B::Opt(None), R::Optional(None)) => true,
            (B::Opt(Some(a)), R::Optional(Some(b))) => a.is(b),
            (B::Bool(a), R::Boolean(b)) => a == b,
            (B::U8(a), R::UInt8(b)) => a == b,
            (B::U16(a), R::UInt16(b)) => a == b,
            (B::U32(a), R::UInt32(b)) => a == b,
            (B::U64(a), R::UInt64(b)) => a == b,
            (B::I8(a), R::Int8(b)) => a == b,
            (B::I16(a), R::Int16(b)) => a == b,
            (B::I32(a), R::Int32(b)) => a == b,
            (B::I64(a), R::Int64(b)) => a == b,
            (B::F32(a), R::Float32(b)) => *a == b.to_bits(),
            (B::F64(a), R::Float64(b)) => *a == b.to_bits(),
            (B::BigUInt(_), R::BigUInt(b)) => same(self, b),
            (B::BigInt(_), R::BigInt(b)) => same(self, b),
            (B::BigDec(..), R::BigDecimal(b)) => same(self, b),
            (B::Str(a), R::String(b)) => a == b,
            (B::Bin(a), R::Binary(b)) => a.as_slice() == b.as_slice(),
            (B::Arr(a), R::Array(b)) | (B::Tup(a), R::Tuple(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.is(b))
            }
            (B::Map(a), R::Map(b)) => {
                a.len() == b.len()
                    && a.iter().zip(b).all(|((k, a), (l, b))| k == l && a.is(b))
            }
            (B::Enum(i, a), R::Enum(j, b)) => i == j && a.is(b),
            (B::Date(..), R::Date(b)) => same(self, b),
            (B::DateTime(..), R::DateTime(b)) => same(self, b),
            _ => false,
        }
    }
}
