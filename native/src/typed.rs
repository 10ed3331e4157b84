//! Rust types with a built-in header, their expected header, and arbitrary values of them.
use crate::refmodel::{B, H};
use crate::rng::Rng;
use dlhn::SerializeHeader;
use serde::Serialize;
use std::collections::{BTreeMap, HashMap};

pub trait Typed: SerializeHeader {
    type Val: Serialize;
    fn header() -> H;
    fn arb(r: &mut Rng, size: u64) -> Self::Val;
    /// The body of the value, where it is not ambiguous.
    fn body(v: &Self::Val) -> B;
}

macro_rules! leaf {
    ($ty:ty, $h:expr, |$r:ident, $s:ident| $arb:expr, |$v:ident| $body:expr) => {
        impl Typed for $ty {
            type Val = $ty;
            fn header() -> H {
                $h
            }
            fn arb($r: &mut Rng, $s: u64) -> Self {
                let _ = $s;
                $arb
            }
            fn body($v: &Self) -> B {
                $body
            }
        }
    };
}

leaf!((), H::Unit, |r, s| { let _ = r; }, |v| { let _ = v; B::Unit });
leaf!(bool, H::Bool, |r, s| r.one_in(2), |v| B::Bool(*v));
leaf!(u8, H::U8, |r, s| r.int(8) as u8, |v| B::U8(*v));
leaf!(u16, H::U16, |r, s| r.int(16) as u16, |v| B::U16(*v));
leaf!(u32, H::U32, |r, s| r.int(32) as u32, |v| B::U32(*v));
leaf!(u64, H::U64, |r, s| r.int(64), |v| B::U64(*v));
leaf!(i8, H::I8, |r, s| r.int(8) as i8, |v| B::I8(*v));
leaf!(i16, H::I16, |r, s| r.i16(), |v| B::I16(*v));
leaf!(i32, H::I32, |r, s| r.i32(), |v| B::I32(*v));
leaf!(i64, H::I64, |r, s| r.i64(), |v| B::I64(*v));
leaf!(f32, H::F32, |r, s| f32::from_bits(r.f32bits()), |v| B::F32(v.to_bits()));
leaf!(f64, H::F64, |r, s| f64::from_bits(r.f64bits()), |v| B::F64(v.to_bits()));
leaf!(String, H::Str, |r, s| r.string(s), |v| B::Str(v.clone()));
leaf!(&'static str, H::Str, |r, s| {
    const S: [&str; 6] = ["", "a", "é語🙂", "0123456789", "\0", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"];
    let _ = s;
    *r.pick(&S)
}, |v| B::Str(v.to_string()));
leaf!(serde_bytes::ByteBuf, H::Bin, |r, s| serde_bytes::ByteBuf::from(r.bytes(s)), |v| B::Bin(v.to_vec()));
leaf!(dlhn::BigUint, H::BigUInt, |r, s| num_bigint::BigUint::from_bytes_le(&r.bytes(s)).into(), |v| {
    let n: num_bigint::BigUint = v.clone().into();
    B::BigUInt(if n == num_bigint::BigUint::from(0u8) { vec![] } else { n.to_bytes_le() })
});
leaf!(dlhn::BigInt, H::BigInt, |r, s| num_bigint::BigInt::from_signed_bytes_le(&r.bytes(s)).into(), |v| {
    let n: num_bigint::BigInt = v.clone().into();
    B::BigInt(if n == num_bigint::BigInt::from(0u8) { vec![] } else { n.to_signed_bytes_le() })
});
leaf!(dlhn::BigDecimal, H::BigDec, |r, s| bigdecimal::BigDecimal::new(
    num_bigint::BigInt::from_signed_bytes_le(&r.bytes(s.min(40))), r.i16() as i64 / 30).into(), |v| {
    let bytes = crate::real::ser(v).unwrap();
    B::dec(&H::BigDec, &bytes, &mut 0).expect("the bytes of a decimal")
});
leaf!(dlhn::Date, H::Date, |r, s| arb_date(r).into(), |v| {
    let d: time::Date = (*v).try_into().unwrap();
    B::Date(d.year(), d.ordinal())
});
leaf!(dlhn::DateTime, H::DateTime, |r, s| arb_date_time(r).into(), |v| {
    let d: time::OffsetDateTime = (*v).try_into().unwrap();
    B::DateTime(d.unix_timestamp(), d.nanosecond())
});

pub fn arb_date(r: &mut Rng) -> time::Date {
    let min = time::Date::MIN.to_julian_day() as i64;
    let max = time::Date::MAX.to_julian_day() as i64;
    let d = match r.below(4) {
        0 => min + r.below(800) as i64,
        1 => max - r.below(800) as i64,
        2 => 2451545 + r.i16() as i64,
        _ => min + r.below((max - min + 1) as u64) as i64,
    };
    time::Date::from_julian_day(d.clamp(min, max) as i32).unwrap()
}

pub fn arb_date_time(r: &mut Rng) -> time::OffsetDateTime {
    let min = time::PrimitiveDateTime::MIN.assume_utc().unix_timestamp();
    let max = time::PrimitiveDateTime::MAX.assume_utc().unix_timestamp();
    let t = match r.below(4) {
        0 => min + r.int(20) as i64,
        1 => max - r.int(20) as i64,
        2 => r.i32() as i64,
        _ => min + r.below((max - min + 1) as u64) as i64,
    };
    let n = match r.below(3) {
        0 => *r.pick(&[0u64, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 999_999_998, 999_999_999]),
        1 => r.int(32) % 1_000_000_000,
        _ => r.below(1_000_000_000),
    };
    time::OffsetDateTime::from_unix_timestamp(t.clamp(min, max))
        .unwrap()
        .replace_nanosecond(n as u32)
        .unwrap()
}

impl<T: Typed> Typed for Option<T> {
    type Val = Option<T::Val>;
    fn header() -> H {
        H::Opt(Box::new(T::header()))
    }
    fn arb(r: &mut Rng, s: u64) -> Self::Val {
        if r.one_in(3) {
            None
        } else {
            Some(T::arb(r, s))
        }
    }
    fn body(v: &Self::Val) -> B {
        B::Opt(v.as_ref().map(|v| Box::new(T::body(v))))
    }
}

impl<T: Typed> Typed for Vec<T> {
    type Val = Vec<T::Val>;
    fn header() -> H {
        H::Arr(Box::new(T::header()))
    }
    fn arb(r: &mut Rng, s: u64) -> Self::Val {
        let n = r.size(s);
        (0..n).map(|_| T::arb(r, s / (1 + n as u64))).collect()
    }
    fn body(v: &Self::Val) -> B {
        B::Arr(v.iter().map(|v| T::body(v)).collect())
    }
}

impl<T: Typed> Typed for BTreeMap<String, T> {
    type Val = BTreeMap<String, T::Val>;
    fn header() -> H {
        H::Map(Box::new(T::header()))
    }
    fn arb(r: &mut Rng, s: u64) -> Self::Val {
        let n = r.size(s.min(300));
        (0..n).map(|_| (r.string(40), T::arb(r, s / (1 + n as u64)))).collect()
    }
    fn body(v: &Self::Val) -> B {
        B::Map(v.iter().map(|(k, v)| (k.clone(), T::body(v))).collect())
    }
}

impl<T: Typed> Typed for HashMap<String, T> {
    type Val = HashMap<String, T::Val>;
    fn header() -> H {
        H::Map(Box::new(T::header()))
    }
    fn arb(r: &mut Rng, s: u64) -> Self::Val {
        let n = r.size(s.min(300));
        (0..n).map(|_| (r.string(40), T::arb(r, s / (1 + n as u64)))).collect()
    }
    fn body(v: &Self::Val) -> B {
        B::Map(v.iter().map(|(k, v)| (k.clone(), T::body(v))).collect())
    }
}

macro_rules! tuples {
    ($(($($n:ident $i:tt),+))+) => {$(
        impl<$($n: Typed),+> Typed for ($($n,)+) {
            type Val = ($($n::Val,)+);
            fn header() -> H {
                H::Tup(vec![$($n::header()),+])
            }
            fn arb(r: &mut Rng, s: u64) -> Self::Val {
                ($($n::arb(r, s / 4),)+)
            }
            fn body(v: &Self::Val) -> B {
                B::Tup(vec![$($n::body(&v.$i)),+])
            }
        }
    )+};
}

tuples! {
    (A0 0)
    (A0 0, A1 1)
    (A0 0, A1 1, A2 2)
    (A0 0, A1 1, A2 2, A3 3)
    (A0 0, A1 1, A2 2, A3 3, A4 4)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12, A13 13)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12, A13 13, A14 14)
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12, A13 13, A14 14, A15 15)
}

/// The header of `T` describes the bytes of `v`; what it shows is `Err`.
pub fn check<T: Typed + ?Sized>(r: &mut Rng, size: u64, hash_order: bool) -> crate::Outcome {
    let v = T::arb(r, size);
    check_value::<T>(&v, hash_order)
}

/// Also decodes the bytes as the type itself.
#[allow(dead_code)]
pub fn check_both<T>(r: &mut Rng, size: u64, hash_order: bool) -> crate::Outcome
where
    T: Typed<Val = T> + for<'de> serde::Deserialize<'de> + Serialize,
{
    let v = T::arb(r, size);
    let k = check_value::<T>(&v, hash_order)?;
    let bytes = crate::real::ser(&v).map_err(|e| e.to_string())?;
    let mut twice = bytes.clone();
    twice.extend_from_slice(&bytes);
    let (back, n) = crate::real::de::<T>(&twice)
        .map_err(|e| format!("{:?} does not decode as {}: {}", bytes, std::any::type_name::<T>(), e))?;
    let again = crate::real::ser(&back).map_err(|e| e.to_string())?;
    if n != bytes.len() || again != bytes {
        return Err(format!("{:?} decodes as {} consuming {} and is written again as {:?}", bytes, std::any::type_name::<T>(), n, again));
    }
    Ok(k)
}

pub fn check_header<T: SerializeHeader + ?Sized>(h: &H) -> Result<dlhn::Header, String> {
    let mut hb = Vec::new();
    T::serialize_header(&mut hb).map_err(|e| format!("header does not serialize: {}", e))?;
    if hb != h.bytes() {
        return Err(format!("header of {} is {:?}, expected {:?}", std::any::type_name::<T>(), hb, h.bytes()));
    }
    let (real, n) = crate::real::header(&hb).map_err(|e| format!("header does not decode: {}", e))?;
    if n != hb.len() || real != h.real() {
        return Err(format!("header {:?} decodes to {:?}", hb, real));
    }
    Ok(real)
}

pub fn check_value<T: Typed + ?Sized>(v: &T::Val, hash_order: bool) -> crate::Outcome {
    let h = T::header();
    let real = check_header::<T>(&h)?;
    let bytes = crate::real::ser(v).map_err(|e| format!("value does not serialize: {}", e))?;
    crate::detail(|| format!("{} as {:?}", std::any::type_name::<T>(), bytes));
    let b = T::body(v);
    check_body(&h, &real, &bytes, Some(&b), hash_order)
}

pub fn check_body(
    h: &H,
    real: &dlhn::Header,
    bytes: &[u8],
    expect: Option<&B>,
    hash_order: bool,
) -> crate::Outcome {
    let mut followed = bytes.to_vec();
    followed.extend([0xff, 0, 1, 0x80]);
    let (body, n) = crate::real::body(real, &followed)
        .map_err(|e| format!("body bytes {:?} do not decode under {:?}: {:?}", bytes, h, e))?;
    if n != bytes.len() {
        return Err(format!("decoding {:?} under {:?} consumed {} bytes", bytes, h, n));
    }
    if !body.validate(real) {
        return Err(format!("the decoded body {:?} does not validate against {:?}", body, h));
    }
    if let Some(b) = expect {
        if !b.is(&body) {
            return Err(format!("decoded {:?}, expected {:?}", body, b));
        }
        if !hash_order && b.bytes() != bytes {
            return Err(format!("{:?} was written as {:?}, expected {:?}", b, bytes, b.bytes()));
        }
    }
    let again = crate::real::ser(&body).map_err(|e| format!("body does not serialize: {}", e))?;
    if !hash_order && again != bytes {
        return Err(format!("body serializes to {:?}, not back to {:?}", again, bytes));
    }
    if hash_order && again.len() != bytes.len() {
        return Err(format!("body serializes to {} bytes, not back to {}", again.len(), bytes.len()));
    }
    Ok(crate::props::hash(&again))
}

pub type T16 = (bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, (), Option<u8>, Vec<i16>, dlhn::Date);

macro_rules! types {
    ($($ty:ty),+ $(,)?) => {
        pub const CHECKS: &[(fn(&mut Rng, u64, bool) -> crate::Outcome, &str)] = &[
            $((check::<$ty>, stringify!($ty))),+
        ];
    };
}

types!(
    (), bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, &'static str,
    serde_bytes::ByteBuf, dlhn::BigUint, dlhn::BigInt, dlhn::BigDecimal, dlhn::Date, dlhn::DateTime,
    Option<()>, Option<bool>, Option<String>, Option<Option<u16>>, Option<Vec<u8>>, Option<dlhn::DateTime>,
    Vec<()>, Vec<u8>, Vec<u16>, Vec<i64>, Vec<String>, Vec<Option<i32>>, Vec<Vec<u64>>, Vec<(u8, String)>,
    Vec<serde_bytes::ByteBuf>, Vec<dlhn::BigInt>, Vec<dlhn::BigDecimal>, Vec<dlhn::Date>,
    BTreeMap<String, ()>, BTreeMap<String, u8>, BTreeMap<String, Vec<String>>, BTreeMap<String, BTreeMap<String, i8>>,
    BTreeMap<String, Option<f64>>, HashMap<String, u32>, HashMap<String, Option<bool>>, HashMap<String, Vec<i16>>,
    HashMap<String, dlhn::BigUint>,
    (bool,),
    (u8, u16),
    (u8, u16, u32),
    (u8, u16, u32, u64),
    (u8, u16, u32, u64, i8),
    (u8, u16, u32, u64, i8, i16),
    (u8, u16, u32, u64, i8, i16, i32),
    (u8, u16, u32, u64, i8, i16, i32, i64),
    (u8, u16, u32, u64, i8, i16, i32, i64, f32),
    (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64),
    (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String),
    (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, bool),
    (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, bool, ()),
    (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, bool, (), Option<u8>),
    (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, bool, (), Option<u8>, Vec<i16>),
    T16,
    ((), (), ()),
    (Option<u8>, Option<String>),
    ((u8, (i16, (f32, ()))), Vec<(bool, BTreeMap<String, (u64, Option<Vec<u8>>)>)>),
    Vec<HashMap<String, (dlhn::Date, dlhn::DateTime)>>,
    Option<(dlhn::BigUint, dlhn::BigInt, dlhn::BigDecimal)>,
);

#[cfg(feature = "wrapped")]
macro_rules! wrapped {
    ($(($name:ident: $($t:ty),+);)+) => {
        /// Every built-in way to make a type from a type, around every leaf and around each other.
        pub const WRAPPED: &[&[(fn(&mut Rng, u64, bool) -> crate::Outcome, &str)]] = &[$($name),+];
        $(const $name: &[(fn(&mut Rng, u64, bool) -> crate::Outcome, &str)] = &[
            $(
                (check::<Option<$t>>, concat!("Option<", stringify!($t), ">")),
                (check::<Vec<$t>>, concat!("Vec<", stringify!($t), ">")),
                (check::<BTreeMap<String, $t>>, concat!("BTreeMap<String, ", stringify!($t), ">")),
                (check::<HashMap<String, $t>>, concat!("HashMap<String, ", stringify!($t), ">")),
                (check::<($t,)>, concat!("(", stringify!($t), ",)")),
                (check::<($t, bool, $t)>, concat!("(", stringify!($t), ", bool, ..)"))
            ),+
        ];)+
    };
}

#[cfg(feature = "wrapped")]
wrapped! {
    (W0: (), bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, serde_bytes::ByteBuf,
         dlhn::BigUint, dlhn::BigInt, dlhn::BigDecimal, dlhn::Date, dlhn::DateTime);
    (W1: Option<()>, Vec<()>, BTreeMap<String, ()>, HashMap<String, ()>, ((),), ((), ()));
    (W2: Option<u16>, Vec<u16>, BTreeMap<String, u16>, HashMap<String, u16>, (u16,), (u16, String));
}

/// The same over every type that a random header can be read as: the header's own values.
pub fn header_only(i: u64) -> crate::Outcome {
    match i {
        0 => check_header::<serde_bytes::Bytes>(&H::Bin),
        1 => check_header::<num_bigint::BigUint>(&H::BigUInt),
        2 => check_header::<num_bigint::BigInt>(&H::BigInt),
        3 => check_header::<bigdecimal::BigDecimal>(&H::BigDec),
        4 => check_header::<time::Date>(&H::Date),
        5 => check_header::<time::OffsetDateTime>(&H::DateTime),
        6 => check_header::<BTreeMap<&'static str, Vec<Option<u8>>>>(&H::Map(Box::new(H::Arr(Box::new(H::Opt(Box::new(H::U8))))))),
        _ => check_header::<HashMap<&'static str, (bool, f64)>>(&H::Map(Box::new(H::Tup(vec![H::Bool, H::F64])))),
    }
    .map(|_| i + 1)
}
