//! The groups of cases of each property.
use crate::dynv::{Shape, V, MAX_FIELDS};
use crate::faulty::{Pattern, Sink, Source, KINDS};
use crate::real::{body, de, header, header_bytes, ser};
use crate::refmodel::{lenbytes, unvarint, varint, B, H};
use crate::rng::{dict, mix, Rng};
use crate::{detail, Group, Outcome};
use dlhn::{Body, Deserializer, SerializeHeader, Serializer};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h | 1
}

macro_rules! ensure {
    ($c:expr, $($f:tt)*) => {
        if !$c {
            return Err(format!($($f)*));
        }
    };
}

pub fn groups(prop: &str) -> Vec<Group> {
    let g = |name, count, run| Group { name, count, run };
    match prop {
        "C01" => vec![
            g("small", 65536, c01_small),
            g("char", 0x110000, c01_char),
            g("wide", 0, c01_wide),
            g("run", 0, c01_run),
        ],
        "C02" => vec![
            g("small", 65536, c02_small),
            g("wide", 0, c02_wide),
        ],
        "C03" => vec![
            g("short", 1 + 256 + 65536, c03_short),
            g("long", 0, c03_long),
        ],
        "C04" => vec![
            g("lengths", LENGTHS.len() as u64 * 6 + 301 * 6, c04_lengths),
            g("random", 0, c04_random),
            g("truncated", 0, c04_truncated),
            g("utf8", 0, c04_utf8),
            g("hostile", 0, c04_hostile),
        ],
        "C05" => vec![
            g("counts", COUNTS.len() as u64 * 8 + 8, c05_counts),
            g("random", 0, c05_random),
            g("deep", 20 * 22, c05_deep),
            g("stream", 0, c05_stream),
            g("concrete", 0, c05_concrete),
            g("library", 0, c05_library),
        ],
        "C06" => vec![
            g("kinds", 28 * 8, c06_kinds),
            g("random", 0, c06_random),
            g("strings", 0, c06_strings),
            g("readable", 0, c06_readable),
        ],
        "C07" => vec![
            g("counts", COUNTS.len() as u64 * 4 + 301 * 2, c07_counts),
            g("refused", 24, c07_refused),
            g("deep", 20 * 10, c07_deep),
            g("random", 0, c07_random),
        ],
        "C08" => vec![
            g("short", 1 + 256 + 65536, c08_short),
            g("deep", 20 * 12, c08_deep),
            g("mutated", 0, c08_mutated),
            g("random", 0, c08_random),
        ],
        "C09" => vec![
            g("counts", COUNTS.len() as u64 * 4, c09_counts),
            g("leaves", 24 * 24 * 4, c09_leaves),
            g("one_wrong", COUNTS.len() as u64 * 3 * 6, c09_one_wrong),
            g("deep", 20 * 12, c09_deep),
            g("random", 0, c09_random),
            g("validate", 0, c09_validate),
        ],
        "C10" => vec![
            g("short", 24 * (1 + 256 + 256), c10_short),
            g("deep", 20 * 12, c10_deep),
            g("mutated", 0, c10_mutated),
            g("random", 0, c10_random),
            g("hostile", 0, c10_hostile),
        ],
        "C11" => vec![
            g("header", 8, crate::typed::header_only),
            g("types", built_in().len() as u64 * 16, c11_types),
            g("random", 0, c11_random),
        ],
        #[cfg(feature = "derived")]
        "C12" => vec![
            g("derived", crate::derived::CHECKS.len() as u64 * 24, c12_each),
            g("random", 0, c12_random),
        ],
        "KNOWN" => vec![
            g("aliased_field", 1, crate::known::aliased_field),
            g("uncounted_sequence", 1, crate::known::uncounted_sequence),
            g("flattened_struct", 1, crate::known::flattened_struct),
            g("skipped_variant", 1, crate::known::skipped_variant),
            g("skipped_newtype", 1, crate::known::skipped_newtype),
        ],
        "C13" => vec![
            g("dates", 20000, c13_dates),
            g("date_fields", 65536, c13_date_fields),
            g("assumed_dates", 20200, c13_assumed_dates),
            g("assumed_instants", 0, c13_assumed_instants),
            g("date_times", 0, c13_date_times),
            g("date_bytes", 0, c13_date_bytes),
            g("date_time_bytes", 0, c13_date_time_bytes),
        ],
        "C14" => vec![
            g("sizes", 400 * 3, c14_sizes),
            g("small", 70000, c14_small),
            g("assumed", 0, c14_assumed),
            g("random", 0, c14_random),
            g("decimal", 0, c14_decimal),
            g("bytes", 0, c14_bytes),
        ],
        "C15" => vec![
            g("write_value", 0, c15_write_value),
            g("read_value", 0, c15_read_value),
            g("write_body", 0, c15_write_body),
            g("read_body", 0, c15_read_body),
            g("write_header", 0, c15_write_header),
            g("read_header", 0, c15_read_header),
            g("typed_header", 0, c15_typed_header),
            g("bigs", 0, c15_bigs),
        ],
        _ => vec![],
    }
}

const TRAILERS: [&[u8]; 5] = [&[], &[0], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[1, 0x80, 0], &[0x7f]];

// ---- scalars ----------------------------------------------------------------------------

/// A scalar, comparable bit for bit.
trait Scalar: Serialize + for<'de> Deserialize<'de> + Copy + Debug {
    const H: H;
    fn b(self) -> B;
}

macro_rules! scalar {
    ($($t:ty, $h:ident, |$v:ident| $e:expr;)+) => {$(
        impl Scalar for $t {
            const H: H = H::$h;
            fn b(self) -> B {
                let $v = self;
                B::$h($e)
            }
        }
    )+};
}

scalar! {
    bool, Bool, |v| v;
    u8, U8, |v| v;
    u16, U16, |v| v;
    u32, U32, |v| v;
    u64, U64, |v| v;
    i8, I8, |v| v;
    i16, I16, |v| v;
    i32, I32, |v| v;
    i64, I64, |v| v;
    f32, F32, |v| v.to_bits();
    f64, F64, |v| v.to_bits();
}

fn round_trip<T: Scalar>(v: T) -> Outcome {
    detail(|| format!("{:?}: {}", v, std::any::type_name::<T>()));
    let bytes = ser(&v).map_err(|e| format!("{:?} does not serialize: {}", v, e))?;
    for t in TRAILERS {
        let mut all = bytes.clone();
        all.extend_from_slice(t);
        let (w, n) = de::<T>(&all).map_err(|e| format!("{:?} written as {:?} does not decode from {:?}: {}", v, bytes, all, e))?;
        ensure!(w.b() == v.b(), "{:?} written as {:?} decodes to {:?}", v, bytes, w);
        ensure!(n == bytes.len(), "{:?} written as {:?}, but decoding consumed {} of {:?}", v, bytes, n, all);
    }
    Ok(hash(&bytes))
}

fn c01_small(i: u64) -> Outcome {
    if i == 0 {
        let bytes = ser(&()).map_err(|e| format!("unit: {}", e))?;
        let (_, n) = de::<()>(&[1, 2]).map_err(|e| format!("unit: {}", e))?;
        ensure!(bytes.is_empty() && n == 0, "unit written as {:?}, decoding consumed {}", bytes, n);
    }
    if i < 2 {
        round_trip(i == 1)?;
    }
    if i < 256 {
        round_trip(i as u8)?;
        round_trip(i as u8 as i8)?;
    }
    round_trip(i as u16)?;
    round_trip(i as u16 as i16)
}

fn c01_char(i: u64) -> Outcome {
    let c = match char::from_u32(i as u32) {
        Some(c) => c,
        None => return Ok(0),
    };
    let bytes = ser(&c).map_err(|e| format!("{:?} does not serialize: {}", c, e))?;
    let mut all = bytes.clone();
    all.extend_from_slice(TRAILERS[i as usize % TRAILERS.len()]);
    let (w, n) = de::<char>(&all).map_err(|e| format!("{:?} written as {:?} does not decode: {}", c, bytes, e))?;
    ensure!(w == c && n == bytes.len(), "{:?} written as {:?} decodes to {:?} consuming {}", c, bytes, w, n);
    Ok(i + 1)
}

fn c01_wide(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    match r.below(8) {
        0 | 1 => round_trip(r.int(32) as u32),
        2 => round_trip(r.i32()),
        3 | 4 => round_trip(r.int(64)),
        5 => round_trip(r.i64()),
        6 => round_trip(f32::from_bits(r.f32bits())),
        _ => round_trip(f64::from_bits(r.f64bits())),
    }
}

/// Scalars one after another in one stream.
fn c01_run(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = 1 + r.below(12);
    let vs: Vec<V> = (0..n).map(|_| V::scalar(&mut r, 20)).collect();
    stream(&vs)
}

fn layout<T: Scalar>(v: T) -> Outcome {
    let bytes = ser(&v).map_err(|e| format!("{:?} does not serialize: {}", v, e))?;
    let want = v.b().bytes();
    ensure!(bytes == want, "{:?} as {} is written as {:?}, the format says {:?}", v, std::any::type_name::<T>(), bytes, want);
    Ok(hash(&bytes))
}

fn c02_small(i: u64) -> Outcome {
    if i < 2 {
        layout(i == 1)?;
    }
    if i < 256 {
        layout(i as u8)?;
        layout(i as u8 as i8)?;
    }
    layout(i as u16)?;
    layout(i as u16 as i16)
}

fn c02_wide(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    match r.below(8) {
        0 | 1 => layout(r.int(32) as u32),
        2 => layout(r.i32()),
        3 | 4 => layout(r.int(64)),
        5 => layout(r.i64()),
        6 => layout(f32::from_bits(r.f32bits())),
        _ => layout(f64::from_bits(r.f64bits())),
    }
}

fn arbitrary<T: Scalar>(b: &[u8]) -> Result<(), String> {
    let mut pos = 0;
    let want = B::dec(&T::H, b, &mut pos);
    match (de::<T>(b), want) {
        (Err(_), _) => Ok(()),
        (Ok((v, n)), Some(w)) if v.b() == w && n == pos => Ok(()),
        (Ok((v, n)), w) => Err(format!("{:?} decodes as {} to {:?} consuming {}; the format says {:?} consuming {}", b, std::any::type_name::<T>(), v, n, w, pos)),
    }?;
    let mut pos = 0;
    let want = B::dec(&H::Opt(Box::new(T::H)), b, &mut pos);
    match (de::<Option<T>>(b), want) {
        (Err(_), _) => Ok(()),
        (Ok((v, n)), Some(w)) if B::Opt(v.map(|v| Box::new(v.b()))) == w && n == pos => Ok(()),
        (Ok((v, n)), w) => Err(format!("{:?} decodes as Option<{}> to {:?} consuming {}; the format says {:?} consuming {}", b, std::any::type_name::<T>(), v, n, w, pos)),
    }
}

fn all_scalars(b: &[u8]) -> Outcome {
    detail(|| format!("{:?}", b));
    arbitrary::<bool>(b)?;
    arbitrary::<u8>(b)?;
    arbitrary::<u16>(b)?;
    arbitrary::<u32>(b)?;
    arbitrary::<u64>(b)?;
    arbitrary::<i8>(b)?;
    arbitrary::<i16>(b)?;
    arbitrary::<i32>(b)?;
    arbitrary::<i64>(b)?;
    arbitrary::<f32>(b)?;
    arbitrary::<f64>(b)?;
    // a character is written as a string
    let mut pos = 0;
    let want = B::dec(&H::Str, b, &mut pos);
    if let Ok((c, n)) = de::<char>(b) {
        match want {
            Some(B::Str(s)) if s.starts_with(c) && n == pos => {}
            w => return Err(format!("{:?} decodes as a character to {:?} consuming {}; the bytes hold {:?} consuming {}", b, c, n, w, pos)),
        }
    }
    let mut pos = 0;
    let want = B::dec(&H::Opt(Box::new(H::Str)), b, &mut pos);
    if let Ok((c, n)) = de::<Option<char>>(b) {
        let ok = match (&want, c) {
            (Some(B::Opt(None)), None) => n == pos,
            (Some(B::Opt(Some(s))), Some(c)) => matches!(&**s, B::Str(s) if s.starts_with(c)) && n == pos,
            _ => false,
        };
        ensure!(ok, "{:?} decodes as an optional character to {:?} consuming {}", b, c, n);
    }
    let (_, n) = de::<()>(b).map_err(|e| format!("unit does not decode from {:?}: {}", b, e))?;
    ensure!(n == 0, "decoding a unit consumed {} bytes", n);
    if let Ok((v, n)) = de::<Option<()>>(b) {
        ensure!(n == 1 && b[0] < 2 && v.is_some() == (b[0] == 1), "{:?} decodes as Option<()> to {:?} consuming {}", b, v, n);
    }
    Ok(hash(b))
}

fn short(i: u64) -> Vec<u8> {
    if i == 0 {
        vec![]
    } else if i <= 256 {
        vec![(i - 1) as u8]
    } else {
        vec![((i - 257) >> 8) as u8, (i - 257) as u8]
    }
}

fn c03_short(i: u64) -> Outcome {
    all_scalars(&short(i))
}

fn scalar_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(4) as usize,
        1 => 9 + r.below(3) as usize,
        _ => r.below(14) as usize,
    };
    let mut b = r.bytes_of(n);
    if n > 0 && r.one_in(3) {
        // interesting first bytes: a run of ones
        b[0] = ((0xff00u32 >> r.below(9)) as u8) | (r.next() as u8 >> r.below(9).min(7));
    }
    if n > 1 && r.one_in(3) {
        b[1] = b[0];
        b[0] = r.below(3) as u8;
    }
    b
}

fn c03_long(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    if r.one_in(4) {
        // the encoding of a value, cut
        let v = V::scalar(&mut r, 8);
        let mut b = v.bytes();
        if r.one_in(2) {
            b.insert(0, r.below(3) as u8);
        }
        let n = r.below(b.len() as u64 + 1) as usize;
        b.truncate(n);
        return all_scalars(&b);
    }
    all_scalars(&scalar_bytes(&mut r))
}

// ---- strings and byte buffers -----------------------------------------------------------

const LENGTHS: [usize; 44] = [
    301, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 4098, 5000, 8190, 8191,
    8192, 8193, 8194, 12287, 12288, 12289, 16382, 16383, 16384, 16385, 16386, 20000, 32767, 32768, 32769,
    40960, 40961, 65535, 65536, 65537, 100_000, 131_071, 131_072, 131_073, 1_000_003, 2_097_153,
];

fn length(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => {
            let n = LENGTHS.len() as u64 - if r.one_in(20) { 0 } else { 6 };
            LENGTHS[r.below(n) as usize]
        }
        1 => {
            // next to a multiple of a buffer size
            let unit = *r.pick(&[64usize, 127, 128, 256, 1024, 4096, 8192]);
            (unit * r.below(10) as usize + r.below(5) as usize).saturating_sub(2)
        }
        2 if !dict().ints.is_empty() => {
            let v = *r.pick(&dict().ints);
            if v <= 300_000 {
                (v + r.below(3)).saturating_sub(1) as usize
            } else {
                r.below(300) as usize
            }
        }
        3 => r.below(20000) as usize,
        _ => r.below(300) as usize,
    }
}

/// A `String` and a `ByteBuf` through the borrowed requests.
struct AskStr(String);
struct AskBytes(Vec<u8>);

impl<'de> Deserialize<'de> for AskStr {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct A;
        impl<'de> serde::de::Visitor<'de> for A {
            type Value = AskStr;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a string")
            }
            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<AskStr, E> {
                Ok(AskStr(v.to_string()))
            }
        }
        d.deserialize_str(A)
    }
}

impl<'de> Deserialize<'de> for AskBytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct A;
        impl<'de> serde::de::Visitor<'de> for A {
            type Value = AskBytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<AskBytes, E> {
                Ok(AskBytes(v.to_vec()))
            }
        }
        d.deserialize_bytes(A)
    }
}

fn string_case(s: &str, t: &[u8]) -> Outcome {
    detail(|| format!("a string of {} bytes: {:?}", s.len(), s));
    let bytes = ser(s).map_err(|e| format!("does not serialize: {}", e))?;
    let mut want = vec![];
    lenbytes(s.as_bytes(), &mut want);
    ensure!(bytes == want, "a string of {} bytes is not written as its length and its bytes", s.len());
    let mut all = bytes.clone();
    all.extend_from_slice(t);
    let (back, n) = de::<String>(&all).map_err(|e| format!("a string of {} bytes does not decode: {}", s.len(), e))?;
    ensure!(n == bytes.len(), "decoding a string of {} bytes consumed {} instead of {}", s.len(), n, bytes.len());
    ensure!(back == s, "a string of {} bytes decodes to another one of {} bytes", s.len(), back.len());
    let (back, n) = de::<AskStr>(&all).map_err(|e| format!("a string of {} bytes does not decode as str: {}", s.len(), e))?;
    ensure!(n == bytes.len() && back.0 == s, "a string of {} bytes, asked for as str, decodes to another", s.len());
    bytes_case(s.as_bytes(), t)
}

fn bytes_case(b: &[u8], t: &[u8]) -> Outcome {
    detail(|| format!("{} bytes: {:?}", b.len(), b));
    let bytes = ser(serde_bytes::Bytes::new(b)).map_err(|e| format!("does not serialize: {}", e))?;
    let mut want = vec![];
    lenbytes(b, &mut want);
    ensure!(bytes == want, "a buffer of {} bytes is not written as its length and its bytes", b.len());
    let mut all = bytes.clone();
    all.extend_from_slice(t);
    let (back, n) = de::<serde_bytes::ByteBuf>(&all).map_err(|e| format!("a buffer of {} bytes does not decode: {}", b.len(), e))?;
    ensure!(n == bytes.len(), "decoding a buffer of {} bytes consumed {} instead of {}", b.len(), n, bytes.len());
    ensure!(back.as_slice() == b, "a buffer of {} bytes decodes to another one of {} bytes", b.len(), back.len());
    let (back, n) = de::<AskBytes>(&all).map_err(|e| format!("a buffer of {} bytes does not decode as bytes: {}", b.len(), e))?;
    ensure!(n == bytes.len() && back.0 == b, "a buffer of {} bytes, asked for as bytes, decodes to another", b.len());
    Ok(hash(&bytes))
}

fn c04_lengths(i: u64) -> Outcome {
    let kind = i % 6;
    let k = (i / 6) as usize;
    let n = if k <= 300 { k } else { LENGTHS[k - 301] };
    let mut r = Rng::new(i);
    let t: Vec<u8> = if r.one_in(2) { vec![] } else { r.bytes_of(9) };
    match kind {
        0 | 1 => bytes_case(&r.bytes_of(n), &t),
        _ => string_case(&r.string_of(n), &t),
    }
}

fn c04_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = length(&mut r);
    let tn = r.below(10) as usize;
    let t = r.bytes_of(tn);
    if r.one_in(2) {
        bytes_case(&r.bytes_of(n), &t)
    } else {
        string_case(&r.string_of(n), &t)
    }
}

fn c04_truncated(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = length(&mut r).max(1);
    let s = r.string_of(n);
    let mut all = vec![];
    lenbytes(s.as_bytes(), &mut all);
    let cut = match r.below(4) {
        0 => all.len() - 1 - r.below((all.len() as u64).min(8)) as usize,
        1 => r.below((all.len() as u64).min(12)) as usize,
        2 => {
            let unit = *r.pick(&[127usize, 128, 4096, 8192]);
            (unit * r.below(4) as usize + r.below(5) as usize).min(all.len() - 1)
        }
        _ => r.below(all.len() as u64) as usize,
    };
    all.truncate(cut);
    detail(|| format!("{} announced bytes, cut to {} in all", s.len(), cut));
    ensure!(de::<String>(&all).is_err(), "a cut string decodes");
    ensure!(de::<serde_bytes::ByteBuf>(&all).is_err(), "a cut buffer decodes");
    Ok(hash(&all))
}

fn c04_utf8(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = length(&mut r).max(4);
    let mut b = r.string_of(n).into_bytes();
    let p = match r.below(3) {
        0 => b.len() - 1 - r.below(4) as usize,
        1 => r.below(4) as usize,
        _ => r.below(b.len() as u64) as usize,
    };
    b[p] = *r.pick(&[0xffu8, 0x80, 0xc0, 0xc3, 0xed, 0xf8, 0xf4, 0xe0]);
    if r.one_in(2) && p + 1 < b.len() {
        b[p + 1] = 0xa0;
    }
    detail(|| format!("{} bytes, changed at {}: {:?}", b.len(), p, b));
    let mut all = vec![];
    lenbytes(&b, &mut all);
    let end = all.len();
    all.extend([1, 2, 3]);
    match (std::str::from_utf8(&b), de::<String>(&all)) {
        (Err(_), Ok(_)) => Err("bytes that are not UTF-8 decode as a string".into()),
        (Ok(s), Ok((t, n))) if s == t && n == end => Ok(hash(&b)),
        (Err(_), Err(_)) => Ok(hash(&b)),
        (a, b) => Err(format!("decoding gives {:?} for {:?}", b.map(|b| b.1), a.map(|a| a.len()))),
    }
}

fn c04_hostile(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = match r.below(4) {
        0 => u64::MAX - r.below(5),
        1 => (1 << 31) + r.below(1 << 33),
        2 => 1 << r.below(64),
        _ => r.int(64),
    };
    let m = match r.below(3) {
        0 => 0,
        1 => r.below(300),
        _ => r.below(40000),
    };
    let m = m.min(n.saturating_sub(1)) as usize;
    let mut b = varint(n, 8);
    let at = b.len();
    b.resize(at + m, b'a');
    detail(|| format!("{} bytes announced, {} present", n, m));
    let limit = 200_000 + 16 * m as u64;
    let (x, p) = crate::alloc::peak(|| de::<String>(&b).is_ok());
    ensure!(n == 0 || !x, "decodes as a string");
    ensure!(p <= limit, "decoding a string reserved {} bytes of memory", p);
    let (x, p) = crate::alloc::peak(|| de::<serde_bytes::ByteBuf>(&b).is_ok());
    ensure!(n == 0 || !x, "decodes as a buffer");
    ensure!(p <= limit, "decoding a buffer reserved {} bytes of memory", p);
    Ok(mix(n) | 1)
}

// ---- composites -------------------------------------------------------------------------

const COUNTS: [usize; 30] = [
    0, 1, 2, 3, 63, 64, 65, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 300, 511, 512, 700, 1024,
    4095, 4096, 4097, 16383, 16384, 16385, 65535,
];

fn stream(vs: &[V]) -> Outcome {
    detail(|| format!("{:?}", vs));
    let mut out = Vec::new();
    {
        let mut s = Serializer::new(&mut out);
        for v in vs {
            v.serialize(&mut s).map_err(|e| format!("{:?} does not serialize: {}", v, e))?;
        }
    }
    let mut want = Vec::new();
    vs.iter().for_each(|v| v.enc(&mut want));
    ensure!(out == want, "{:?} written as {:?}, expected {:?}", vs, out, want);
    let mut all = out.clone();
    all.extend([0xff, 0, 1, 0x80, 0x7f]);
    let mut r = all.as_slice();
    {
        let mut d = Deserializer::new(&mut r);
        for v in vs {
            let w = Shape(v).deserialize(&mut d).map_err(|e| format!("{:?} does not decode: {}", v, e))?;
            ensure!(w == *v, "{:?} decodes to {:?}", v, w);
        }
    }
    ensure!(r.len() == 5, "decoding {:?} consumed {} bytes instead of {}", vs, all.len() - r.len(), out.len());
    Ok(hash(&out))
}

fn c05_counts(i: u64) -> Outcome {
    let n = *COUNTS.get(i as usize / 8).unwrap_or(&65537);
    let mut r = Rng::new(i);
    let f = n.min(MAX_FIELDS);
    let small = |r: &mut Rng| V::U8(r.next() as u8);
    stream(&[match i % 8 {
        0 => V::Seq((0..n).map(|_| small(&mut r)).collect()),
        1 => V::Map((0..n).map(|k| (V::Str(format!("{}", k)), V::U16(k as u16))).collect()),
        2 => V::Tuple((0..n).map(|_| V::scalar(&mut r, 4)).collect()),
        3 => V::Struct((0..f).map(|_| V::scalar(&mut r, 4)).collect()),
        4 => V::TupVar(n as u32, (0..n).map(|_| small(&mut r)).collect()),
        5 => V::StructVar(n as u32, (0..f).map(|_| small(&mut r)).collect()),
        6 => V::Seq((0..n.min(5000)).map(|_| V::Unit).collect()),
        _ => V::Seq((0..n.min(20000)).map(|_| V::None(Box::new(V::U8(0)))).collect()),
    }])
}

fn c05_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (d, s) = *r.pick(&[(2, 20u64), (3, 40), (4, 60), (3, 300), (6, 12)]);
    stream(&[V::arb(&mut r, d, s)])
}

fn c05_stream(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = 2 + r.below(5);
    let vs: Vec<V> = (0..n).map(|_| V::arb(&mut r, 3, 12)).collect();
    stream(&vs)
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Point {
    x: i32,
    y: Option<u64>,
    name: String,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Wrapper(Vec<Point>);

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Pair(u16, String);

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Empty;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Tree {
    Leaf,
    One(Box<Tree>),
    Two(Box<Tree>, Point),
    Named { left: Box<Tree>, right: Vec<Tree>, tag: Option<Empty> },
    Map(BTreeMap<String, Tree>),
    Char(char),
    Bytes(serde_bytes::ByteBuf),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct All {
    wrapper: Wrapper,
    pair: Pair,
    empty: Empty,
    tree: Tree,
    map: HashMap<String, (i8, i16, i64)>,
    array: [u32; 5],
    unit: (),
    nested: Option<Option<Option<bool>>>,
    text: Box<str>,
}

fn point(r: &mut Rng) -> (Point, V) {
    let p = Point { x: r.i32(), y: if r.one_in(2) { None } else { Some(r.int(64)) }, name: r.string(20) };
    let y = match p.y {
        None => V::None(Box::new(V::U64(0))),
        Some(y) => V::Some(Box::new(V::U64(y))),
    };
    let v = V::Struct(vec![V::I32(p.x), y, V::Str(p.name.clone())]);
    (p, v)
}

fn tree(r: &mut Rng, depth: u32) -> (Tree, V) {
    let k = if depth == 0 { *r.pick(&[0u64, 5, 6]) } else { r.below(7) };
    match k {
        0 => (Tree::Leaf, V::UnitVar(0)),
        1 => {
            let (t, v) = tree(r, depth - 1);
            (Tree::One(Box::new(t)), V::NewVar(1, Box::new(v)))
        }
        2 => {
            let (t, v) = tree(r, depth - 1);
            let (p, w) = point(r);
            (Tree::Two(Box::new(t), p), V::TupVar(2, vec![v, w]))
        }
        3 => {
            let (t, v) = tree(r, depth - 1);
            let n = r.below(4);
            let (ts, vs): (Vec<_>, Vec<_>) = (0..n).map(|_| tree(r, depth - 1)).unzip();
            let tag = if r.one_in(2) { Some(Empty) } else { None };
            let tv = if tag.is_some() { V::Some(Box::new(V::UnitStruct)) } else { V::None(Box::new(V::UnitStruct)) };
            (Tree::Named { left: Box::new(t), right: ts, tag }, V::StructVar(3, vec![v, V::Seq(vs), tv]))
        }
        4 => {
            let n = r.below(4);
            let mut m = BTreeMap::new();
            let mut w = BTreeMap::new();
            for _ in 0..n {
                let key = r.string(6);
                let (t, v) = tree(r, depth - 1);
                m.insert(key.clone(), t);
                w.insert(key, v);
            }
            (Tree::Map(m), V::NewVar(4, Box::new(V::Map(w.into_iter().map(|(k, v)| (V::Str(k), v)).collect()))))
        }
        5 => {
            let c = r.char();
            (Tree::Char(c), V::NewVar(5, Box::new(V::Char(c))))
        }
        _ => {
            let b = r.bytes(30);
            (Tree::Bytes(serde_bytes::ByteBuf::from(b.clone())), V::NewVar(6, Box::new(V::Bytes(b))))
        }
    }
}

fn c05_concrete(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = r.below(4);
    let (ps, pv): (Vec<_>, Vec<_>) = (0..n).map(|_| point(&mut r)).unzip();
    let (t, tv) = tree(&mut r, 4);
    let pair = Pair(r.int(16) as u16, r.string(10));
    let mut map = HashMap::new();
    let mut mv = vec![];
    if r.one_in(2) {
        let k = r.string(10);
        let v = (r.int(8) as i8, r.i16(), r.i64());
        mv.push((V::Str(k.clone()), V::Tuple(vec![V::I8(v.0), V::I16(v.1), V::I64(v.2)])));
        map.insert(k, v);
    }
    let array = [r.int(32) as u32, r.int(32) as u32, r.int(32) as u32, 0, 1];
    let text: Box<str> = r.string(40).into();
    let deep = V::Some(Box::new(V::None(Box::new(V::None(Box::new(V::Bool(true)))))));
    let pairv = V::TupleStruct(vec![V::U16(pair.0), V::Str(pair.1.clone())]);
    let textv = V::Str(text.to_string());
    let all = All {
        wrapper: Wrapper(ps),
        pair,
        empty: Empty,
        tree: t,
        map,
        array,
        unit: (),
        nested: Some(None),
        text,
    };
    let v = V::Struct(vec![
        V::NewStruct(Box::new(V::Seq(pv))),
        pairv,
        V::UnitStruct,
        tv,
        V::Map(mv),
        V::Tuple(array.iter().map(|x| V::U32(*x)).collect()),
        V::Unit,
        deep,
        textv,
    ]);
    detail(|| format!("{:?}", all));
    let bytes = ser(&all).map_err(|e| format!("does not serialize: {}", e))?;
    ensure!(bytes == v.bytes(), "{:?} is written as {:?}, expected {:?}", all, bytes, v.bytes());
    let mut twice = bytes.clone();
    twice.extend_from_slice(&bytes);
    let mut rd = twice.as_slice();
    for _ in 0..2 {
        let back = All::deserialize(&mut Deserializer::new(&mut rd)).map_err(|e| format!("{:?} does not decode: {}", all, e))?;
        ensure!(back == all, "{:?} decodes to {:?}", all, back);
    }
    ensure!(rd.is_empty(), "decoding twice left {} of {} bytes", rd.len(), twice.len());
    Ok(hash(&bytes))
}

/// A value twice in a row: its bytes are the ones of `v`, and it decodes back.
fn same<T: Serialize + for<'a> Deserialize<'a> + std::fmt::Debug>(x: T, v: V, eq: impl Fn(&T, &T) -> bool) -> Outcome {
    detail(|| format!("{:?}", x));
    let want = v.bytes();
    let mut all = Vec::new();
    {
        let mut s = Serializer::new(&mut all);
        for _ in 0..2 {
            x.serialize(&mut s).map_err(|e| format!("{:?} does not serialize: {}", x, e))?;
        }
    }
    ensure!(all == [want.as_slice(), &want].concat(), "{:?} twice is written as {:?}, once should be {:?}", x, all, want);
    let mut rd = all.as_slice();
    for _ in 0..2 {
        let back = T::deserialize(&mut Deserializer::new(&mut rd)).map_err(|e| format!("{:?} does not decode: {}", x, e))?;
        ensure!(eq(&back, &x), "{:?} decodes to {:?}", x, back);
    }
    ensure!(rd.is_empty(), "decoding {:?} twice left {} of {} bytes", x, rd.len(), all.len());
    Ok(hash(&all))
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
struct Generic<T, U = ()> {
    #[serde(rename = "other")]
    first: T,
    #[serde(skip)]
    skipped: u8,
    #[serde(default)]
    second: U,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(transparent)]
struct Thin<T> {
    inner: T,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(rename_all = "kebab-case", deny_unknown_fields)]
enum Choice<T> {
    #[serde(rename = "zero")]
    First,
    Second(T, T),
    Third {
        #[serde(rename = "x")]
        some_value: T,
    },
}

/// The standard library's composite types, and serde attributes that keep the shape.
fn c05_library(i: u64) -> Outcome {
    use std::borrow::Cow;
    use std::collections::*;
    use std::net::*;
    use std::ops::{Bound, Range, RangeInclusive};
    use std::time::{Duration, SystemTime};
    let mut r = Rng::new(i);
    let b = |v: V| Box::new(v);
    let (x, y) = (r.int(32) as u32, r.int(32) as u32);
    let (xv, yv) = (V::U32(x), V::U32(y));
    let text = r.string(30);
    let tv = V::Str(text.clone());
    let n = *r.pick(&[0usize, 1, 2, 31, 32, 33, 127, 128, 129, 300]);
    let set: BTreeSet<u16> = (0..n).map(|_| r.int(16) as u16).collect();
    let sv = V::Seq(set.iter().map(|x| V::U16(*x)).collect());
    let v4 = Ipv4Addr::from(r.next() as u32);
    let v4v = V::Tuple(v4.octets().iter().map(|x| V::U8(*x)).collect());
    let v6 = Ipv6Addr::from(((r.next() as u128) << 64) | r.next() as u128);
    let v6v = V::Tuple(v6.octets().iter().map(|x| V::U8(*x)).collect());
    let port = r.next() as u16;
    let secs = r.int(40);
    let nanos = r.below(1_000_000_000) as u32;
    let span = V::Struct(vec![V::U64(secs), V::U32(nanos)]);
    match i % 34 {
        0 => same(Ok::<u32, String>(x), V::NewVar(0, b(xv)), PartialEq::eq),
        1 => same(Err::<u32, String>(text), V::NewVar(1, b(tv)), PartialEq::eq),
        2 => same(IpAddr::V4(v4), V::NewVar(0, b(v4v)), PartialEq::eq),
        3 => same(IpAddr::V6(v6), V::NewVar(1, b(v6v)), PartialEq::eq),
        4 => same(SocketAddr::new(IpAddr::V4(v4), port), V::NewVar(0, b(V::Tuple(vec![v4v, V::U16(port)]))), PartialEq::eq),
        5 => same(SocketAddr::new(IpAddr::V6(v6), port), V::NewVar(1, b(V::Tuple(vec![v6v, V::U16(port)]))), PartialEq::eq),
        6 => same(Duration::new(secs, nanos), span, PartialEq::eq),
        7 => same(SystemTime::UNIX_EPOCH + Duration::new(secs, nanos), span, PartialEq::eq),
        8 => same(Range { start: x, end: y }, V::Struct(vec![xv, yv]), PartialEq::eq),
        9 => same(RangeInclusive::new(x, y), V::Struct(vec![xv, yv]), PartialEq::eq),
        10 => same(
            (Bound::Unbounded::<u32>, Bound::Included(x), Bound::Excluded(y)),
            V::Tuple(vec![V::UnitVar(0), V::NewVar(1, b(xv)), V::NewVar(2, b(yv))]),
            PartialEq::eq,
        ),
        11 => match std::num::NonZeroU32::new(x) {
            Some(z) => same((z, std::num::Wrapping(y)), V::Tuple(vec![xv, yv]), PartialEq::eq),
            None => Ok(0),
        },
        12 => same((std::cell::Cell::new(x), std::cell::RefCell::new(y)), V::Tuple(vec![xv, yv]), PartialEq::eq),
        13 => same(std::sync::Mutex::new(x), xv, |a, b| *a.lock().unwrap() == *b.lock().unwrap()),
        14 => same((std::marker::PhantomData::<String>, x), V::Tuple(vec![V::UnitStruct, xv]), PartialEq::eq),
        15 => same(std::path::PathBuf::from(&text), tv, PartialEq::eq),
        16 => match std::ffi::CString::new(text.as_bytes()) {
            Ok(c) => same(c, V::Bytes(text.into_bytes()), PartialEq::eq),
            Err(_) => Ok(0),
        },
        17 => same(
            std::ffi::OsString::from(&text),
            V::NewVar(0, b(V::Seq(text.bytes().map(V::U8).collect()))),
            PartialEq::eq,
        ),
        18 => same(set.iter().copied().take(1).collect::<HashSet<u16>>(), V::Seq(set.iter().take(1).map(|x| V::U16(*x)).collect()), PartialEq::eq),
        19 => same(set, sv, PartialEq::eq),
        20 => same(set.into_iter().collect::<VecDeque<u16>>(), sv, PartialEq::eq),
        21 => same(set.into_iter().collect::<LinkedList<u16>>(), sv, PartialEq::eq),
        22 => {
            let heap = set.into_iter().collect::<BinaryHeap<u16>>();
            let v = V::Seq(heap.iter().map(|x| V::U16(*x)).collect());
            same(heap, v, |a, b| a.iter().eq(b.iter()))
        }
        23 => same(set.into_iter().collect::<Box<[u16]>>(), sv, PartialEq::eq),
        24 => same(Cow::<str>::Owned(text), tv, PartialEq::eq),
        25 => same(std::cmp::Reverse(Box::new(x)), xv, PartialEq::eq),
        26 => same([x; 32], V::Tuple(vec![xv; 32]), PartialEq::eq),
        27 => same(([(); 0], [text.clone()]), V::Tuple(vec![V::Tuple(vec![]), V::Tuple(vec![tv])]), PartialEq::eq),
        28 => same(
            (1u8, 2u8, 3u8, 4u8, 5u8, 6u8, x, y, text, (), Some(x), [y]),
            V::Tuple((1..7).map(V::U8).chain([xv.clone(), yv.clone(), tv, V::Unit, V::Some(b(xv)), V::Tuple(vec![yv])]).collect()),
            PartialEq::eq,
        ),
        29 => same(
            Generic { first: text, skipped: 0, second: Generic { first: x, skipped: 0, second: () } },
            V::Struct(vec![tv, V::Struct(vec![xv, V::Unit])]),
            PartialEq::eq,
        ),
        30 => same(
            vec![Choice::First, Choice::Second(x, y), Choice::Third { some_value: x }],
            V::Seq(vec![V::UnitVar(0), V::TupVar(1, vec![xv.clone(), yv]), V::StructVar(2, vec![xv])]),
            PartialEq::eq,
        ),
        31 => same(Thin { inner: Thin { inner: Some(text) } }, V::Some(b(tv)), PartialEq::eq),
        32 => {
            let m: BTreeMap<Thin2, Choice<String>> = [(Thin2(text.clone()), Choice::Third { some_value: text })].into_iter().collect();
            same(m, V::Map(vec![(tv.clone(), V::StructVar(2, vec![tv]))]), PartialEq::eq)
        }
        _ => {
            let m: BTreeMap<char, ()> = BTreeMap::new();
            same((m, Some(())), V::Tuple(vec![V::Map(vec![]), V::Some(b(V::Unit))]), PartialEq::eq)
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
#[serde(transparent)]
struct Thin2(String);

// ---- map keys ---------------------------------------------------------------------------

fn bad_key(kind: u64, r: &mut Rng) -> V {
    match kind {
        0 => V::Unit,
        1 => V::Bool(r.one_in(2)),
        2 => V::I8(r.next() as i8),
        3 => V::I16(r.i16()),
        4 => V::I32(r.i32()),
        5 => V::I64(r.i64()),
        6 => V::U8(r.next() as u8),
        7 => V::U16(r.int(16) as u16),
        8 => V::U32(r.int(32) as u32),
        9 => V::U64(r.int(64)),
        10 => V::F32(r.f32bits()),
        11 => V::F64(r.f64bits()),
        12 => V::Char(r.char()),
        13 => V::Bytes(r.bytes(20)),
        14 => V::None(Box::new(V::Unit)),
        15 => V::Some(Box::new(V::Str(r.string(5)))),
        16 => V::UnitStruct,
        17 => V::NewStruct(Box::new(V::Str(r.string(5)))),
        18 => V::Seq(vec![V::Str("a".into())]),
        19 => V::Seq(vec![]),
        20 => V::Tuple(vec![V::Str("a".into())]),
        21 => V::TupleStruct(vec![V::Str("a".into()), V::U8(1)]),
        22 => V::Map(vec![(V::Str("a".into()), V::U8(1))]),
        23 => V::Struct(vec![V::Str("a".into())]),
        24 => V::UnitVar(r.int(32) as u32),
        25 => V::NewVar(r.int(32) as u32, Box::new(V::Str("a".into()))),
        26 => V::TupVar(r.int(32) as u32, vec![V::Str("a".into())]),
        _ => V::StructVar(r.int(32) as u32, vec![V::Str("a".into())]),
    }
}

fn key_refused(before: Vec<(V, V)>, key: V) -> Outcome {
    let mut want = varint(before.len() as u64 + 1, 8);
    for (k, v) in &before {
        k.enc(&mut want);
        v.enc(&mut want);
    }
    let mut entries = before;
    entries.push((key, V::U8(7)));
    let m = V::Map(entries);
    detail(|| format!("{:?}", m));
    let mut out = Vec::new();
    let r = m.serialize(&mut Serializer::new(&mut out));
    ensure!(
        matches!(r, Err(dlhn::ser::Error::UnsupportedKeyType)),
        "{:?} gives {:?} and not the unsupported-key-type error", m, r
    );
    ensure!(out == want, "the output is {:?}, it should stop at {:?}", out, want);
    Ok(hash(&out) ^ 2)
}

fn c06_kinds(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = (i / 28) % 4;
    let before = (0..n).map(|_| (V::Str(r.string(5)), V::scalar(&mut r, 5))).collect();
    let k = bad_key(i % 28, &mut r);
    key_refused(before, k).map(|_| i + 1)
}

fn c06_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = r.size(40);
    let before = (0..n).map(|_| (V::Str(r.string(50)), V::arb(&mut r, 2, 10))).collect();
    let key = loop {
        let v = if r.one_in(2) {
            let k = r.below(28);
            bad_key(k, &mut r)
        } else {
            V::arb(&mut r, 2, 10)
        };
        if !matches!(v, V::Str(_)) {
            break v;
        }
    };
    key_refused(before, key)
}

fn c06_strings(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = 1 + r.below(4);
    let ks: Vec<String> = (0..n).map(|_| { let l = length(&mut r); r.string_of(l.min(20000)) }).collect();
    let m = V::Map(ks.iter().map(|k| (V::Str(k.clone()), V::Unit)).collect());
    detail(|| format!("keys {:?}", ks));
    let bytes = ser(&m).map_err(|e| format!("string keys are refused: {}", e))?;
    let mut want = varint(n, 8);
    for k in &ks {
        want.extend(ser(k).map_err(|e| e.to_string())?);
    }
    ensure!(bytes == want, "string keys of {:?} bytes are not written as the same strings", ks.iter().map(|k| k.len()).collect::<Vec<_>>());
    let one: BTreeMap<String, ()> = ks.iter().map(|k| (k.clone(), ())).collect();
    let b2 = ser(&one).map_err(|e| e.to_string())?;
    let (back, c) = de::<BTreeMap<String, ()>>(&b2).map_err(|e| format!("does not decode: {}", e))?;
    ensure!(back == one && c == b2.len(), "the map decodes to another");
    Ok(hash(&bytes))
}

/// Keys of types that are strings in human readable formats only.
fn c06_readable(i: u64) -> Outcome {
    use std::net::*;
    fn go<K: serde::Serialize + Ord>(text: String, key: K) -> Outcome {
        let mut m = BTreeMap::new();
        m.insert(key, 1u8);
        detail(|| format!("a key that is {} in human readable formats", text));
        let mut out = Vec::new();
        let r = m.serialize(&mut Serializer::new(&mut out));
        ensure!(
            matches!(r, Err(dlhn::ser::Error::UnsupportedKeyType)),
            "the key gives {:?} and not the unsupported-key-type error", r
        );
        ensure!(out == [1], "the output is {:?}, it should stop at the count", out);
        Ok(hash(text.as_bytes()))
    }
    let mut r = Rng::new(i);
    let v4 = Ipv4Addr::from(r.next() as u32);
    let v6 = Ipv6Addr::from(((r.next() as u128) << 64) | r.next() as u128);
    let port = r.next() as u16;
    match i % 6 {
        0 => go(v4.to_string(), IpAddr::V4(v4)),
        1 => go(v6.to_string(), IpAddr::V6(v6)),
        2 => go(v4.to_string(), v4),
        3 => go(v6.to_string(), v6),
        4 => go(format!("{}:{}", v4, port), SocketAddrV4::new(v4, port)),
        _ => go(format!("[{}]:{}", v6, port), SocketAddr::new(IpAddr::V6(v6), port)),
    }
}

// ---- headers ----------------------------------------------------------------------------

fn header_case(h: &H) -> Outcome {
    detail(|| format!("{:?}", h));
    let real = h.real();
    let bytes = header_bytes(&real).map_err(|e| format!("does not serialize: {}", e))?;
    ensure!(bytes == h.bytes(), "written as {:?}, expected {:?}", bytes, h.bytes());
    let mut all = bytes.clone();
    all.extend([24, 1, 0xff]);
    let (back, n) = header(&all).map_err(|e| format!("does not decode: {}", e))?;
    ensure!(n == bytes.len(), "decoding {:?} consumed {} of {} bytes", bytes, n, bytes.len());
    ensure!(back == real, "{:?} decodes to {:?}", bytes, back);
    Ok(hash(&bytes))
}

fn c07_counts(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    if i < 602 {
        let v = (0..i / 2).map(|_| H::arb(&mut r, 0, 0)).collect();
        return header_case(&if i % 2 == 0 { H::Tup(v) } else { H::Enum(v) });
    }
    let i = i - 602;
    let n = COUNTS[i as usize / 4];
    let v: Vec<H> = (0..n).map(|_| H::arb(&mut r, 0, 0)).collect();
    header_case(&match i % 4 {
        0 => H::Tup(v),
        1 => H::Enum(v),
        2 => H::Map(Box::new(H::Tup(v))),
        _ => H::Tup(vec![H::Enum(v), H::U8, H::Tup(vec![])]),
    })
}

fn c07_refused(i: u64) -> Outcome {
    let n = [65536usize, 65537, 65538, 65536 + 127, 65536 + 128, 131071, 131072, 70000, 100000, 131073, 196608, 200000][i as usize / 2];
    let v = vec![dlhn::Header::Unit; n];
    let h = if i % 2 == 0 { dlhn::Header::Tuple(v) } else { dlhn::Header::Enum(v) };
    detail(|| format!("{} elements", n));
    match header_bytes(&h) {
        Err(_) => {}
        Ok(b) => return Err(format!("written although the format cannot express it: {} bytes", b.len())),
    }
    match header_bytes(&dlhn::Header::Tuple(vec![dlhn::Header::Optional(Box::new(h))])) {
        Err(_) => Ok(i + 1),
        Ok(b) => Err(format!("written inside a tuple although the format cannot express it: {} bytes", b.len())),
    }
}

/// Where a nesting limit could lie.
const DEPTHS: [usize; 20] = [
    10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025,
];

/// One case for each depth and each way to nest (0..kinds), and as many with all of them mixed.
fn nested<T>(i: u64, kinds: u64, leaf: T, mut wrap: impl FnMut(u64, &mut Rng, T) -> T) -> T {
    let mut r = Rng::new(i);
    let kind = i % (2 * kinds);
    let mut v = leaf;
    for _ in 0..DEPTHS[(i / (2 * kinds)) as usize] {
        let k = if kind < kinds { kind } else { r.below(kinds) };
        v = wrap(k, &mut r, v);
    }
    v
}

fn c07_deep(i: u64) -> Outcome {
    let leaf = H::arb(&mut Rng::new(i), 0, 0);
    header_case(&nested(i, 5, leaf, |k, _, h| match k {
        0 => H::Opt(Box::new(h)),
        1 => H::Arr(Box::new(h)),
        2 => H::Map(Box::new(h)),
        3 => H::Tup(vec![H::U8, h, H::Str]),
        _ => H::Enum(vec![h, H::Unit]),
    }))
}

fn c05_deep(i: u64) -> Outcome {
    stream(&[nested(i, 11, V::U16(i as u16), |k, r, v| match k {
        0 => V::Some(Box::new(v)),
        1 => V::NewStruct(Box::new(v)),
        2 => V::Seq(vec![v]),
        3 => V::Tuple(vec![V::U8(r.next() as u8), v, V::Str("t".into())]),
        4 => V::TupleStruct(vec![v, V::Unit]),
        5 => V::Map(vec![(V::Str("k".into()), v)]),
        6 => V::Struct(vec![V::Bool(true), v]),
        7 => V::NewVar(r.below(200) as u32, Box::new(v)),
        8 => V::TupVar(r.below(200) as u32, vec![v, V::I8(-1)]),
        9 => V::StructVar(r.below(200) as u32, vec![v]),
        _ => V::Tuple(vec![v]),
    })])
}

/// A header and a body under it that nest deep.
fn deep_pair(i: u64) -> (H, B) {
    nested(i, 6, (H::U16, B::U16(i as u16)), |k, r, (h, b)| match k {
        0 => (H::Opt(Box::new(h)), B::Opt(Some(Box::new(b)))),
        1 => (H::Arr(Box::new(h)), B::Arr(vec![b])),
        2 => (H::Map(Box::new(h)), B::Map([("k".to_string(), b)].into_iter().collect())),
        3 => (H::Tup(vec![H::U8, h, H::Bool]), B::Tup(vec![B::U8(r.next() as u8), b, B::Bool(true)])),
        4 => (H::Enum(vec![h, H::Unit]), B::Enum(0, Box::new(b))),
        _ => (H::Enum(vec![H::Unit, H::Str, h]), B::Enum(2, Box::new(b))),
    })
}

fn c09_deep(i: u64) -> Outcome {
    let (h, b) = deep_pair(i);
    body_case(&h, &b)?;
    // the same nesting around something else
    let (h2, _) = deep_pair_of(i, H::U32);
    validate_case(&h2, &b)
}

fn deep_pair_of(i: u64, leaf: H) -> (H, B) {
    fn put(h: &mut H, leaf: &H) {
        match h {
            H::Opt(x) | H::Arr(x) | H::Map(x) => put(x, leaf),
            H::Tup(v) => put(&mut v[1], leaf),
            H::Enum(v) if v.len() == 2 => put(&mut v[0], leaf),
            H::Enum(v) => put(&mut v[2], leaf),
            x => *x = leaf.clone(),
        }
    }
    let (mut h, b) = deep_pair(i);
    put(&mut h, &leaf);
    (h, b)
}

fn c10_deep(i: u64) -> Outcome {
    let (h, b) = deep_pair(i);
    let bytes = b.bytes();
    body_bytes_case(&h, &bytes)?;
    body_bytes_case(&h, &bytes[..bytes.len() - 1])
}

fn c08_deep(i: u64) -> Outcome {
    let (h, _) = deep_pair(i);
    let bytes = h.bytes();
    header_bytes_case(&bytes)?;
    header_bytes_case(&bytes[..bytes.len() - 1])
}

fn c07_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (d, c) = *r.pick(&[(2u32, 10u64), (4, 20), (6, 8), (3, 300)]);
    header_case(&H::arb(&mut r, d, c))
}

fn header_bytes_case(b: &[u8]) -> Outcome {
    detail(|| format!("{:?}", b));
    let mut pos = 0;
    let want = H::dec(b, &mut pos);
    match (header(b), want) {
        (Err(_), None) => Ok(1),
        (Err(e), Some(h)) => {
            // only a description that is not written in its usual form may be refused
            ensure!(h.bytes() != b[..pos], "{:?} describes {:?} but is refused: {}", b, h, e);
            Ok(1)
        }
        (Ok((h, n)), Some(w)) => {
            ensure!(h == w.real(), "{:?} decodes to {:?}, it describes {:?}", b, h, w);
            ensure!(n == pos, "{:?} decodes consuming {} bytes instead of {}", b, n, pos);
            let again = header_bytes(&h).map_err(|e| format!("the decoded {:?} does not serialize: {}", h, e))?;
            let (h2, _) = header(&again).map_err(|e| format!("{:?} does not decode again: {}", h, e))?;
            ensure!(h2 == h, "{:?} serializes to a description of {:?}", h, h2);
            Ok(hash(b))
        }
        (Ok((h, n)), None) => Err(format!("{:?} is no description but decodes to {:?} consuming {}", b, h, n)),
    }
}

fn c08_short(i: u64) -> Outcome {
    header_bytes_case(&short(i))
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        match r.below(5) {
            0 => {
                let n = r.below(b.len() as u64 + 1) as usize;
                b.truncate(n);
            }
            1 if !b.is_empty() => {
                let p = r.below(b.len() as u64) as usize;
                b[p] = r.next() as u8;
            }
            2 if !b.is_empty() => {
                let p = r.below(b.len() as u64) as usize;
                b[p] ^= 1 << r.below(8);
            }
            3 => {
                let p = r.below(b.len() as u64 + 1) as usize;
                b.insert(p, *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0xc0, 21, 24]));
            }
            _ if !b.is_empty() => {
                let p = r.below(b.len() as u64) as usize;
                b.remove(p);
            }
            _ => {}
        }
    }
}

fn c08_mutated(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let mut b = H::arb(&mut r, 4, 12).bytes();
    mutate(&mut r, &mut b);
    header_bytes_case(&b)
}

fn c08_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = r.below(30) as usize;
    let b: Vec<u8> = (0..n)
        .map(|_| match r.below(6) {
            0 => r.next() as u8,
            1 => *r.pick(&[7u8, 12, 22, 27, 28, 0x80, 0xff]),
            2 => r.below(4) as u8,
            _ => r.below(28) as u8,
        })
        .collect();
    header_bytes_case(&b)
}

// ---- bodies -----------------------------------------------------------------------------

fn body_case(h: &H, b: &B) -> Outcome {
    detail(|| format!("{:?} under {:?}", b, h));
    let (rh, rb) = (h.real(), b.real());
    ensure!(rb.validate(&rh), "does not validate");
    let bytes = ser(&rb).map_err(|e| format!("does not serialize: {}", e))?;
    ensure!(bytes == b.bytes(), "written as {:?}, expected {:?}", bytes, b.bytes());
    let mut all = bytes.clone();
    all.extend([0xff, 1, 0, 0x80]);
    let (back, n) = body(&rh, &all).map_err(|e| format!("{:?} does not decode: {}", bytes, e))?;
    ensure!(n == bytes.len(), "decoding {:?} consumed {} bytes", bytes, n);
    ensure!(b.is(&back), "decodes to {:?}", back);
    Ok(hash(&bytes))
}

fn c09_counts(i: u64) -> Outcome {
    let n = COUNTS[i as usize / 4];
    let mut r = Rng::new(i);
    match i % 4 {
        0 => body_case(&H::Arr(Box::new(H::U16)), &B::Arr((0..n).map(|_| B::U16(r.int(16) as u16)).collect())),
        1 => {
            let n = n.min(5000);
            body_case(&H::Map(Box::new(H::Bool)), &B::Map((0..n).map(|k| (format!("k{}", k), B::Bool(k % 3 == 0))).collect()))
        }
        2 => {
            let hs: Vec<H> = (0..n).map(|_| H::arb(&mut r, 0, 0)).collect();
            let bs = hs.iter().map(|h| B::arb(h, &mut r, 4).unwrap()).collect();
            body_case(&H::Tup(hs), &B::Tup(bs))
        }
        _ => {
            if n == 0 {
                return Ok(0);
            }
            let mut hs: Vec<H> = (0..n).map(|_| H::U8).collect();
            hs[n - 1] = H::Str;
            body_case(&H::Enum(hs.clone()), &B::Enum(n as u32 - 1, Box::new(B::Str("last".into()))))?;
            // an index the enum does not have
            let real = dlhn::Body::Enum(n as u32, Box::new(Body::Str_("x")));
            ensure!(!real.validate(&H::Enum(hs).real()), "variant {} of {} validates", n, n);
            Ok(i + 1)
        }
    }
}

/// One element of many that does not fit, in every place where a count of elements could end.
fn c09_one_wrong(i: u64) -> Outcome {
    let n = COUNTS[i as usize / 18];
    if n == 0 {
        return Ok(0);
    }
    let at = [0, n - 1, n / 2, 255.min(n - 1), 256.min(n - 1), n.saturating_sub(2)][i as usize / 3 % 6];
    let el = |k: usize| if k == at { B::Bool(true) } else { B::U8(k as u8) };
    let (h, b) = match i % 3 {
        0 => (H::Tup(vec![H::U8; n]), B::Tup((0..n).map(el).collect())),
        1 => (H::Arr(Box::new(H::U8)), B::Arr((0..n).map(el).collect())),
        // keys in the order of the map
        _ => (H::Map(Box::new(H::U8)), B::Map((0..n).map(|k| (format!("k{:06}", k), el(k))).collect())),
    };
    detail(|| format!("{:?}: {} elements, the wrong one at {}", ["tuple", "array", "map"][i as usize % 3], n, at));
    ensure!(!b.real().validate(&h.real()), "a value with one element of another type validates");
    Ok(i + 1)
}

trait StrBody {
    #[allow(non_snake_case)]
    fn Str_(s: &str) -> Body;
}
impl StrBody for Body {
    fn Str_(s: &str) -> Body {
        Body::String(s.to_string())
    }
}

fn kinds() -> Vec<H> {
    let mut v: Vec<H> = crate::refmodel::LEAVES.iter().map(|l| l.1.clone()).collect();
    v.push(H::Opt(Box::new(H::U8)));
    v.push(H::Arr(Box::new(H::U8)));
    v.push(H::Tup(vec![H::U8]));
    v.push(H::Map(Box::new(H::U8)));
    v.push(H::Enum(vec![H::U8]));
    v
}

/// Every kind of value against every kind of header, at top level and inside containers.
fn c09_leaves(i: u64) -> Outcome {
    let ks = kinds();
    let (a, c, w) = (&ks[i as usize % 24], &ks[i as usize / 24 % 24], i / 576);
    let mut r = Rng::new(i);
    let b = B::arb(a, &mut r, 6).unwrap();
    let (h, b) = match w {
        0 => (c.clone(), b),
        1 => (H::Opt(Box::new(c.clone())), B::Opt(Some(Box::new(b)))),
        2 => (H::Tup(vec![a.clone(), c.clone()]), B::Tup(vec![b.clone(), b])),
        _ => (H::Enum(vec![H::Bool, c.clone()]), B::Enum(1, Box::new(b))),
    };
    validate_case(&h, &b).map(|_| i + 1)
}

fn validate_case(h: &H, b: &B) -> Outcome {
    detail(|| format!("{:?} against {:?}", b, h));
    let got = b.real().validate(&h.real());
    ensure!(got == b.fits(h), "validate gives {}", got);
    if got && !h.zero_sized() {
        body_case(h, b)
    } else {
        Ok(hash(&b.bytes()) ^ got as u64)
    }
}

fn pair(r: &mut Rng, depth: u32, children: u64, size: u64) -> (H, B) {
    loop {
        let h = H::arb(r, depth, children);
        if let Some(b) = B::arb(&h, r, size) {
            return (h, b);
        }
    }
}

fn c09_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (d, c, s) = *r.pick(&[(2u32, 10u64, 300u64), (3, 12, 40), (4, 6, 12), (5, 4, 8), (2, 300, 40), (1, 4, 20000)]);
    let (h, b) = pair(&mut r, d, c, s);
    body_case(&h, &b)
}

/// Changes one node of the header.
fn change_h(h: &mut H, r: &mut Rng) {
    let deeper = !r.one_in(3);
    match h {
        H::Opt(x) | H::Arr(x) | H::Map(x) if deeper => change_h(x, r),
        H::Tup(v) | H::Enum(v) if deeper && !v.is_empty() => {
            let k = match r.below(3) {
                0 => 0,
                1 => v.len() - 1,
                _ => r.below(v.len() as u64) as usize,
            };
            change_h(&mut v[k], r)
        }
        H::Tup(v) | H::Enum(v) if r.one_in(2) => {
            if v.is_empty() || r.one_in(2) {
                v.push(H::U8)
            } else {
                v.pop();
            }
        }
        _ => *h = r.pick(&kinds()).clone(),
    }
}

fn change_b(b: &mut B, r: &mut Rng) {
    let deeper = !r.one_in(3);
    match b {
        B::Opt(Some(x)) | B::Enum(_, x) if deeper => change_b(x, r),
        B::Arr(v) | B::Tup(v) if deeper && !v.is_empty() => {
            let k = match r.below(3) {
                0 => 0,
                1 => v.len() - 1,
                _ => r.below(v.len() as u64) as usize,
            };
            change_b(&mut v[k], r)
        }
        B::Map(m) if deeper && !m.is_empty() => {
            let k = match r.below(3) {
                0 => 0,
                1 => m.len() - 1,
                _ => r.below(m.len() as u64) as usize,
            };
            change_b(m.values_mut().nth(k).unwrap(), r)
        }
        B::Enum(i, _) if r.one_in(2) => {
            *i = match r.below(4) {
                0 => i.wrapping_add(1),
                1 => i.wrapping_sub(1),
                2 => *i + (1 << 16),
                _ => r.int(32) as u32,
            }
        }
        B::Tup(v) | B::Arr(v) if r.one_in(2) => {
            if v.is_empty() || r.one_in(2) {
                v.push(B::U8(1))
            } else {
                v.pop();
            }
        }
        _ => {
            let h = r.pick(&kinds()).clone();
            *b = B::arb(&h, r, 4).unwrap()
        }
    }
}

fn c09_validate(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (d, c, s) = *r.pick(&[(2u32, 10u64, 30u64), (3, 6, 20), (4, 4, 8), (2, 130, 140), (2, 400, 500)]);
    let (mut h, mut b) = pair(&mut r, d, c, s);
    match r.below(5) {
        0 | 1 => change_h(&mut h, &mut r),
        2 | 3 => change_b(&mut b, &mut r),
        _ => {}
    }
    validate_case(&h, &b)
}

/// A huge array of nothing takes memory and time without input, which the property excepts.
fn excepted(h: &H) -> bool {
    match h {
        H::Arr(x) => x.zero_sized() || excepted(x),
        H::Opt(x) | H::Map(x) => excepted(x),
        H::Tup(v) | H::Enum(v) => v.iter().any(excepted),
        _ => false,
    }
}

fn nodes(h: &H) -> u64 {
    1 + match h {
        H::Arr(x) | H::Opt(x) | H::Map(x) => nodes(x),
        H::Tup(v) | H::Enum(v) => v.iter().map(nodes).sum(),
        _ => 0,
    }
}

fn body_bytes_case(h: &H, b: &[u8]) -> Outcome {
    if excepted(h) {
        return Ok(0);
    }
    detail(|| format!("{:?} under {:?}", b, h));
    let mut pos = 0;
    let want = B::dec(h, b, &mut pos);
    let rh = h.real();
    let (got, peak) = crate::alloc::peak(|| body(&rh, b));
    let limit = (2 << 20) + 600 * nodes(h) * (1 + b.len() as u64);
    ensure!(peak <= limit, "decoding {} bytes reserved {} bytes of memory", b.len(), peak);
    match (got, want) {
        (Err(_), None) => Ok(1),
        (Err(e), Some(w)) => {
            ensure!(w.bytes() != b[..pos], "{:?} under {:?} is refused: {}", b, h, e);
            Ok(1)
        }
        (Ok((v, _)), None) => Err(format!("{:?} is no value of {:?} but decodes to {:?}", b, h, v)),
        (Ok((v, n)), Some(w)) => {
            ensure!(v.validate(&rh), "{:?} under {:?} decodes to {:?}, which does not validate", b, h, v);
            ensure!(w.is(&v), "{:?} under {:?} decodes to {:?}, the bytes hold {:?}", b, h, v, w);
            ensure!(n == pos, "{:?} under {:?} decodes consuming {} bytes instead of {}", b, h, n, pos);
            Ok(hash(b))
        }
    }
}

fn c10_short(i: u64) -> Outcome {
    let ks = kinds();
    let h = &ks[i as usize % 24];
    let k = i / 24;
    let b = if k == 0 {
        vec![]
    } else if k <= 256 {
        vec![(k - 1) as u8]
    } else {
        let mut r = Rng::new(i);
        let n = 1 + r.below(12) as usize;
        let mut v = vec![(k - 257) as u8];
        v.extend(r.bytes_of(n));
        v
    };
    body_bytes_case(h, &b).map(|_| i + 1)
}

fn c10_mutated(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (d, c, s) = *r.pick(&[(2u32, 10u64, 30u64), (3, 6, 20), (4, 4, 8), (1, 4, 300), (0, 0, 5000)]);
    let (h, b) = pair(&mut r, d, c, s);
    let mut b = b.bytes();
    if r.one_in(8) {
        b.push(r.next() as u8);
    } else {
        mutate(&mut r, &mut b);
    }
    body_bytes_case(&h, &b)
}

fn c10_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let h = H::arb(&mut r, 3, 6);
    let n = r.below(40) as usize;
    let mut b = r.bytes_of(n);
    if r.one_in(2) {
        for x in b.iter_mut() {
            if r.one_in(2) {
                *x %= 4;
            }
        }
    }
    body_bytes_case(&h, &b)
}

fn c10_hostile(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    // containers around a leaf, and a huge length at some level
    let mut h = H::arb(&mut r, 1, 4);
    let depth = 1 + r.below(4);
    for _ in 0..depth {
        h = match r.below(5) {
            0 => H::Opt(Box::new(h)),
            1 => H::Map(Box::new(h)),
            2 => H::Tup(vec![h, H::Str]),
            _ => H::Arr(Box::new(h)),
        };
    }
    let mut b = vec![];
    for _ in 0..1 + r.below(5) {
        match r.below(4) {
            0 => b.push(r.below(3) as u8),
            1 => b.extend(varint(u64::MAX >> r.below(50), 8)),
            2 => b.extend(varint(1 << r.below(64), 8)),
            _ => b.extend(varint(r.int(64), 8)),
        }
    }
    let n = r.below(20) as usize;
    b.extend(r.bytes_of(n));
    body_bytes_case(&h, &b)
}

// ---- types with a header ----------------------------------------------------------------

fn hash_ordered(name: &str) -> bool {
    name.contains("HashMap")
}

#[cfg(feature = "wrapped")]
use crate::typed::WRAPPED;
#[cfg(not(feature = "wrapped"))]
const WRAPPED: &[&[(fn(&mut Rng, u64, bool) -> Outcome, &str)]] = &[];

fn built_in() -> &'static [(fn(&mut Rng, u64, bool) -> Outcome, &'static str)] {
    static ALL: std::sync::OnceLock<Vec<(fn(&mut Rng, u64, bool) -> Outcome, &'static str)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| [crate::typed::CHECKS].iter().chain(WRAPPED).copied().flatten().copied().collect())
}

fn c11_types(i: u64) -> Outcome {
    let all = built_in();
    let (f, name) = all[i as usize % all.len()];
    detail(|| name.to_string());
    let mut r = Rng::new(i);
    f(&mut r, 12, hash_ordered(name)).map(|k| k ^ mix(i % all.len() as u64))
}

fn c11_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (f, name) = *r.pick(built_in());
    detail(|| name.to_string());
    let size = *r.pick(&[4u64, 40, 400, 5000]);
    f(&mut r, size, hash_ordered(name))
}

#[cfg(feature = "derived")]
fn c12_each(i: u64) -> Outcome {
    let all = crate::derived::CHECKS;
    let (f, name) = all[i as usize % all.len()];
    detail(|| name.to_string());
    f(&mut Rng::new(i), 8, false).map(|k| k ^ mix(i % all.len() as u64))
}

#[cfg(feature = "derived")]
fn c12_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (f, name) = *r.pick(crate::derived::CHECKS);
    detail(|| name.to_string());
    let size = *r.pick(&[4u64, 20, 150]);
    f(&mut r, size, false)
}

// ---- dates ------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct FDate(#[serde(with = "dlhn::format::date")] time::Date);
#[derive(Serialize, Deserialize)]
struct FDateTime(#[serde(with = "dlhn::format::date_time")] time::OffsetDateTime);

fn date_case(d: time::Date) -> Outcome {
    let w: dlhn::Date = d.into();
    let back: time::Date = w.try_into().map_err(|_| format!("{:?} does not convert back", d))?;
    ensure!(back == d, "{:?} converts to {:?} and back to {:?}", d, w, back);
    let want = B::Date(d.year(), d.ordinal()).bytes();
    let a = ser(&w).map_err(|e| format!("{:?} does not serialize: {}", w, e))?;
    ensure!(a == want, "{:?} is written as {:?}, expected {:?}", d, a, want);
    let b = ser(&FDate(d)).map_err(|e| format!("{:?} does not serialize through format: {}", d, e))?;
    ensure!(b == want, "{:?} is written through format as {:?}, expected {:?}", d, b, want);
    let mut all = a;
    all.extend([0xff, 0x80, 0]);
    let (x, n) = de::<dlhn::Date>(&all).map_err(|e| format!("{:?} does not decode: {}", d, e))?;
    ensure!(x == w && n == want.len(), "{:?} decodes to {:?} consuming {}", w, x, n);
    let (x, n) = de::<FDate>(&all).map_err(|e| format!("{:?} does not decode through format: {}", d, e))?;
    ensure!(x.0 == d && n == want.len(), "{:?} decodes through format to {:?} consuming {}", d, x.0, n);
    Ok(hash(&want))
}

fn c13_dates(i: u64) -> Outcome {
    let year = time::Date::MIN.year() as i64 + i as i64;
    if year > time::Date::MAX.year() as i64 {
        return Ok(0);
    }
    let mut n = 0;
    for o in 1..=366 {
        if let Ok(d) = time::Date::from_ordinal_date(year as i32, o) {
            detail(|| format!("{:?}", d));
            date_case(d)?;
            n += 1;
        }
    }
    ensure!(n >= 365, "only {} dates in the year {}", n, year);
    Ok(i + 1)
}

fn read_date(bytes: &[u8]) -> Outcome {
    detail(|| format!("{:?} as a date", bytes));
    let mut pos = 0;
    let want = B::dec(&H::Date, bytes, &mut pos);
    let w = de::<dlhn::Date>(bytes);
    let f = de::<FDate>(bytes);
    let valid = match want {
        Some(B::Date(y, o)) => time::Date::from_ordinal_date(y, o).ok(),
        _ => None,
    };
    if let Ok((w, n)) = &w {
        let again = ser(w).map_err(|e| format!("{:?} does not serialize: {}", w, e))?;
        match &want {
            Some(b) => ensure!(again == b.bytes() && *n == pos, "{:?} decodes to {:?} consuming {}, the bytes hold {:?}", bytes, w, n, b),
            None => return Err(format!("{:?} is no date but decodes to {:?}", bytes, w)),
        }
        let c: Result<time::Date, ()> = (*w).try_into();
        ensure!(c.ok() == valid, "{:?} converts to {:?}, the bytes hold {:?}", w, c, valid);
    }
    if let Ok((f, n)) = &f {
        ensure!(Some(f.0) == valid && *n == pos, "{:?} decodes through format to {:?} consuming {}, the bytes hold {:?}", bytes, f.0, n, valid);
    }
    Ok(hash(bytes))
}

/// Every ordinal with years at the edges.
fn c13_date_fields(i: u64) -> Outcome {
    let o = i as u16;
    let mut r = Rng::new(i);
    let lo = time::Date::MIN.year();
    let hi = time::Date::MAX.year();
    for y in [i32::MAX, i32::MIN, i32::MAX - 2000, i32::MAX - 1999, lo - 2000, lo - 2001, hi - 2000, hi - 1999, 0, 1, -1, r.i32()] {
        let mut b = varint(crate::refmodel::zigzag(y as i64), 4);
        b.extend(varint(o as u64, 2));
        read_date(&b)?;
    }
    Ok(i + 1)
}

fn c13_date_bytes(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = r.below(9) as usize;
    let mut b = r.bytes_of(n);
    if r.one_in(2) {
        b = varint(crate::refmodel::zigzag((r.i16() % 10100) as i64), 4);
        b.extend(varint(r.below(370), 2));
        if r.one_in(4) {
            mutate(&mut r, &mut b);
        }
    }
    read_date(&b)
}

fn c13_date_times(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let mut t = crate::typed::arb_date_time(&mut r);
    if r.one_in(3) {
        let s = r.below(2 * 86399) as i32 - 86399;
        if let Ok(o) = time::UtcOffset::from_whole_seconds(s) {
            if let Ok(u) = std::panic::catch_unwind(|| t.to_offset(o)) {
                t = u;
            }
        }
    }
    let w: dlhn::DateTime = t.into();
    detail(|| format!("{:?}", t));
    let back: time::OffsetDateTime = w.try_into().map_err(|_| format!("{:?} does not convert back", t))?;
    ensure!(back == t, "{:?} converts to {:?} and back to {:?}", t, w, back);
    let want = B::DateTime(t.unix_timestamp(), t.nanosecond()).bytes();
    let a = ser(&w).map_err(|e| format!("does not serialize: {}", e))?;
    ensure!(a == want, "written as {:?}, expected {:?}", a, want);
    let b = ser(&FDateTime(t)).map_err(|e| format!("does not serialize through format: {}", e))?;
    ensure!(b == want, "written through format as {:?}, expected {:?}", b, want);
    let mut all = a;
    all.extend([0xff, 0x80, 0]);
    let (x, n) = de::<dlhn::DateTime>(&all).map_err(|e| format!("does not decode: {}", e))?;
    ensure!(x == w && n == want.len(), "decodes to {:?} consuming {}", x, n);
    let (x, n) = de::<FDateTime>(&all).map_err(|e| format!("does not decode through format: {}", e))?;
    ensure!(x.0 == t && n == want.len(), "decodes through format to {:?} consuming {}", x.0, n);
    Ok(hash(&want))
}

fn c13_date_time_bytes(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let min = time::PrimitiveDateTime::MIN.assume_utc().unix_timestamp();
    let max = time::PrimitiveDateTime::MAX.assume_utc().unix_timestamp();
    let mut bytes = match r.below(4) {
        0 => {
            let n = r.below(15) as usize;
            r.bytes_of(n)
        }
        k => {
            let s = match k {
                1 => r.i64(),
                2 => *r.pick(&[min, max, i64::MAX, i64::MIN, 0, -1]) ^ r.below(8) as i64,
                _ => min.saturating_add(r.int(39) as i64),
            };
            let mut b = varint(crate::refmodel::zigzag(s), 8);
            let n = *r.pick(&[0u64, 999_999_999, 1_000_000_000, 1_000_000_001, 4_294_967_295, 2_147_483_648, 1_999_999_999, 5]);
            b.extend(varint(if r.one_in(2) { n } else { r.int(32) }, 4));
            b
        }
    };
    if r.one_in(8) {
        mutate(&mut r, &mut bytes);
    }
    detail(|| format!("{:?} as a date-time", bytes));
    let mut pos = 0;
    let want = B::dec(&H::DateTime, &bytes, &mut pos);
    let nanos = match want {
        Some(B::DateTime(s, n)) => Some(s as i128 * 1_000_000_000 + n as i128),
        _ => None,
    };
    if let Ok((w, n)) = de::<dlhn::DateTime>(&bytes) {
        let again = ser(&w).map_err(|e| format!("{:?} does not serialize: {}", w, e))?;
        match &want {
            Some(b) => ensure!(again == b.bytes() && n == pos, "{:?} decodes to {:?} consuming {}, the bytes hold {:?}", bytes, w, n, b),
            None => return Err(format!("{:?} is no date-time but decodes to {:?}", bytes, w)),
        }
        let c: Result<time::OffsetDateTime, ()> = w.try_into();
        if let Ok(t) = c {
            ensure!(Some(t.unix_timestamp_nanos()) == nanos, "{:?} converts to {:?}", w, t);
        }
    }
    if let Ok((f, n)) = de::<FDateTime>(&bytes) {
        ensure!(Some(f.0.unix_timestamp_nanos()) == nanos && n == pos, "{:?} decodes through format to {:?} consuming {}, the bytes hold {:?}", bytes, f.0, n, want);
    }
    Ok(hash(&bytes))
}

/// What verus/libs.rs assumes of the time crate.
fn c13_assumed_dates(i: u64) -> Outcome {
    let y = i as i32 - 10100;
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let last = time::Date::MAX.year();
    let mut before: Option<time::Date> = (i > 0).then(|| time::Date::from_ordinal_date(y - 1, if (y - 1) % 4 == 0 && ((y - 1) % 100 != 0 || (y - 1) % 400 == 0) { 366 } else { 365 }).ok()).flatten();
    for o in 0..=400u16 {
        let day = -last <= y && y <= last && 1 <= o && o <= if leap { 366 } else { 365 };
        match time::Date::from_ordinal_date(y, o) {
            Ok(d) => {
                ensure!(day && d.year() == y && d.ordinal() == o && d.to_ordinal_date() == (y, o), "assumed: {} {} is {:?}", y, o, d);
                // the number of a day is one more than that of the day before, and tells the day
                let j = d.to_julian_day();
                ensure!(before.map_or(d == time::Date::MIN, |b| b.to_julian_day() + 1 == j), "assumed: the number of {:?}", d);
                ensure!(time::Date::from_julian_day(j).ok() == Some(d), "assumed: the day {}", j);
                let x = time::OffsetDateTime::from_unix_timestamp((j as i64 - 2_440_588) * 86400 + (o as i64 * 239) % 86400);
                ensure!(x.ok().map(|x| (x.date(), x.time())) == Some((d, time::Time::MIDNIGHT + time::Duration::seconds((o as i64 * 239) % 86400))), "assumed: the seconds of {:?}", d);
                before = Some(d);
            }
            Err(_) => ensure!(!day, "assumed: {} {} is no date", y, o),
        }
    }
    Ok(i + 1)
}

fn c13_assumed_instants(i: u64) -> Outcome {
    use time::ext::NumericalDuration;
    let mut r = Rng::new(i);
    let min = time::PrimitiveDateTime::MIN.assume_utc().unix_timestamp();
    let max = time::PrimitiveDateTime::MAX.assume_utc().unix_timestamp();
    let near = *r.pick(&[min, max, 0, -1, i64::MIN, i64::MAX]);
    let t = match r.below(3) {
        0 => r.i64(),
        1 => near.wrapping_add(r.below(9) as i64 - 4),
        _ => min + r.below((max - min) as u64) as i64,
    };
    let d = match time::OffsetDateTime::from_unix_timestamp(t) {
        Ok(d) => d,
        Err(_) => {
            ensure!(!(min <= t && t <= max), "assumed: the second {} is none", t);
            return Ok(hash(&t.to_le_bytes()));
        }
    };
    ensure!(min <= t && t <= max && d.unix_timestamp() == t && d.nanosecond() == 0, "assumed: the second {} is {:?}", t, d);
    let ns = *r.pick(&[0i64, 1, -1, 999_999_999, 1_000_000_000, 1_000_000_001, 4_294_967_295, 5_000_000_000]) + r.below(3) as i64 - 1;
    let at = t as i128 * 1_000_000_000 + ns as i128;
    match d.checked_add(ns.nanoseconds()) {
        Some(x) => {
            let (a, b) = (x.unix_timestamp(), x.nanosecond());
            ensure!(b < 1_000_000_000 && a as i128 * 1_000_000_000 + b as i128 == at && min <= a && a <= max, "assumed: {:?} and {} ns are {:?}", d, ns, x);
            ensure!(x.time().nanosecond() == b && x.unix_timestamp_nanos() == at, "assumed: the parts of {:?}", x);
        }
        None => ensure!(at < min as i128 * 1_000_000_000 || at >= (max as i128 + 1) * 1_000_000_000, "assumed: {:?} and {} ns are none", d, ns),
    }
    Ok(hash(&[t.to_le_bytes(), ns.to_le_bytes()].concat()))
}

// ---- big numbers ------------------------------------------------------------------------

use bigdecimal::BigDecimal;
use num_bigint::{BigInt, BigUint, Sign};

#[derive(Serialize, Deserialize)]
struct FUint(#[serde(with = "dlhn::format::big_uint")] BigUint);
#[derive(Serialize, Deserialize)]
struct FInt(#[serde(with = "dlhn::format::big_int")] BigInt);
#[derive(Serialize, Deserialize)]
struct FDec(#[serde(with = "dlhn::format::big_decimal")] BigDecimal);

fn uint_case(v: &BigUint) -> Outcome {
    detail(|| format!("{:?} unsigned", v.to_bytes_le()));
    let zero = *v == BigUint::from(0u8);
    let mut want = vec![];
    lenbytes(&if zero { vec![] } else { v.to_bytes_le() }, &mut want);
    let w: dlhn::BigUint = v.clone().into();
    let back: BigUint = w.clone().into();
    ensure!(back == *v, "converts to {:?} and back to {}", w, back);
    let a = ser(&w).map_err(|e| format!("does not serialize: {}", e))?;
    let b = ser(&FUint(v.clone())).map_err(|e| format!("does not serialize through format: {}", e))?;
    ensure!(a == want, "written as {:?}, expected {:?}", a, want);
    ensure!(b == want, "written through format as {:?}, expected {:?}", b, want);
    let mut all = a;
    all.extend([0xff, 0x80]);
    let (x, n) = de::<dlhn::BigUint>(&all).map_err(|e| format!("does not decode: {}", e))?;
    ensure!(x == w && n == want.len(), "decodes to {:?} consuming {}", x, n);
    let (x, n) = de::<FUint>(&all).map_err(|e| format!("does not decode through format: {}", e))?;
    ensure!(x.0 == *v && n == want.len(), "decodes through format to {} consuming {}", x.0, n);
    Ok(hash(&want))
}

fn int_case(v: &BigInt) -> Outcome {
    detail(|| format!("{:?} signed", v.to_signed_bytes_le()));
    let zero = v.sign() == Sign::NoSign;
    let mut want = vec![];
    lenbytes(&if zero { vec![] } else { v.to_signed_bytes_le() }, &mut want);
    let w: dlhn::BigInt = v.clone().into();
    let back: BigInt = w.clone().into();
    ensure!(back == *v, "converts to {:?} and back to {}", w, back);
    let a = ser(&w).map_err(|e| format!("does not serialize: {}", e))?;
    let b = ser(&FInt(v.clone())).map_err(|e| format!("does not serialize through format: {}", e))?;
    ensure!(a == want, "written as {:?}, expected {:?}", a, want);
    ensure!(b == want, "written through format as {:?}, expected {:?}", b, want);
    let mut all = a;
    all.extend([0xff, 0x80]);
    let (x, n) = de::<dlhn::BigInt>(&all).map_err(|e| format!("does not decode: {}", e))?;
    ensure!(x == w && n == want.len(), "decodes to {:?} consuming {}", x, n);
    let (x, n) = de::<FInt>(&all).map_err(|e| format!("does not decode through format: {}", e))?;
    ensure!(x.0 == *v && n == want.len(), "decodes through format to {} consuming {}", x.0, n);
    Ok(hash(&want))
}

/// Digits and scale without trailing zeros, independently of `normalized`.
fn strip(v: &BigDecimal) -> (BigInt, i64) {
    let (mut d, mut s) = v.as_bigint_and_exponent();
    if d.sign() == Sign::NoSign {
        return (d, 0);
    }
    let ten = BigInt::from(10);
    loop {
        let q = &d / &ten;
        if &q * &ten != d {
            return (d, s);
        }
        d = q;
        s -= 1;
    }
}

fn dec_case(v: &BigDecimal) -> Outcome {
    detail(|| format!("{:?} decimal", v.as_bigint_and_exponent()));
    let (d, s) = strip(v);
    let mut want = vec![];
    if d.sign() == Sign::NoSign {
        want.push(0);
    } else {
        lenbytes(&d.to_signed_bytes_le(), &mut want);
        want.extend(varint(crate::refmodel::zigzag(s), 8));
    }
    let w: dlhn::BigDecimal = v.clone().into();
    let back: BigDecimal = w.clone().into();
    ensure!(strip(&back) == (d.clone(), s), "converts to {:?} and back to {:?}", w, back.as_bigint_and_exponent());
    let a = ser(&w).map_err(|e| format!("does not serialize: {}", e))?;
    let b = ser(&FDec(v.clone())).map_err(|e| format!("does not serialize through format: {}", e))?;
    ensure!(a == want, "written as {:?}, expected {:?}", a, want);
    ensure!(b == want, "written through format as {:?}, expected {:?}", b, want);
    let mut all = a;
    all.extend([0xff, 0x80]);
    let (x, n) = de::<dlhn::BigDecimal>(&all).map_err(|e| format!("does not decode: {}", e))?;
    ensure!(x == w && n == want.len(), "decodes to {:?} consuming {}", x, n);
    let (x, n) = de::<FDec>(&all).map_err(|e| format!("does not decode through format: {}", e))?;
    ensure!(strip(&x.0) == (d, s) && n == want.len(), "decodes through format to {:?} consuming {}", x.0.as_bigint_and_exponent(), n);
    Ok(hash(&want))
}

fn c14_sizes(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = (i / 3) as usize;
    let mut b = r.bytes_of(n);
    if n > 0 {
        b[n - 1] = match i % 4 {
            0 => 0x80,
            1 => 0x7f,
            2 => 0xff,
            _ => 1,
        };
    }
    match i % 3 {
        0 => uint_case(&BigUint::from_bytes_le(&b)),
        1 => int_case(&BigInt::from_signed_bytes_le(&b)),
        _ => dec_case(&BigDecimal::new(BigInt::from_signed_bytes_le(&b), r.i16() as i64 / 50)),
    }
}

fn c14_small(i: u64) -> Outcome {
    uint_case(&BigUint::from(i))?;
    int_case(&BigInt::from(i as i64 - 35000))?;
    dec_case(&BigDecimal::new(BigInt::from(i as i64 - 35000), (i % 200) as i64 - 100))
}

/// What verus/libs.rs assumes of num-bigint and bigdecimal.
fn c14_assumed(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let mag = |mut v: u128| {
        let mut b = vec![v as u8];
        while v >= 256 {
            v /= 256;
            b.push(v as u8);
        }
        b
    };
    let tc = |mut v: i128| {
        let mut b = vec![v as u8];
        while !(-128..128).contains(&v) {
            v = v.div_euclid(256);
            b.push(v as u8);
        }
        b
    };
    let bits = r.below(127) as u32;
    let mut v = ((r.next() as u128) << 64 | r.next() as u128) >> (127 - bits);
    if r.one_in(3) {
        v = (1u128 << bits).wrapping_add(r.below(5) as u128).wrapping_sub(2) & (u128::MAX >> 1);
    }
    let w = if r.one_in(2) { v as i128 } else { -(v as i128) };
    detail(|| format!("assumed: {} {}", v, w));
    ensure!(BigUint::from(v).to_bytes_le() == mag(v), "assumed: the bytes of {}", v);
    ensure!(BigInt::from(w).to_signed_bytes_le() == tc(w), "assumed: the signed bytes of {}", w);
    let mut b = mag(v);
    if b.len() < 15 {
        let n = r.below(3) as usize;
        b.extend(vec![*r.pick(&[0u8, 0xff]); n]);
    }
    let unmag = b.iter().rev().fold(0u128, |a, &x| a << 8 | x as u128);
    ensure!(BigUint::from_bytes_le(&b) == BigUint::from(unmag), "assumed: {:?} are {}", b, unmag);
    let n = b.len() as u32 * 8;
    let untc = if n < 128 && b[b.len() - 1] >= 128 { unmag as i128 - (1i128 << n) } else { unmag as i128 };
    ensure!(BigInt::from_signed_bytes_le(&b) == BigInt::from(untc), "assumed: {:?} are {} signed", b, untc);
    ensure!(BigUint::from_bytes_le(&[]) == BigUint::from(0u8) && BigInt::from_signed_bytes_le(&[]) == BigInt::from(0), "assumed: no bytes");
    let mut d = BigInt::from(w);
    for _ in 0..r.below(5) {
        d = d * BigInt::from(10);
    }
    let x = BigDecimal::new(d.clone(), r.i16() as i64 / 50);
    ensure!(x.as_bigint_and_exponent().0 == d, "assumed: the digits of {:?}", d);
    ensure!(x.normalized().into_bigint_and_exponent() == strip(&x), "assumed: {:?} normalized", x.as_bigint_and_exponent());
    ensure!(BigDecimal::from(d.clone()).into_bigint_and_exponent() == (d.clone(), 0), "assumed: {:?} as a decimal", d);
    Ok(hash(&b))
}

fn c14_random(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = length(&mut r).min(20000);
    let b = r.bytes_of(n);
    if r.one_in(2) {
        uint_case(&BigUint::from_bytes_le(&b))
    } else {
        int_case(&BigInt::from_signed_bytes_le(&b))
    }
}

fn c14_decimal(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let n = if r.one_in(20) { r.below(400) } else { r.below(30) } as usize;
    let mut d = BigInt::from_signed_bytes_le(&r.bytes_of(n));
    for _ in 0..r.below(8) {
        d = d * BigInt::from(10);
    }
    let s = match r.below(3) {
        // the decimal library raises ten to the scale when it normalizes
        0 => r.i16() as i64 / 10,
        1 => r.below(21) as i64 - 10,
        _ => r.i16() as i64 / 100,
    };
    dec_case(&BigDecimal::new(d, s))
}

fn parts(v: &BigDecimal) -> (BigInt, i64) {
    let (d, s) = v.as_bigint_and_exponent();
    let s = if d.sign() == Sign::NoSign { 0 } else { s };
    (d, s)
}

fn c14_bytes(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let mut b = match r.below(4) {
        0 => {
            let n = r.below(14) as usize;
            r.bytes_of(n)
        }
        k => {
            let n = if k == 1 { r.below(4) as usize } else { length(&mut r).min(5000) };
            let mut d = r.bytes_of(n);
            if r.one_in(3) {
                d.iter_mut().for_each(|x| *x = 0);
            }
            let mut out = vec![];
            lenbytes(&d, &mut out);
            if r.one_in(2) {
                out.extend(varint(r.int(64), 8));
            }
            let m = r.below(4) as usize;
            out.extend(r.bytes_of(m));
            out
        }
    };
    if r.one_in(6) {
        mutate(&mut r, &mut b);
    }
    detail(|| format!("{:?} as a big number", b));
    let mut pos = 0;
    let digits = B::dec(&H::BigUInt, &b, &mut pos);
    match (de::<dlhn::BigUint>(&b), de::<FUint>(&b)) {
        (Err(_), Err(_)) => {}
        (Ok((w, n)), Ok((f, m))) => {
            let x: BigUint = w.into();
            ensure!(x == f.0 && n == m && n == pos, "unsigned: {} and {}, consuming {} and {}", x, f.0, n, m);
            ensure!(matches!(&digits, Some(B::BigUInt(d)) if BigUint::from_bytes_le(d) == x), "unsigned: {} from {:?}", x, digits);
        }
        (a, f) => return Err(format!("unsigned: the type gives {:?}, the format module {:?}", a.map(|a| a.1), f.map(|f| f.1))),
    }
    match (de::<dlhn::BigInt>(&b), de::<FInt>(&b)) {
        (Err(_), Err(_)) => {}
        (Ok((w, n)), Ok((f, m))) => {
            let x: BigInt = w.into();
            ensure!(x == f.0 && n == m && n == pos, "signed: {} and {}, consuming {} and {}", x, f.0, n, m);
            ensure!(matches!(&digits, Some(B::BigUInt(d)) if BigInt::from_signed_bytes_le(d) == x), "signed: {} from {:?}", x, digits);
        }
        (a, f) => return Err(format!("signed: the type gives {:?}, the format module {:?}", a.map(|a| a.1), f.map(|f| f.1))),
    }
    let mut pos = 0;
    let want = B::dec(&H::BigDec, &b, &mut pos);
    match (de::<dlhn::BigDecimal>(&b), de::<FDec>(&b)) {
        (Err(_), Err(_)) => {}
        (Ok((w, n)), Ok((f, m))) => {
            let x: BigDecimal = w.into();
            ensure!(parts(&x) == parts(&f.0) && n == m && n == pos, "decimal: {:?} and {:?}, consuming {} and {}", parts(&x), parts(&f.0), n, m);
            let ok = match &want {
                Some(B::BigDec(d, s)) => {
                    let d = BigInt::from_signed_bytes_le(d);
                    let s = if d.sign() == Sign::NoSign { 0 } else { *s };
                    parts(&x) == (d, s)
                }
                _ => false,
            };
            ensure!(ok, "decimal: {:?} from {:?}", parts(&x), want);
        }
        (a, f) => return Err(format!("decimal: the type gives {:?}, the format module {:?}", a.map(|a| a.1), f.map(|f| f.1))),
    }
    Ok(hash(&b))
}

// ---- I/O --------------------------------------------------------------------------------

/// Which prefixes of `n` bytes to stop at.
fn stops(r: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 40 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..12).map(|_| r.below(n as u64) as usize).collect();
    v.extend([0, 1, 2, n - 1, n - 2]);
    for k in [127, 128, 129, 4095, 4096, 4097, 4098, 4099, 8191, 8192, 8194] {
        if k < n {
            v.push(k);
        }
    }
    v
}

fn writes(r: &mut Rng, want: &[u8], mut f: impl FnMut(&mut Sink) -> Result<(), String>) -> Outcome {
    let p = Pattern::arb(r);
    let end = if r.one_in(3) { None } else { Some(*r.pick(&KINDS)) };
    let mut s = Sink::new(usize::MAX, end, &p);
    f(&mut s).map_err(|e| format!("fails on a writer that takes {:?}: {}", p, e))?;
    ensure!(s.got == want, "a writer that takes {:?} got {:?} instead of {:?}", p, s.got, want);
    for k in stops(r, want.len()) {
        let p = Pattern::arb(r);
        let end = if r.one_in(3) { None } else { Some(*r.pick(&KINDS)) };
        let mut s = Sink::new(k, end, &p);
        let x = f(&mut s);
        ensure!(x.is_err(), "the writer refused byte {} of {} ({:?}, {:?}) and there is no error", k, want.len(), end, p);
        ensure!(want.starts_with(&s.got), "a writer that stops at {} got {:?}, not a prefix of {:?}", k, s.got, want);
    }
    let mut s = Sink::new(want.len(), end, &p);
    f(&mut s).map_err(|e| format!("fails on a writer with exactly enough room: {}", e))?;
    Ok(hash(want))
}

fn reads<T>(r: &mut Rng, all: &[u8], mut f: impl FnMut(&mut Source) -> Result<T, String>, same: impl Fn(&T) -> bool) -> Outcome {
    let p = Pattern::arb(r);
    let mut more = all.to_vec();
    more.extend([1, 0xff, 0, 0x80, 9]);
    for data in [&more[..], all] {
        let end = if r.one_in(3) { None } else { Some(*r.pick(&KINDS)) };
        let mut s = Source::new(data, end, &p);
        let v = f(&mut s).map_err(|e| format!("fails on a reader that gives {:?}: {}", p, e))?;
        ensure!(same(&v), "a reader that gives {:?} makes another value", p);
        ensure!(s.pos == all.len(), "a reader that gives {:?} is read up to {} instead of {}", p, s.pos, all.len());
    }
    for k in stops(r, all.len()) {
        let p = Pattern::arb(r);
        let end = if r.one_in(3) { None } else { Some(*r.pick(&KINDS)) };
        let mut s = Source::new(&all[..k], end, &p);
        ensure!(f(&mut s).is_err(), "the reader ended after {} of {} bytes ({:?}, {:?}) and there is no error", k, all.len(), end, p);
    }
    Ok(hash(all))
}

fn io_value(r: &mut Rng) -> V {
    match r.below(8) {
        0 => {
            let n = length(r).min(20000);
            V::Bytes(r.bytes_of(n))
        }
        1 => {
            let n = length(r).min(20000);
            V::Str(r.string_of(n))
        }
        2 | 3 => V::scalar(r, 300),
        _ => V::arb(r, 3, 20),
    }
}

fn c15_write_value(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let v = io_value(&mut r);
    detail(|| format!("{:?}", v));
    let want = v.bytes();
    writes(&mut r, &want, |s| v.serialize(&mut Serializer::new(s)).map_err(|e| e.to_string()))
}

fn c15_read_value(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let v = io_value(&mut r);
    detail(|| format!("{:?}", v));
    let all = v.bytes();
    reads(&mut r, &all, |s| Shape(&v).deserialize(&mut Deserializer::new(s)).map_err(|e| e.to_string()), |w| *w == v)
}

fn io_pair(r: &mut Rng) -> (H, B) {
    let (d, c, s) = *r.pick(&[(0u32, 0u64, 200u64), (0, 0, 9000), (2, 5, 20), (3, 4, 8)]);
    pair(r, d, c, s)
}

fn c15_write_body(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (_, b) = io_pair(&mut r);
    detail(|| format!("{:?}", b));
    let (real, want) = (b.real(), b.bytes());
    writes(&mut r, &want, |s| real.serialize(&mut Serializer::new(s)).map_err(|e| e.to_string()))
}

fn c15_read_body(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let (h, b) = io_pair(&mut r);
    detail(|| format!("{:?} under {:?}", b, h));
    let (real, all) = (h.real(), b.bytes());
    reads(&mut r, &all, |s| Body::deserialize(&real, &mut Deserializer::new(s)).map_err(|e| e.to_string()), |w| b.is(w))
}

fn c15_write_header(i: u64) -> Outcome {
    let mut r = Rng::new(i);
    let c = *r.pick(&[4u64, 140]);
    let h = H::arb(&mut r, 3, c);
    detail(|| format!("{:?}", h));
    let (real, want) = (h.real(), h.bytes());
    writes(&mut r, &want, |s| real.serialize(s).map_err(|e| e.to_string()))
}

fn c15_read_header(i: u64) -> Outcome {
    use dlhn::DeserializeHeader;
    let mut r = Rng::new(i);
    let c = *r.pick(&[4u64, 140]);
    let h = H::arb(&mut r, 3, c);
    detail(|| format!("{:?}", h));
    let (real, all) = (h.real(), h.bytes());
    reads(&mut r, &all, |s| s.deserialize_header().map_err(|e| e.to_string()), |w| *w == real)
}

fn c15_typed_header(i: u64) -> Outcome {
    use crate::typed::{Typed, T16};
    fn one<T: SerializeHeader + Typed + ?Sized>(r: &mut Rng) -> Outcome {
        detail(|| std::any::type_name::<T>().to_string());
        let want = T::header().bytes();
        writes(r, &want, |s| T::serialize_header(s).map_err(|e| e.to_string()))
    }
    let mut r = Rng::new(i);
    match r.below(12) {
        0 => one::<T16>(&mut r),
        1 => one::<(u8,)>(&mut r),
        2 => one::<Vec<Option<BTreeMap<String, ()>>>>(&mut r),
        3 => one::<HashMap<String, (i8, i16)>>(&mut r),
        4 => one::<(dlhn::BigUint, dlhn::BigInt, dlhn::BigDecimal)>(&mut r),
        5 => one::<(dlhn::Date, dlhn::DateTime, serde_bytes::ByteBuf)>(&mut r),
        6 => one::<(bool, u8, u16, u32, u64)>(&mut r),
        7 => one::<(i8, i16, i32, i64, f32, f64)>(&mut r),
        8 => one::<(u8, u8, u8, u8, u8, u8, u8)>(&mut r),
        9 => one::<((), String, &'static str)>(&mut r),
        10 => one::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>(&mut r),
        _ => one::<Option<(Vec<u8>, Vec<(u8, u16)>)>>(&mut r),
    }
}

/// The big number and date types, as themselves and through the format modules.
fn c15_bigs(i: u64) -> Outcome {
    fn one<T: Serialize + for<'de> Deserialize<'de>>(r: &mut Rng, v: &T) -> Outcome {
        let want = ser(v).map_err(|e| e.to_string())?;
        detail(|| format!("{} as {:?}", std::any::type_name::<T>(), want));
        writes(r, &want, |s| v.serialize(&mut Serializer::new(s)).map_err(|e| e.to_string()))?;
        reads(
            r,
            &want,
            |s| T::deserialize(&mut Deserializer::new(s)).map_err(|e| e.to_string()),
            |w| ser(w).ok().as_deref() == Some(&want[..]),
        )
    }
    let mut r = Rng::new(i);
    let n = r.below(200) as usize;
    let b = r.bytes_of(n);
    match r.below(10) {
        0 => one(&mut r, &dlhn::BigUint::from(BigUint::from_bytes_le(&b))),
        1 => one(&mut r, &dlhn::BigInt::from(BigInt::from_signed_bytes_le(&b))),
        2 => one(&mut r, &FUint(BigUint::from_bytes_le(&b))),
        3 => one(&mut r, &FInt(BigInt::from_signed_bytes_le(&b))),
        4 | 5 => {
            let v = BigDecimal::new(BigInt::from_signed_bytes_le(&b[..n.min(30)]), r.i16() as i64 / 30);
            if r.one_in(2) {
                one(&mut r, &FDec(v))
            } else {
                one(&mut r, &dlhn::BigDecimal::from(v))
            }
        }
        6 => {
            let d = crate::typed::arb_date(&mut r);
            one(&mut r, &FDate(d))
        }
        7 => {
            let d = crate::typed::arb_date(&mut r);
            one(&mut r, &dlhn::Date::from(d))
        }
        8 => {
            let d = crate::typed::arb_date_time(&mut r);
            one(&mut r, &FDateTime(d))
        }
        _ => {
            let d = crate::typed::arb_date_time(&mut r);
            one(&mut r, &dlhn::DateTime::from(d))
        }
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = unvarint(&[], 2);
}
