use crate::io::{Sink, Source};
use crate::reference;
use dlhn::{Deserializer, Serializer};
use serde::{Deserialize, Serialize};
use std::mem::forget;

/// The bytes of `value`, and how many there are.
fn encode<T: Serialize, const N: usize>(value: &T) -> ([u8; N], usize) {
    let mut buf = [0u8; N];
    let mut out = &mut buf[..];
    let result = value.serialize(&mut Serializer::new(&mut out));
    assert!(result.is_ok(), "serializing into a writer that accepts everything");
    let left = out.len();
    (buf, N - left)
}

macro_rules! round_trip {
    ($name:ident, $ty:ty, $max:literal, $same:expr) => {
        /// Bytes of a value followed by arbitrary bytes decode to the value and leave the rest.
        #[kani::proof]
        #[kani::unwind(12)]
        fn $name() {
            let value: $ty = kani::any();
            let (enc, n) = encode::<$ty, { $max + 1 }>(&value);
            assert!(n <= $max);
            let mut all: [u8; $max + 2] = kani::any();
            let mut i = 0;
            while i < $max {
                if i < n {
                    all[i] = enc[i];
                }
                i += 1;
            }
            let mut reader = &all[..];
            let result = <$ty>::deserialize(&mut Deserializer::new(&mut reader));
            assert!(matches!(&result, Ok(v) if $same(*v, value)), "same value");
            assert!(reader.len() == $max + 2 - n, "consumes exactly its bytes");
            forget(result);
        }
    };
}

fn eq<T: PartialEq>(a: T, b: T) -> bool {
    a == b
}

round_trip!(c01_bool, bool, 1, eq);
round_trip!(c01_u8, u8, 1, eq);
round_trip!(c01_i8, i8, 1, eq);
round_trip!(c01_u16, u16, 3, eq);
round_trip!(c01_i16, i16, 3, eq);
round_trip!(c01_u32, u32, 5, eq);
round_trip!(c01_i32, i32, 5, eq);
round_trip!(c01_u64, u64, 9, eq);
round_trip!(c01_i64, i64, 9, eq);
round_trip!(c01_f32, f32, 4, |a: f32, b: f32| a.to_bits() == b.to_bits());
round_trip!(c01_f64, f64, 8, |a: f64, b: f64| a.to_bits() == b.to_bits());
round_trip!(c01_unit, (), 0, eq);

macro_rules! layout {
    ($name:ident, $ty:ty, $max:literal, |$v:ident, $i:ident| $len:expr, $byte:expr) => {
        /// The bytes of a value are the ones of the format.
        #[kani::proof]
        #[kani::unwind(12)]
        fn $name() {
            let $v: $ty = kani::any();
            let (enc, n) = encode::<$ty, { $max + 1 }>(&$v);
            assert!(n == $len, "length of the encoding");
            let mut $i = 0;
            while $i < $max {
                assert!($i >= n || enc[$i] == $byte, "byte of the encoding");
                $i += 1;
            }
        }
    };
}

macro_rules! varint_layout {
    ($name:ident, $ty:ty, $max:literal, $map:expr) => {
        layout!($name, $ty, $max, |v, i|
            reference::varint_len($map(v), $max), reference::varint_byte($map(v), $max, i));
    };
}

layout!(c02_bool, bool, 1, |v, i| 1, if v { 1 } else { i as u8 });
layout!(c02_u8, u8, 1, |v, i| 1, v);
layout!(c02_i8, i8, 1, |v, i| 1, v as u8);
layout!(c02_f32, f32, 4, |v, i| 4, (v.to_bits() >> (8 * i)) as u8);
layout!(c02_f64, f64, 8, |v, i| 8, (v.to_bits() >> (8 * i)) as u8);
varint_layout!(c02_u16, u16, 3, |v: u16| v as u64);
varint_layout!(c02_u32, u32, 5, |v: u32| v as u64);
varint_layout!(c02_u64, u64, 9, |v: u64| v);
varint_layout!(c02_i16, i16, 3, |v: i16| reference::zigzag(v as i128) as u64);
varint_layout!(c02_i32, i32, 5, |v: i32| reference::zigzag(v as i128) as u64);
varint_layout!(c02_i64, i64, 9, |v: i64| reference::zigzag(v as i128) as u64);

macro_rules! any_bytes {
    ($name:ident, $ty:ty, $max:literal, |$b:ident| $expect:expr, $same:expr) => {
        /// Every input, of every length up to one byte more than the type can take: the value the
        /// format assigns and that many bytes consumed, or an error.
        #[kani::proof]
        #[kani::unwind(12)]
        fn $name() {
            let bytes: [u8; $max + 1] = kani::any();
            let len: usize = kani::any();
            kani::assume(len <= $max + 1);
            let $b = &bytes[..len];
            let expect: Option<($ty, usize)> = $expect;
            let mut reader = $b;
            let result = <$ty>::deserialize(&mut Deserializer::new(&mut reader));
            match expect {
                Some((value, n)) => {
                    assert!(matches!(&result, Ok(v) if $same(*v, value)), "value of the bytes");
                    assert!(reader.len() == len - n, "consumes the announced bytes");
                }
                None => assert!(result.is_err(), "rejects"),
            }
            kani::cover!(result.is_ok());
            kani::cover!(result.is_err());
            forget(result);
        }
    };
}

fn tag(b: &[u8]) -> Option<bool> {
    match b.first() {
        Some(0) => Some(false),
        Some(1) => Some(true),
        _ => None,
    }
}

fn le(b: &[u8], n: usize) -> Option<(u64, usize)> {
    if b.len() < n {
        return None;
    }
    let at = |i: usize| if i < n { (b[i] as u64) << (8 * i) } else { 0 };
    Some((at(0) | at(1) | at(2) | at(3) | at(4) | at(5) | at(6) | at(7), n))
}

any_bytes!(c03_bool, bool, 1, |b| tag(b).map(|v| (v, 1)), eq);
any_bytes!(c03_u8, u8, 1, |b| le(b, 1).map(|(v, n)| (v as u8, n)), eq);
any_bytes!(c03_i8, i8, 1, |b| le(b, 1).map(|(v, n)| (v as u8 as i8, n)), eq);
any_bytes!(c03_u16, u16, 3, |b| reference::decoded(b, 3).map(|(v, n)| (v as u16, n)), eq);
any_bytes!(c03_u32, u32, 5, |b| reference::decoded(b, 5).map(|(v, n)| (v as u32, n)), eq);
any_bytes!(c03_u64, u64, 9, |b| reference::decoded(b, 9), eq);
any_bytes!(c03_i16, i16, 3, |b| reference::decoded(b, 3)
    .map(|(v, n)| (reference::unzigzag(v as i128) as i16, n)), eq);
any_bytes!(c03_i32, i32, 5, |b| reference::decoded(b, 5)
    .map(|(v, n)| (reference::unzigzag(v as i128) as i32, n)), eq);
any_bytes!(c03_i64, i64, 9, |b| reference::decoded(b, 9)
    .map(|(v, n)| (reference::unzigzag(v as i128) as i64, n)), eq);
any_bytes!(c03_f32, f32, 4, |b| le(b, 4).map(|(v, n)| (f32::from_bits(v as u32), n)),
    |a: f32, b: f32| a.to_bits() == b.to_bits());
any_bytes!(c03_f64, f64, 8, |b| le(b, 8).map(|(v, n)| (f64::from_bits(v), n)),
    |a: f64, b: f64| a.to_bits() == b.to_bits());
any_bytes!(c03_option_u16, Option<u16>, 4, |b| match tag(b) {
    Some(false) => Some((None, 1)),
    Some(true) => reference::decoded(&b[1..], 3).map(|(v, n)| (Some(v as u16), n + 1)),
    None => None,
}, eq);
any_bytes!(c03_option_bool, Option<bool>, 2, |b| match tag(b) {
    Some(false) => Some((None, 1)),
    Some(true) => tag(&b[1..]).map(|v| (Some(v), 2)),
    None => None,
}, eq);
any_bytes!(c03_option_unit, Option<()>, 1, |b| match tag(b) {
    Some(false) => Some((None, 1)),
    Some(true) => Some((Some(()), 1)),
    None => None,
}, eq);

macro_rules! faulty_writer {
    ($name:ident, $ty:ty, $max:literal) => {
        /// A writer that takes `room` bytes in arbitrary pieces, with an interruption, and then
        /// fails: an error exactly when the encoding does not fit, else the same bytes.
        #[kani::proof]
        #[kani::unwind(13)]
        fn $name() {
            let value: $ty = kani::any();
            let (enc, n) = encode::<$ty, { $max + 1 }>(&value);
            let room: usize = kani::any();
            kani::assume(room <= $max);
            let mut sink = Sink::<{ $max + 1 }>::new(room);
            let result = value.serialize(&mut Serializer::new(&mut sink));
            assert!(result.is_ok() == (room >= n), "an error exactly when a byte is refused");
            if result.is_ok() {
                assert!(sink.len == n, "all bytes");
                let mut i = 0;
                while i < $max {
                    assert!(i >= n || sink.buf[i] == enc[i], "the same bytes");
                    i += 1;
                }
            }
            kani::cover!(result.is_ok());
            kani::cover!(result.is_err());
            forget(result);
        }
    };
}

faulty_writer!(c15_write_bool, bool, 1);
faulty_writer!(c15_write_u8, u8, 1);
faulty_writer!(c15_write_i8, i8, 1);
faulty_writer!(c15_write_u16, u16, 3);
faulty_writer!(c15_write_i16, i16, 3);
faulty_writer!(c15_write_u32, u32, 5);
faulty_writer!(c15_write_i32, i32, 5);
faulty_writer!(c15_write_u64, u64, 9);
faulty_writer!(c15_write_i64, i64, 9);
faulty_writer!(c15_write_f32, f32, 4);
faulty_writer!(c15_write_f64, f64, 8);

macro_rules! faulty_reader {
    ($name:ident, $ty:ty, $max:literal, $same:expr) => {
        /// A reader that delivers arbitrary bytes in arbitrary pieces, with an interruption, and
        /// ends or fails after `len` of them: what a plain slice of those bytes gives.
        #[kani::proof]
        #[kani::unwind(13)]
        fn $name() {
            let bytes: [u8; $max] = kani::any();
            let len: usize = kani::any();
            kani::assume(len <= $max);
            let mut plain = &bytes[..len];
            let expect = <$ty>::deserialize(&mut Deserializer::new(&mut plain));
            let mut source = Source { buf: bytes, pos: 0, len };
            let result = <$ty>::deserialize(&mut Deserializer::new(&mut source));
            match &expect {
                Ok(v) => {
                    assert!(matches!(&result, Ok(w) if $same(*v, *w)), "the same value");
                    assert!(source.pos == len - plain.len(), "the same bytes consumed");
                }
                Err(_) => assert!(result.is_err(), "an error"),
            }
            kani::cover!(result.is_ok());
            kani::cover!(result.is_err());
            forget(expect);
            forget(result);
        }
    };
}

faulty_reader!(c15_read_bool, bool, 1, eq);
faulty_reader!(c15_read_u8, u8, 1, eq);
faulty_reader!(c15_read_i8, i8, 1, eq);
faulty_reader!(c15_read_u16, u16, 3, eq);
faulty_reader!(c15_read_i16, i16, 3, eq);
faulty_reader!(c15_read_u32, u32, 5, eq);
faulty_reader!(c15_read_i32, i32, 5, eq);
faulty_reader!(c15_read_u64, u64, 9, eq);
faulty_reader!(c15_read_i64, i64, 9, eq);
faulty_reader!(c15_read_f32, f32, 4, |a: f32, b: f32| a.to_bits() == b.to_bits());
faulty_reader!(c15_read_f64, f64, 8, |a: f64, b: f64| a.to_bits() == b.to_bits());
