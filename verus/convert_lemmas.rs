/// What follows of the contracts of the conversions and of the two ways to encode.
pub mod convert_lemmas {
use super::*;
use super::numbers::*;
use super::varint::*;
use super::value_spec::*;
use super::header_spec::H;
use super::outside::*;
use super::time::{day, billion, min_second, max_second};
use super::leaf::*;
use super::convert::{From, TryInto, Into};
use super::date::*; use super::date_time::*; use super::big::*;

/// C13: dates convert and encode without loss: the dlhn date that a date is made into converts back to it and to
/// nothing else, is written as year - 2000 and ordinal - 1, and decodes to itself whatever follows, in both ways.
pub proof fn theorem_date(d: time::Date, x: Date, y: Option<time::Date>, t: Seq<u8>)
    requires <Date as From<time::Date>>::made(d, x), <Date as TryInto<time::Date>>::goes(x, y)
    ensures
        y is Some && y->Some_0 == d,
        ({
            let e = lb(x.leaf());
            &&& e == lb(date_leaf(d))
            &&& e == vu32(zigzag(d.y - 2000) as u32) + vu16((d.o - 1) as u16)
            &&& lp(H::Date, e + t) == Some((x.leaf(), e.len()))
            &&& date_at(e + t) == Some(((d.y, d.o), e.len()))
        })
{
    broadcast use super::time::max_year_;
    theorem_leaf_round_trip(x.leaf(), t);
}
/// C13: both ways to decode agree on what bytes hold.
pub proof fn theorem_date_agrees(s: Seq<u8>, x: Date, y: Option<time::Date>)
    requires lp(H::Date, s) is Some, x.leaf() == (lp(H::Date, s)->Some_0).0, <Date as TryInto<time::Date>>::goes(x, y)
    ensures match date_at(s) {
        Some((v, n)) => y is Some && v == (y->Some_0.y, y->Some_0.o) && n == (lp(H::Date, s)->Some_0).1,
        None => y is None,
    }
{}
/// C13: the same of date-times whose instant is one of UTC.
pub proof fn theorem_date_time(d: time::OffsetDateTime, x: DateTime, y: Option<time::OffsetDateTime>, t: Seq<u8>)
    requires
        min_second() <= d.t <= max_second(),
        <DateTime as From<time::OffsetDateTime>>::made(d, x), <DateTime as TryInto<time::OffsetDateTime>>::goes(x, y)
    ensures
        y is Some && y->Some_0 == d,
        ({
            let e = lb(x.leaf());
            &&& e == lb(date_time_leaf(d))
            &&& e == vu64(zigzag(d.t as int) as u64) + vu32(d.n)
            &&& lp(H::DateTime, e + t) == Some((x.leaf(), e.len()))
            &&& date_time_at(e + t) == Some((d.instant(), e.len()))
        })
{
    theorem_leaf_round_trip(x.leaf(), t);
}
pub proof fn theorem_date_time_agrees(s: Seq<u8>, x: DateTime, y: Option<time::OffsetDateTime>)
    requires lp(H::DateTime, s) is Some, x.leaf() == (lp(H::DateTime, s)->Some_0).0, <DateTime as TryInto<time::OffsetDateTime>>::goes(x, y)
    ensures match date_time_at(s) {
        Some((v, n)) => y is Some && v == y->Some_0.instant() && n == (lp(H::DateTime, s)->Some_0).1,
        None => y is None,
    }
{}
/// C14: unsigned integers convert back unchanged, both encodings are the length and the little-endian bytes (or one
/// zero), and decode in both ways to the same.
pub proof fn theorem_uint(v: num_bigint::BigUint, x: BigUint, y: num_bigint::BigUint, t: Seq<u8>)
    requires <BigUint as From<num_bigint::BigUint>>::made(v, x), <BigUint as Into<num_bigint::BigUint>>::goes(x, y), mag(v.v@).len() <= u64::MAX
    ensures
        y.v@ == v.v@,
        ({
            let e = lb(x.leaf());
            &&& e == if v.v@ == 0 { seq![0u8] } else { blob(mag(v.v@)) }
            &&& lp(H::BigUint, e + t) == Some((x.leaf(), e.len()))
            &&& uint_at(e + t) == Some((v.v@, e.len()))
        })
{
    broadcast use group_varint;
    lemma_mag(v.v@);
    theorem_leaf_round_trip(x.leaf(), t);
    lemma_blob_none();
}
proof fn lemma_blob_none() ensures blob(seq![]) == seq![0u8] {
    reveal(vu);
    assert(vu(0, 9) =~= seq![0u8]);
    assert(blob(seq![]) =~= seq![0u8]);
}
pub proof fn theorem_uint_agrees(s: Seq<u8>, x: BigUint, y: num_bigint::BigUint)
    requires lp(H::BigUint, s) is Some, x.leaf() == (lp(H::BigUint, s)->Some_0).0, <BigUint as Into<num_bigint::BigUint>>::goes(x, y)
    ensures uint_at(s) == Some((y.v@, (lp(H::BigUint, s)->Some_0).1))
{}
/// C14: the same of signed integers, in two's complement.
pub proof fn theorem_int(v: num_bigint::BigInt, x: BigInt, y: num_bigint::BigInt, t: Seq<u8>)
    requires <BigInt as From<num_bigint::BigInt>>::made(v, x), <BigInt as Into<num_bigint::BigInt>>::goes(x, y), tc(v.v@).len() <= u64::MAX
    ensures
        y.v@ == v.v@,
        ({
            let e = lb(x.leaf());
            &&& e == if v.v@ == 0 { seq![0u8] } else { blob(tc(v.v@)) }
            &&& lp(H::BigInt, e + t) == Some((x.leaf(), e.len()))
            &&& int_at(e + t) == Some((v.v@, e.len()))
        })
{
    lemma_tc(v.v@);
    theorem_leaf_round_trip(x.leaf(), t);
    lemma_blob_none();
}
pub proof fn theorem_int_agrees(s: Seq<u8>, x: BigInt, y: num_bigint::BigInt)
    requires lp(H::BigInt, s) is Some, x.leaf() == (lp(H::BigInt, s)->Some_0).0, <BigInt as Into<num_bigint::BigInt>>::goes(x, y)
    ensures int_at(s) == Some((y.v@, (lp(H::BigInt, s)->Some_0).1))
{}
/// C14: decimals keep their value; what is written is normalized, or one zero.
pub proof fn theorem_decimal(v: bigdecimal::BigDecimal, x: BigDecimal, y: bigdecimal::BigDecimal, t: Seq<u8>)
    requires
        <BigDecimal as From<bigdecimal::BigDecimal>>::made(v, x), <BigDecimal as Into<bigdecimal::BigDecimal>>::goes(x, y),
        decimal_fine(v.d@, v.s as int), tc(norm(v.d@, v.s as int).0).len() <= u64::MAX
    ensures
        v.d@ == 0 ==> y.d@ == 0,
        v.d@ != 0 ==> same_number((y.d@, y.s as int), (v.d@, v.s as int)) && y.d@ % 10 != 0,
        ({
            let (e, (a, b)) = (lb(x.leaf()), norm(v.d@, v.s as int));
            &&& e == if v.d@ == 0 { seq![0u8] } else { blob(tc(a)) + vu64(zigzag(b) as u64) }
            &&& lp(H::BigDecimal, e + t) == Some((x.leaf(), e.len()))
            &&& decimal_at(e + t) == Some(((y.d@, y.s), e.len()))
        })
{
    lemma_norm(v.d@, v.s as int);
    lemma_tc(norm(v.d@, v.s as int).0);
    theorem_leaf_round_trip(x.leaf(), t);
}
pub proof fn theorem_decimal_agrees(s: Seq<u8>, x: BigDecimal, y: bigdecimal::BigDecimal)
    requires lp(H::BigDecimal, s) is Some, x.leaf() == (lp(H::BigDecimal, s)->Some_0).0, <BigDecimal as Into<bigdecimal::BigDecimal>>::goes(x, y)
    ensures decimal_at(s) == Some(((y.d@, y.s), (lp(H::BigDecimal, s)->Some_0).1))
{}
}
