/// Stand for the crates time, num-bigint and bigdecimal: what their documentation says of the parts that are used.
/// Nothing in here is verified but the lemmas; the search compares it with the crates themselves.
pub mod numbers {
use super::*;
/// The bytes of v, little-endian, as few as it takes, but at least one.
pub open spec fn mag(v: nat) -> Seq<u8> decreases v { if v < 256 { seq![v as u8] } else { seq![(v % 256) as u8] + mag(v / 256) } }
pub open spec fn unmag(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * unmag(s.skip(1)) } }
pub open spec fn size(v: int) -> nat { if v < 0 { (-v) as nat } else { v as nat } }
/// The bytes of v in two's complement, little-endian, as few as it takes, but at least one.
pub open spec fn tc(v: int) -> Seq<u8> decreases size(v) {
    if -128 <= v < 128 { seq![(v % 256) as u8] } else { seq![(v % 256) as u8] + tc(v / 256) }
}
pub open spec fn untc(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s.len() == 1 { if s[0] < 128 { s[0] as int } else { s[0] - 256 } } else { s[0] + 256 * untc(s.skip(1)) }
}
/// Big-endian, for what would use it.
pub open spec fn back_to_front(s: Seq<u8>) -> Seq<u8> { s.reverse() }
pub open spec fn pow10(n: nat) -> nat decreases n { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
/// A decimal without trailing zeros: digits * 10^-scale.
pub open spec fn norm(d: int, s: int) -> (int, int) decreases size(d) {
    if d == 0 { (0, 0) } else if d % 10 == 0 { norm(d / 10, s - 1) } else { (d, s) }
}
/// The same number.
pub open spec fn same_number(a: (int, int), b: (int, int)) -> bool {
    if a.1 <= b.1 { a.0 * pow10((b.1 - a.1) as nat) == b.0 } else { b.0 * pow10((a.1 - b.1) as nat) == a.0 }
}
pub proof fn lemma_mag(v: nat)
    ensures unmag(mag(v)) == v, mag(v).len() >= 1
    decreases v
{
    if v >= 256 {
        lemma_mag(v / 256);
        assert(mag(v).skip(1) =~= mag(v / 256));
        assert(mag(v)[0] == (v % 256) as u8);
        assert(v == v % 256 + 256 * (v / 256)) by (nonlinear_arith);
    } else {
        assert(mag(v).skip(1) =~= seq![]);
        assert(mag(v) =~= seq![v as u8]);
        assert(unmag(seq![]) == 0);
    }
}
pub proof fn lemma_tc(v: int)
    ensures untc(tc(v)) == v, tc(v).len() >= 1
    decreases size(v)
{
    if !(-128 <= v < 128) {
        lemma_tc(v / 256);
        assert(tc(v).skip(1) =~= tc(v / 256));
        assert(v == v % 256 + 256 * (v / 256)) by (nonlinear_arith);
    }
}
pub proof fn lemma_norm(d: int, s: int)
    ensures
        same_number(norm(d, s), (d, s)) || d == 0,
        d != 0 ==> norm(d, s).0 != 0 && norm(d, s).0 % 10 != 0 && norm(d, s).1 <= s,
        d == 0 ==> norm(d, s) == (0int, 0int),
    decreases size(d)
{
    if d != 0 && d % 10 == 0 {
        lemma_norm(d / 10, s - 1);
        let (a, b) = norm(d, s);
        let n = (s - 1 - b) as nat;
        assert(pow10((s - b) as nat) == 10 * pow10(n));
        assert(a * pow10((s - b) as nat) == d) by (nonlinear_arith)
            requires pow10((s - b) as nat) == 10 * pow10(n), a * pow10(n) == d / 10, d % 10 == 0;
    } else {
        assert(pow10(0) == 1);
        assert(d * 1 == d);
    }
}
}
pub mod num_bigint {
use super::*;
use super::numbers::*;
pub struct BigUint { pub v: Ghost<nat> }
pub struct BigInt { pub v: Ghost<int> }
#[derive(Clone, Copy)]
pub enum Sign { Minus, NoSign, Plus }
impl BigUint {
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.v@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes_le(&self) -> (r: Vec<u8>) ensures r@ == mag(self.v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes_be(&self) -> (r: Vec<u8>) ensures r@ == back_to_front(mag(self.v@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes_le(b: &[u8]) -> (r: BigUint) ensures r.v@ == unmag(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes_be(b: &[u8]) -> (r: BigUint) ensures r.v@ == unmag(back_to_front(b@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: BigUint) ensures r.v@ == 0 { unimplemented!() }
}
impl BigInt {
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.v@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn sign(&self) -> (r: Sign) ensures r == (if self.v@ < 0 { Sign::Minus } else if self.v@ == 0 { Sign::NoSign } else { Sign::Plus }) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_signed_bytes_le(&self) -> (r: Vec<u8>) ensures r@ == tc(self.v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_signed_bytes_be(&self) -> (r: Vec<u8>) ensures r@ == back_to_front(tc(self.v@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes_le(&self) -> (r: (Sign, Vec<u8>)) ensures r.1@ == mag(size(self.v@)), r.0 == (if self.v@ < 0 { Sign::Minus } else if self.v@ == 0 { Sign::NoSign } else { Sign::Plus }) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_signed_bytes_le(b: &[u8]) -> (r: BigInt) ensures r.v@ == untc(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_signed_bytes_be(b: &[u8]) -> (r: BigInt) ensures r.v@ == untc(back_to_front(b@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes_le(sign: Sign, b: &[u8]) -> (r: BigInt) ensures r.v@ == (match sign { Sign::Minus => -(unmag(b@) as int), Sign::NoSign => 0, Sign::Plus => unmag(b@) as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: BigInt) ensures r.v@ == 0 { unimplemented!() }
}
}
pub mod bigdecimal {
use super::*;
use super::numbers::*;
use super::num_bigint::BigInt;
/// digits * 10^-scale
pub struct BigDecimal { pub d: Ghost<int>, pub s: i64 }
impl BigDecimal {
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.d@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: BigDecimal) ensures r.d@ == 0, r.s == 0 { unimplemented!() }
    /// Of scales that are far from the ends of their range.
    #[verifier::external_body]
    pub fn normalized(&self) -> (r: BigDecimal)
        ensures norm(self.d@, self.s as int).1 >= i64::MIN ==> (r.d@, r.s as int) == norm(self.d@, self.s as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bigint_and_exponent(self) -> (r: (BigInt, i64)) ensures r.0.v@ == self.d@, r.1 == self.s { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bigint_and_exponent(&self) -> (r: (BigInt, i64)) ensures r.0.v@ == self.d@, r.1 == self.s { unimplemented!() }
    #[verifier::external_body]
    pub fn new(digits: BigInt, scale: i64) -> (r: BigDecimal) ensures r.d@ == digits.v@, r.s == scale { unimplemented!() }
    #[verifier::external_body]
    pub fn from(digits: BigInt) -> (r: BigDecimal) ensures r.d@ == digits.v@, r.s == 0 { unimplemented!() }
}
}
pub mod time {
use super::*;
/// The last year it has (the first one is minus that): 9999, or 999999 with the feature large-dates.
pub uninterp spec fn max_year() -> int;
#[verifier::external_body]
pub broadcast proof fn max_year_()
    ensures 9999 <= #[trigger] max_year() <= 999_999
{}
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
/// There is such a day.
pub open spec fn day(y: int, o: int) -> bool { -max_year() <= y <= max_year() && 1 <= o <= if leap(y) { 366int } else { 365 } }
pub struct ComponentRange;
#[derive(Clone, Copy)]
pub struct Date { pub y: i32, pub o: u16 }
impl Date {
    #[verifier::external_body]
    pub fn year(self) -> (r: i32) ensures r == self.y, day(self.y as int, self.o as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn ordinal(self) -> (r: u16) ensures r == self.o, day(self.y as int, self.o as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_ordinal_date(self) -> (r: (i32, u16)) ensures r.0 == self.y, r.1 == self.o, day(self.y as int, self.o as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_ordinal_date(year: i32, ordinal: u16) -> (r: Result<Date, ComponentRange>)
        ensures match r {
            Ok(d) => day(year as int, ordinal as int) && d.y == year && d.o == ordinal,
            Err(_) => !day(year as int, ordinal as int),
        }
    { unimplemented!() }
}
/// The first and the last second of UTC that it has.
pub uninterp spec fn min_second() -> int;
pub uninterp spec fn max_second() -> int;
#[verifier::external_body]
pub proof fn seconds_()
    ensures i64::MIN < min_second() < 0 < max_second() < i64::MAX, max_second() < 100_000_000_000_000, min_second() > -100_000_000_000_000
{}
pub open spec fn billion() -> int { 1_000_000_000 }
/// An instant: seconds since 1970, rounded down, and nanoseconds after them; its local time does not matter here.
#[derive(Clone, Copy)]
pub struct OffsetDateTime { pub t: i64, pub n: u32 }
impl OffsetDateTime {
    pub open spec fn instant(self) -> int { self.t * billion() + self.n }
    #[verifier::external_body]
    pub fn unix_timestamp(self) -> (r: i64) ensures r == self.t, self.n < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn unix_timestamp_nanos(self) -> (r: i128) ensures r == self.instant(), self.n < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn nanosecond(self) -> (r: u32) ensures r == self.n, self.n < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn microsecond(self) -> (r: u32) ensures r == self.n / 1000, self.n < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn millisecond(self) -> (r: u16) ensures r == self.n / 1_000_000, self.n < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn time(self) -> (r: Time) ensures r.n == self.n, self.n < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_unix_timestamp(t: i64) -> (r: Result<OffsetDateTime, ComponentRange>)
        ensures match r {
            Ok(d) => min_second() <= t <= max_second() && d.t == t && d.n == 0,
            Err(_) => !(min_second() <= t <= max_second()),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_unix_timestamp_nanos(t: i128) -> (r: Result<OffsetDateTime, ComponentRange>)
        ensures match r {
            Ok(d) => min_second() * billion() <= t < (max_second() + 1) * billion() && d.instant() == t && d.n < 1_000_000_000,
            Err(_) => !(min_second() * billion() <= t < (max_second() + 1) * billion()),
        }
    { unimplemented!() }
    /// In UTC, as those of from_unix_timestamp are.
    #[verifier::external_body]
    pub fn checked_add(self, d: Duration) -> (r: Option<OffsetDateTime>)
        ensures match r {
            Some(x) => x.instant() == self.instant() + d.ns@ && x.n < 1_000_000_000 && min_second() <= x.t <= max_second(),
            None => !(min_second() * billion() <= self.instant() + d.ns@ < (max_second() + 1) * billion()),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, d: Duration) -> (r: Option<OffsetDateTime>)
        ensures match r {
            Some(x) => x.instant() == self.instant() - d.ns@ && x.n < 1_000_000_000 && min_second() <= x.t <= max_second(),
            None => !(min_second() * billion() <= self.instant() - d.ns@ < (max_second() + 1) * billion()),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_nanosecond(self, n: u32) -> (r: Result<OffsetDateTime, ComponentRange>)
        ensures match r { Ok(x) => n < 1_000_000_000 && x.t == self.t && x.n == n, Err(_) => n >= 1_000_000_000 }
    { unimplemented!() }
}
pub struct Time { pub n: u32 }
impl Time {
    #[verifier::external_body]
    pub fn nanosecond(self) -> (r: u32) ensures r == self.n { unimplemented!() }
    #[verifier::external_body]
    pub fn microsecond(self) -> (r: u32) ensures r == self.n / 1000 { unimplemented!() }
    #[verifier::external_body]
    pub fn millisecond(self) -> (r: u16) ensures r == self.n / 1_000_000 { unimplemented!() }
}
pub struct Duration { pub ns: Ghost<int> }
impl Duration {
    #[verifier::external_body]
    pub fn nanoseconds(v: i64) -> (r: Duration) ensures r.ns@ == v { unimplemented!() }
    #[verifier::external_body]
    pub fn microseconds(v: i64) -> (r: Duration) ensures r.ns@ == v * 1000 { unimplemented!() }
    #[verifier::external_body]
    pub fn milliseconds(v: i64) -> (r: Duration) ensures r.ns@ == v * 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn seconds(v: i64) -> (r: Duration) ensures r.ns@ == v * billion() { unimplemented!() }
}
/// time::ext::NumericalDuration
pub trait NumericalDuration: Sized {
    spec fn count(self) -> int;
    fn nanoseconds(self) -> (r: Duration) ensures r.ns@ == self.count();
    fn microseconds(self) -> (r: Duration) ensures r.ns@ == self.count() * 1000;
    fn milliseconds(self) -> (r: Duration) ensures r.ns@ == self.count() * 1_000_000;
    fn seconds(self) -> (r: Duration) ensures r.ns@ == self.count() * billion();
}
impl NumericalDuration for i64 {
    open spec fn count(self) -> int { self as int }
    #[verifier::external_body]
    fn nanoseconds(self) -> (r: Duration) { unimplemented!() }
    #[verifier::external_body]
    fn microseconds(self) -> (r: Duration) { unimplemented!() }
    #[verifier::external_body]
    fn milliseconds(self) -> (r: Duration) { unimplemented!() }
    #[verifier::external_body]
    fn seconds(self) -> (r: Duration) { unimplemented!() }
}
}
/// What the values of those crates are to dlhn: the specification of both ways to encode them.
pub mod outside {
use super::*;
use super::numbers::*;
use super::varint::*;
use super::value_spec::*;
use super::header_spec::H;
use super::time::{day, billion, min_second, max_second};
/// What a value is as a value of dlhn.
pub open spec fn uint_leaf(v: nat) -> L { L::BigUint(if v == 0 { seq![] } else { mag(v) }) }
pub open spec fn int_leaf(v: int) -> L { L::BigInt(if v == 0 { seq![] } else { tc(v) }) }
pub open spec fn decimal_leaf(d: int, s: int) -> L {
    let (a, b) = norm(d, s);
    if d == 0 { L::BigDecimal(seq![], 0) } else { L::BigDecimal(tc(a), b as i64) }
}
/// Its scale without trailing zeros is one.
pub open spec fn decimal_fine(d: int, s: int) -> bool { i64::MIN <= norm(d, s).1 <= i64::MAX }
pub open spec fn date_leaf(d: time::Date) -> L { L::Date(d.y, d.o) }
pub open spec fn date_time_leaf(d: time::OffsetDateTime) -> L { L::DateTime(d.t, d.n) }
/// What bytes hold for those who decode to the types of those crates.
pub open spec fn uint_at(s: Seq<u8>) -> Option<(nat, nat)> {
    match lp(H::BigUint, s) { Some((L::BigUint(b), n)) => Some((unmag(b), n)), _ => None }
}
pub open spec fn int_at(s: Seq<u8>) -> Option<(int, nat)> {
    match lp(H::BigInt, s) { Some((L::BigInt(b), n)) => Some((untc(b), n)), _ => None }
}
pub open spec fn decimal_at(s: Seq<u8>) -> Option<((int, i64), nat)> {
    match lp(H::BigDecimal, s) { Some((L::BigDecimal(b, e), n)) => Some(((untc(b), e), n)), _ => None }
}
pub open spec fn date_at(s: Seq<u8>) -> Option<((i32, u16), nat)> {
    match lp(H::Date, s) { Some((L::Date(y, o), n)) if day(y as int, o as int) => Some(((y, o), n)), _ => None }
}
/// The instant that seconds and nanoseconds tell, if it is one of those that there are.
pub open spec fn instant(t: i64, n: u32) -> Option<int> {
    if min_second() <= t <= max_second() && t * billion() + n < (max_second() + 1) * billion() { Some(t * billion() + n) } else { None }
}
pub open spec fn date_time_at(s: Seq<u8>) -> Option<(int, nat)> {
    match lp(H::DateTime, s) {
        Some((L::DateTime(t, k), n)) => match instant(t, k) { Some(i) => Some((i, n)), None => None },
        _ => None,
    }
}
}
