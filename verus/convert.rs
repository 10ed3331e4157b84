/// The conversions from and to the types of other crates.
pub mod convert {
use super::*;
pub trait From<T>: Sized {
    spec fn made(v: T, r: Self) -> bool;
    fn from(v: T) -> (r: Self) ensures Self::made(v, r);
}
pub trait Into<T>: Sized {
    spec fn goes(self, r: T) -> bool;
    fn into(self) -> (r: T) ensures self.goes(r);
}
pub trait TryInto<T>: Sized {
    type Error;
    spec fn goes(self, r: Option<T>) -> bool;
    fn try_into(self) -> (r: Result<T, Self::Error>)
        ensures self.goes(match r { Ok(x) => Some(x), Err(_) => None });
}
}
pub mod date {
use super::*;
use super::value_spec::*;
use super::outside::*;
use super::leaf::*;
use super::convert::{From, TryInto};
broadcast use super::time::max_year_;
//@include date_struct.rs
//@rewrite std::convert::TryInto<$t> for $d:ident => TryInto<$t> for $d
//@impl dlhn/src/date.rs :: impl From<time::Date> for Date
//@inject
    open spec fn made(v: time::Date, r: Self) -> bool { r.leaf() == date_leaf(v) && time::day(v.y as int, v.o as int) }
//@end
//@impl dlhn/src/date.rs :: impl std::convert::TryInto<time::Date> for Date
//@inject
    open spec fn goes(self, r: Option<time::Date>) -> bool {
        match r {
            Some(d) => self.leaf() == date_leaf(d) && time::day(self.year_() as int, self.ordinal_() as int),
            None => !time::day(self.year_() as int, self.ordinal_() as int),
        }
    }
//@end
//@norewrites
}
pub mod conversions {
use super::*;
use super::value_spec::*;
use super::outside::*;
use super::leaf::*;
use super::date::*; use super::date_time::*; use super::big::*;
use super::convert::{From, TryInto, Into};
use super::time::{OffsetDateTime, NumericalDuration, Duration};
use super::numbers::*;
broadcast use super::time::max_year_;
//@rewrite std::convert::TryInto<$t> for $d:ident => TryInto<$t> for $d
//@rewrite self.0.as_ref() => self.0.as_slice()
//@rewrite self.signed_bytes.as_ref() => self.signed_bytes.as_slice()
//@impl dlhn/src/date_time.rs :: impl From<OffsetDateTime> for DateTime
//@inject
    open spec fn made(v: OffsetDateTime, r: Self) -> bool { r.leaf() == date_time_leaf(v) && v.n < 1_000_000_000 }
//@end
//@impl dlhn/src/date_time.rs :: impl std::convert::TryInto<OffsetDateTime> for DateTime
//@inject
    open spec fn goes(self, r: Option<OffsetDateTime>) -> bool {
        match r {
            Some(d) => Some(d.instant()) == instant(self.unix_timestamp, self.nanosecond) && d.n < 1_000_000_000,
            None => instant(self.unix_timestamp, self.nanosecond) is None,
        }
    }
//@end
//@impl dlhn/src/big_uint.rs :: impl From<num_bigint::BigUint> for BigUint
//@inject
    open spec fn made(v: num_bigint::BigUint, r: Self) -> bool { r.leaf() == uint_leaf(v.v@) }
//@fn from
//@start
    assert(Seq::<u8>::empty() =~= seq![]);
//@end
//@impl dlhn/src/big_uint.rs :: impl Into<num_bigint::BigUint> for BigUint
//@inject
    open spec fn goes(self, r: num_bigint::BigUint) -> bool { r.v@ == unmag(self.0@) }
//@end
//@impl dlhn/src/big_int.rs :: impl From<num_bigint::BigInt> for BigInt
//@inject
    open spec fn made(v: num_bigint::BigInt, r: Self) -> bool { r.leaf() == int_leaf(v.v@) }
//@end
//@impl dlhn/src/big_int.rs :: impl Into<num_bigint::BigInt> for BigInt
//@inject
    open spec fn goes(self, r: num_bigint::BigInt) -> bool { r.v@ == untc(self.0@) }
//@end
//@impl dlhn/src/big_decimal.rs :: impl From<bigdecimal::BigDecimal> for BigDecimal
//@inject
    open spec fn made(v: bigdecimal::BigDecimal, r: Self) -> bool { decimal_fine(v.d@, v.s as int) ==> r.leaf() == decimal_leaf(v.d@, v.s as int) }
//@end
//@impl dlhn/src/big_decimal.rs :: impl Into<bigdecimal::BigDecimal> for BigDecimal
//@inject
    open spec fn goes(self, r: bigdecimal::BigDecimal) -> bool { r.d@ == untc(self.signed_bytes@) && r.s == self.scale }
//@end
//@norewrites
}
