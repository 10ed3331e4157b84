/// The field-attribute modules: what they write for the values of other crates.
pub mod ser_format {
use super::*;
pub mod date {
use super::super::*;
use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*; use super::super::ser_spec::*;
use super::super::ser::*; use super::super::composites::*; use super::super::outside::*; use super::super::enc_spec::*;
use super::super::time::Date;
use super::super::serde::ser::{SerializeTuple, Serializer as _};
use std::io::Write;
use super::{lemma_no_bytes, lemma_any_bytes};
broadcast use super::super::time::max_year_;
//@consts dlhn/src/format/date.rs
//@fns dlhn/src/format/date.rs
//@fn serialize
    ensures wrote(*old(serializer), *final(serializer), Some(lb(date_leaf(*date))), r is Ok)
//@sig <T: Serializer>(date: &Date, serializer: T) -> Result<T::Ok, T::Error> => <W: Write>(date: &Date, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    broadcast use group_varint;
//@fn deserialize
//@skip
//@end
}
pub mod date_time {
use super::super::*;
use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*; use super::super::ser_spec::*;
use super::super::ser::*; use super::super::composites::*; use super::super::outside::*; use super::super::enc_spec::*;
use super::super::time::OffsetDateTime;
use super::super::serde::ser::{SerializeSeq, Serializer as _};
use std::io::Write;
use super::{lemma_no_bytes, lemma_any_bytes};
//@fns dlhn/src/format/date_time.rs
//@fn serialize
    ensures wrote(*old(serializer), *final(serializer), Some(lb(date_time_leaf(*date_time))), r is Ok)
//@sig <T: Serializer>(date_time: &OffsetDateTime, serializer: T,) -> Result<T::Ok, T::Error> => <W: Write>(date_time: &OffsetDateTime, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    broadcast use group_varint;
//@fn deserialize
//@skip
//@end
}
pub mod big_uint {
use super::super::*;
use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*; use super::super::ser_spec::*;
use super::super::ser::*; use super::super::composites::*; use super::super::outside::*; use super::super::enc_spec::*; use super::super::numbers::*;
use super::super::num_bigint::BigUint;
use super::super::serde::ser::{SerializeSeq, Serializer as _};
use std::io::Write;
use super::{lemma_no_bytes, lemma_any_bytes};
//@fns dlhn/src/format/big_uint.rs
//@fn serialize
    ensures wrote(*old(serializer), *final(serializer), Some(lb(uint_leaf(big_uint.v@))), r is Ok)
//@sig <T: Serializer>(big_uint: &BigUint, serializer: T) -> Result<T::Ok, T::Error> => <W: Write>(big_uint: &BigUint, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    proof { lemma_no_bytes(); lemma_any_bytes(); }
//@fn deserialize
//@skip
//@end
}
pub mod big_int {
use super::super::*;
use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*; use super::super::ser_spec::*;
use super::super::ser::*; use super::super::composites::*; use super::super::outside::*; use super::super::enc_spec::*; use super::super::numbers::*;
use super::super::num_bigint::BigInt;
use super::super::serde::ser::{SerializeSeq, Serializer as _};
use std::io::Write;
use super::{lemma_no_bytes, lemma_any_bytes};
//@fns dlhn/src/format/big_int.rs
//@fn serialize
    ensures wrote(*old(serializer), *final(serializer), Some(lb(int_leaf(big_int.v@))), r is Ok)
//@sig <T: Serializer>(big_int: &BigInt, serializer: T) -> Result<T::Ok, T::Error> => <W: Write>(big_int: &BigInt, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    proof { lemma_no_bytes(); lemma_any_bytes(); }
//@fn deserialize
//@skip
//@end
}
pub mod big_decimal {
use super::super::*;
use super::super::io_spec::*; use super::super::varint::*; use super::super::value_spec::*; use super::super::ser_spec::*;
use super::super::ser::*; use super::super::composites::*; use super::super::outside::*; use super::super::enc_spec::*; use super::super::numbers::*;
use super::super::bigdecimal::BigDecimal; use super::super::num_bigint::BigInt;
use super::super::serde::ser::{SerializeSeq, Serializer as _};
use std::io::Write;
use super::{lemma_no_bytes, lemma_any_bytes};
//@fns dlhn/src/format/big_decimal.rs
//@fn serialize
    ensures decimal_fine(value.d@, value.s as int) ==>
        wrote(*old(serializer), *final(serializer), Some(lb(decimal_leaf(value.d@, value.s as int))), r is Ok)
//@sig <T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::Ok, T::Error> => <W: Write>(value: &BigDecimal, serializer: &mut Serializer<W>) -> Result<(), Error>
//@start
    proof { lemma_no_bytes(); lemma_any_bytes(); lemma_norm(value.d@, value.s as int); lemma_tc(norm(value.d@, value.s as int).0); }
//@fn deserialize
//@skip
//@end
}
pub proof fn lemma_no_bytes()
    ensures super::value_spec::blob(seq![]) == seq![0u8]
{
    reveal(super::varint::vu);
    assert(super::varint::vu(0, 9) =~= seq![0u8]);
    assert(super::value_spec::blob(seq![]) =~= seq![0u8]);
}
pub proof fn lemma_any_bytes()
    ensures forall|v: Vec<u8>| #[trigger] super::enc_spec::Enc::enc(&v) == Some(super::value_spec::blob(v@))
{
    assert forall|v: Vec<u8>| #[trigger] super::enc_spec::Enc::enc(&v) == Some(super::value_spec::blob(v@)) by { super::composites::lemma_bytes(v); }
}
}
