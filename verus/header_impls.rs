//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for ()
//@inject
open spec fn hdr() -> H { H::Unit }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for bool
//@inject
open spec fn hdr() -> H { H::Bool }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for u8
//@inject
open spec fn hdr() -> H { H::U8 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for u16
//@inject
open spec fn hdr() -> H { H::U16 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for u32
//@inject
open spec fn hdr() -> H { H::U32 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for u64
//@inject
open spec fn hdr() -> H { H::U64 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for i8
//@inject
open spec fn hdr() -> H { H::I8 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for i16
//@inject
open spec fn hdr() -> H { H::I16 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for i32
//@inject
open spec fn hdr() -> H { H::I32 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for i64
//@inject
open spec fn hdr() -> H { H::I64 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for f32
//@inject
open spec fn hdr() -> H { H::F32 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for f64
//@inject
open spec fn hdr() -> H { H::F64 }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for BigUint
//@inject
open spec fn hdr() -> H { H::BigUint }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for num_bigint::BigUint
//@inject
open spec fn hdr() -> H { H::BigUint }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for BigInt
//@inject
open spec fn hdr() -> H { H::BigInt }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for num_bigint::BigInt
//@inject
open spec fn hdr() -> H { H::BigInt }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for BigDecimal
//@inject
open spec fn hdr() -> H { H::BigDecimal }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for bigdecimal::BigDecimal
//@inject
open spec fn hdr() -> H { H::BigDecimal }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for &str
//@inject
open spec fn hdr() -> H { H::Str }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for String
//@inject
open spec fn hdr() -> H { H::Str }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for Bytes
//@inject
open spec fn hdr() -> H { H::Bin }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for ByteBuf
//@inject
open spec fn hdr() -> H { H::Bin }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for Date
//@inject
open spec fn hdr() -> H { H::Date }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for time::Date
//@inject
open spec fn hdr() -> H { H::Date }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for DateTime
//@inject
open spec fn hdr() -> H { H::DateTime }
//@end
//@impl dlhn/src/header/ser.rs :: impl SerializeHeader for time::OffsetDateTime
//@inject
open spec fn hdr() -> H { H::DateTime }
//@end
//@impl dlhn/src/header/ser.rs :: impl<T: SerializeHeader> SerializeHeader for Option<T>
//@inject
open spec fn hdr() -> H { H::Opt(Box::new(T::hdr())) }
//@end
//@impl dlhn/src/header/ser.rs :: impl<T: SerializeHeader> SerializeHeader for Vec<T>
//@inject
open spec fn hdr() -> H { H::Arr(Box::new(T::hdr())) }
//@end
//@impl dlhn/src/header/ser.rs :: impl<K: AsRef<str>, V: SerializeHeader> SerializeHeader for BTreeMap<K, V>
//@inject
open spec fn hdr() -> H { H::Map(Box::new(V::hdr())) }
//@end
//@impl dlhn/src/header/ser.rs :: impl<K: AsRef<str>, V: SerializeHeader> SerializeHeader for HashMap<K, V>
//@inject
open spec fn hdr() -> H { H::Map(Box::new(V::hdr())) }
//@end
//@rewrite $t:ident::serialize_header(writer)?; => proof { if k_ == 0 { so_far_first(21, all, room0, out0, (*writer).room(), (*writer).out()); } so_far_here(21, all, k_, room0, out0, (*writer).room(), (*writer).out()); o_ = (*writer).out(); r_ = (*writer).room(); } $t::serialize_header(writer)?; proof { so_far_next(21, all, k_, room0, out0, r_, o_, (*writer).room(), (*writer).out()); k_ = k_ + 1; if k_ == all.len() { so_far_all(21, all, room0, out0, (*writer).room(), (*writer).out()); } }
//@expand dlhn/src/header/ser.rs :: tuple_impls
//@impl dlhn/src/header/ser.rs :: impl<T0> SerializeHeader for (T0,) where T0: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1> SerializeHeader for (T0, T1,) where T0: SerializeHeader, T1: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2> SerializeHeader for (T0, T1, T2,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3> SerializeHeader for (T0, T1, T2, T3,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4> SerializeHeader for (T0, T1, T2, T3, T4,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5> SerializeHeader for (T0, T1, T2, T3, T4, T5,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader, T8: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader, T8: SerializeHeader, T9: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader, T8: SerializeHeader, T9: SerializeHeader, T10: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader, T8: SerializeHeader, T9: SerializeHeader, T10: SerializeHeader, T11: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader, T8: SerializeHeader, T9: SerializeHeader, T10: SerializeHeader, T11: SerializeHeader, T12: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader, T8: SerializeHeader, T9: SerializeHeader, T10: SerializeHeader, T11: SerializeHeader, T12: SerializeHeader, T13: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader, T8: SerializeHeader, T9: SerializeHeader, T10: SerializeHeader, T11: SerializeHeader, T12: SerializeHeader, T13: SerializeHeader, T14: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr(), T14::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
//@impl dlhn/src/header/ser.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> SerializeHeader for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) where T0: SerializeHeader, T1: SerializeHeader, T2: SerializeHeader, T3: SerializeHeader, T4: SerializeHeader, T5: SerializeHeader, T6: SerializeHeader, T7: SerializeHeader, T8: SerializeHeader, T9: SerializeHeader, T10: SerializeHeader, T11: SerializeHeader, T12: SerializeHeader, T13: SerializeHeader, T14: SerializeHeader, T15: SerializeHeader,
//@inject
open spec fn hdr() -> H { H::Tup(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr(), T14::hdr(), T15::hdr()]) }
//@fn serialize_header
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), Self::hdr()->Tup_0);
    let ghost mut k_: nat = 0;
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@end
