pub mod types {
pub use std::collections::{BTreeMap, HashMap};
// Types of other crates and modules that have a header: nothing but the type matters here.
pub struct BigUint(Vec<u8>);
pub struct BigInt(Vec<u8>);
pub struct BigDecimal { signed_bytes: Vec<u8>, scale: i64 }
pub struct Date { year: i32, ordinal: u16 }
pub struct DateTime { unix_timestamp: i64, nanosecond: u32 }
pub struct ByteBuf { bytes: Vec<u8> }
pub struct Bytes { bytes: [u8] }
pub mod num_bigint { pub struct BigUint(u8); pub struct BigInt(u8); }
pub mod bigdecimal { pub struct BigDecimal(u8); }
pub mod time { pub struct Date(u8); pub struct OffsetDateTime(u8); }
}
