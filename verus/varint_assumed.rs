/// What u0_varint.rs shows of these functions.
pub mod varint_impls {
use super::*;
use super::varint::*;
use super::zigzag::*;
impl PrefixVarint<3> for u16 {
    open spec fn enc(self) -> Seq<u8> { vu16(self) }
    open spec fn dec(s: Seq<u8>) -> Option<(u16, nat)> { du16(s) }
    #[verifier::external_body]
    fn encode_prefix_varint(self, buf: &mut [u8; 3]) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn decode_prefix_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> { unimplemented!() }
}
impl PrefixVarint<5> for u32 {
    open spec fn enc(self) -> Seq<u8> { vu32(self) }
    open spec fn dec(s: Seq<u8>) -> Option<(u32, nat)> { du32(s) }
    #[verifier::external_body]
    fn encode_prefix_varint(self, buf: &mut [u8; 5]) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn decode_prefix_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> { unimplemented!() }
}
impl PrefixVarint<9> for u64 {
    open spec fn enc(self) -> Seq<u8> { vu64(self) }
    open spec fn dec(s: Seq<u8>) -> Option<(u64, nat)> { du64(s) }
    #[verifier::external_body]
    fn encode_prefix_varint(self, buf: &mut [u8; 9]) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn decode_prefix_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> { unimplemented!() }
}
impl ZigZag<u16> for i16 {
    open spec fn to(self) -> u16 { zigzag(self as int) as u16 }
    open spec fn from(v: u16) -> i16 { unzigzag(v as int) as i16 }
    #[verifier::external_body]
    fn encode_zigzag(self) -> u16 { unimplemented!() }
    #[verifier::external_body]
    fn decode_zigzag(v: u16) -> i16 { unimplemented!() }
}
impl ZigZag<u32> for i32 {
    open spec fn to(self) -> u32 { zigzag(self as int) as u32 }
    open spec fn from(v: u32) -> i32 { unzigzag(v as int) as i32 }
    #[verifier::external_body]
    fn encode_zigzag(self) -> u32 { unimplemented!() }
    #[verifier::external_body]
    fn decode_zigzag(v: u32) -> i32 { unimplemented!() }
}
impl ZigZag<u64> for i64 {
    open spec fn to(self) -> u64 { zigzag(self as int) as u64 }
    open spec fn from(v: u64) -> i64 { unzigzag(v as int) as i64 }
    #[verifier::external_body]
    fn encode_zigzag(self) -> u64 { unimplemented!() }
    #[verifier::external_body]
    fn decode_zigzag(v: u64) -> i64 { unimplemented!() }
}
}
