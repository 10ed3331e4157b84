#![allow(unused_imports, dead_code, unused_mut, unused_variables, unreachable_patterns, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include common.rs
//@include varint_code.rs CRATE=dlhn
/// What the other units take from here (varint_assumed.rs): the same contracts, of the bodies above.
pub mod varint_impls {
use super::*;
use super::io_spec::*;
use super::varint::*;
use super::std_spec::*;
use super::prefix_varint::{self, written, means, lemma_written};

pub proof fn lemma_number(s: Seq<u8>, a: int, n: nat)
    requires n <= 8, 0 <= a, a + n <= s.len()
    ensures number(s, a, n) == unle(s.subrange(a, a + n))
{
    let t = s.subrange(a, a + n);
    reveal_with_fuel(unle, 9);
    assert(unle(t) == number(t, 0, n));
    assert(forall|i: int| 0 <= i < n ==> #[trigger] t[i] == s[a + i]);
}
pub proof fn lemma_means(s: Seq<u8>, max: nat)
    requires max == 3 || max == 5 || max == 9
    ensures means(s, max) == du(s, max)
{
    reveal(du);
    if s.len() > 0 {
        let n = announced(s[0], max);
        if s.len() >= n { lemma_number(s, 1, (n - 1) as nat); }
    }
}
impl PrefixVarint<3> for u16 {
    open spec fn enc(self) -> Seq<u8> { vu16(self) }
    open spec fn dec(s: Seq<u8>) -> Option<(u16, nat)> { du16(s) }
    fn encode_prefix_varint(self, buf: &mut [u8; 3]) -> usize {
        let r = prefix_varint::PrefixVarint::encode_prefix_varint(self, buf);
        proof { lemma_written(buf@, r as nat, self as u64, 3); }
        r
    }
    fn decode_prefix_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
        proof { lemma_means((*old(reader)).rest(), 3); }
        <u16 as prefix_varint::PrefixVarint<3>>::decode_prefix_varint(reader)
    }
}
impl PrefixVarint<5> for u32 {
    open spec fn enc(self) -> Seq<u8> { vu32(self) }
    open spec fn dec(s: Seq<u8>) -> Option<(u32, nat)> { du32(s) }
    fn encode_prefix_varint(self, buf: &mut [u8; 5]) -> usize {
        let r = prefix_varint::PrefixVarint::encode_prefix_varint(self, buf);
        proof { lemma_written(buf@, r as nat, self as u64, 5); }
        r
    }
    fn decode_prefix_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
        proof { lemma_means((*old(reader)).rest(), 5); }
        <u32 as prefix_varint::PrefixVarint<5>>::decode_prefix_varint(reader)
    }
}
impl PrefixVarint<9> for u64 {
    open spec fn enc(self) -> Seq<u8> { vu64(self) }
    open spec fn dec(s: Seq<u8>) -> Option<(u64, nat)> { du64(s) }
    fn encode_prefix_varint(self, buf: &mut [u8; 9]) -> usize {
        let r = prefix_varint::PrefixVarint::encode_prefix_varint(self, buf);
        proof { lemma_written(buf@, r as nat, self as u64, 9); }
        r
    }
    fn decode_prefix_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
        proof { lemma_means((*old(reader)).rest(), 9); }
        <u64 as prefix_varint::PrefixVarint<9>>::decode_prefix_varint(reader)
    }
}
}
/// The functions of zigzag.rs.
pub mod zigzag_code {
use super::*;
use super::zigzag::*;
use super::bits::*;
//@impl dlhn/src/zigzag.rs :: impl ZigZag<u64> for i64
//@inject
    open spec fn to(self) -> u64 { zigzag(self as int) as u64 }
    open spec fn from(v: u64) -> i64 { unzigzag(v as int) as i64 }
//@fn encode_zigzag
//@start
    proof { zigzag_64(); }
//@fn decode_zigzag
//@start
    proof { zigzag_64(); }
//@end
//@impl dlhn/src/zigzag.rs :: impl ZigZag<u32> for i32
//@inject
    open spec fn to(self) -> u32 { zigzag(self as int) as u32 }
    open spec fn from(v: u32) -> i32 { unzigzag(v as int) as i32 }
//@fn encode_zigzag
//@start
    proof { zigzag_32(); }
//@fn decode_zigzag
//@start
    proof { zigzag_32(); }
//@end
//@impl dlhn/src/zigzag.rs :: impl ZigZag<u16> for i16
//@inject
    open spec fn to(self) -> u16 { zigzag(self as int) as u16 }
    open spec fn from(v: u16) -> i16 { unzigzag(v as int) as i16 }
//@fn encode_zigzag
//@start
    proof { zigzag_16(); }
//@fn decode_zigzag
//@start
    proof { zigzag_16(); }
//@end
}
fn main() {}
}
