/// What the standard library documents.
pub mod std_spec {
use super::*;
use super::io_spec::*;
use super::varint::*;
use std::io::Read;
/// The i-th byte of v, from 0, the least significant.
pub open spec fn digit(v: nat, i: nat) -> nat {
    if i == 0 { v % 256 } else if i == 1 { v / 0x100 % 256 } else if i == 2 { v / 0x1_0000 % 256 } else if i == 3 { v / 0x100_0000 % 256 }
    else if i == 4 { v / 0x1_0000_0000 % 256 } else if i == 5 { v / 0x100_0000_0000 % 256 } else if i == 6 { v / 0x1_0000_0000_0000 % 256 }
    else { v / 0x100_0000_0000_0000 % 256 }
}
/// n bytes of s from a on, least significant first.
pub open spec fn number(s: Seq<u8>, a: int, n: nat) -> nat {
    if n == 0 { 0 } else if n == 1 { s[a] as nat } else if n == 2 { s[a] as nat + 0x100 * s[a + 1] as nat }
    else if n == 3 { s[a] as nat + 0x100 * s[a + 1] as nat + 0x1_0000 * s[a + 2] as nat }
    else if n == 4 { s[a] as nat + 0x100 * s[a + 1] as nat + 0x1_0000 * s[a + 2] as nat + 0x100_0000 * s[a + 3] as nat }
    else if n == 5 { s[a] as nat + 0x100 * s[a + 1] as nat + 0x1_0000 * s[a + 2] as nat + 0x100_0000 * s[a + 3] as nat + 0x1_0000_0000 * s[a + 4] as nat }
    else if n == 6 { s[a] as nat + 0x100 * s[a + 1] as nat + 0x1_0000 * s[a + 2] as nat + 0x100_0000 * s[a + 3] as nat + 0x1_0000_0000 * s[a + 4] as nat + 0x100_0000_0000 * s[a + 5] as nat }
    else if n == 7 { s[a] as nat + 0x100 * s[a + 1] as nat + 0x1_0000 * s[a + 2] as nat + 0x100_0000 * s[a + 3] as nat + 0x1_0000_0000 * s[a + 4] as nat + 0x100_0000_0000 * s[a + 5] as nat + 0x1_0000_0000_0000 * s[a + 6] as nat }
    else { s[a] as nat + 0x100 * s[a + 1] as nat + 0x1_0000 * s[a + 2] as nat + 0x100_0000 * s[a + 3] as nat + 0x1_0000_0000 * s[a + 4] as nat + 0x100_0000_0000 * s[a + 5] as nat + 0x1_0000_0000_0000 * s[a + 6] as nat + 0x100_0000_0000_0000 * s[a + 7] as nat }
}
pub trait LeBytes<const N: usize>: Sized {
    spec fn nat_(self) -> nat;
    fn le_bytes(self) -> (r: [u8; N])
        ensures forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == digit(self.nat_(), i as nat);
    fn of_le_bytes(b: [u8; N]) -> (r: Self)
        ensures r.nat_() == number(b@, 0, N as nat);
}
impl LeBytes<2> for u16 {
    open spec fn nat_(self) -> nat { self as nat }
    #[verifier::external_body]
    fn le_bytes(self) -> [u8; 2] { self.to_le_bytes() }
    #[verifier::external_body]
    fn of_le_bytes(b: [u8; 2]) -> u16 { u16::from_le_bytes(b) }
}
impl LeBytes<4> for u32 {
    open spec fn nat_(self) -> nat { self as nat }
    #[verifier::external_body]
    fn le_bytes(self) -> [u8; 4] { self.to_le_bytes() }
    #[verifier::external_body]
    fn of_le_bytes(b: [u8; 4]) -> u32 { u32::from_le_bytes(b) }
}
impl LeBytes<8> for u64 {
    open spec fn nat_(self) -> nat { self as nat }
    #[verifier::external_body]
    fn le_bytes(self) -> [u8; 8] { self.to_le_bytes() }
    #[verifier::external_body]
    fn of_le_bytes(b: [u8; 8]) -> u64 { u64::from_le_bytes(b) }
}

/// buf[1..].copy_from_slice(src)
#[verifier::external_body]
pub fn copy_to_tail<const N: usize>(buf: &mut [u8; N], src: &[u8])
    requires src@.len() == N - 1
    ensures final(buf)@ == seq![old(buf)@[0]] + src@
{ buf[1..].copy_from_slice(src) }
/// reader.read_exact(&mut buf[from..to])
#[verifier::external_body]
pub fn read_part<R: Read, const N: usize>(reader: &mut R, buf: &mut [u8; N], from: usize, to: usize) -> (r: std::io::Result<()>)
    requires from <= to <= N
    ensures
        r is Ok <==> to - from <= (*old(reader)).rest().len(),
        r is Ok ==> final(buf)@ == old(buf)@.take(from as int) + (*old(reader)).rest().take(to - from) + old(buf)@.skip(to as int)
            && (*final(reader)).rest() == (*old(reader)).rest().skip(to - from)
{ reader.read_exact(&mut buf[from..to]) }
}
/// Bit operations as arithmetic: what is used below of +, *, / for <<, >>, |, &.
pub mod bits {
use super::*;
use vstd::std_specs::bits::*;
pub proof fn lemma_zeros_16(v: u16)
    ensures
        v < 128 <==> u16_leading_zeros(v) >= 9,
        v < 16384 <==> u16_leading_zeros(v) >= 2,
{
    axiom_u16_leading_zeros(v);
    let n = u16_leading_zeros(v) as u16;
    assert(n < 16 ==> (v >> ((15 - n) as u16)) & 1u16 != 0);
    assert(n > 0 ==> v >> ((16 - n) as u16) == 0);
    assert(n < 16 ==> (v >> sub(15, n)) & 1 != 0);
    assert(n > 0 ==> v >> sub(16, n) == 0);
    assert(v < 128 <==> n >= 9) by (bit_vector)
        requires n <= 16, n < 16 ==> (v >> sub(15, n)) & 1 != 0, n > 0 ==> v >> sub(16, n) == 0, n == 16 <==> v == 0;
    assert(v < 16384 <==> n >= 2) by (bit_vector)
        requires n <= 16, n < 16 ==> (v >> sub(15, n)) & 1 != 0, n > 0 ==> v >> sub(16, n) == 0, n == 16 <==> v == 0;
}
pub proof fn lemma_zeros_32(v: u32)
    ensures
        v < 128 <==> u32_leading_zeros(v) >= 25,
        v < 16384 <==> u32_leading_zeros(v) >= 18,
        v < 2097152 <==> u32_leading_zeros(v) >= 11,
        v < 268435456 <==> u32_leading_zeros(v) >= 4,
{
    axiom_u32_leading_zeros(v);
    let n = u32_leading_zeros(v) as u32;
    assert(n < 32 ==> (v >> ((31 - n) as u32)) & 1u32 != 0);
    assert(n > 0 ==> v >> ((32 - n) as u32) == 0);
    assert(n < 32 ==> (v >> sub(31, n)) & 1 != 0);
    assert(n > 0 ==> v >> sub(32, n) == 0);
    assert(v < 128 <==> n >= 25) by (bit_vector)
        requires n <= 32, n < 32 ==> (v >> sub(31, n)) & 1 != 0, n > 0 ==> v >> sub(32, n) == 0, n == 32 <==> v == 0;
    assert(v < 16384 <==> n >= 18) by (bit_vector)
        requires n <= 32, n < 32 ==> (v >> sub(31, n)) & 1 != 0, n > 0 ==> v >> sub(32, n) == 0, n == 32 <==> v == 0;
    assert(v < 2097152 <==> n >= 11) by (bit_vector)
        requires n <= 32, n < 32 ==> (v >> sub(31, n)) & 1 != 0, n > 0 ==> v >> sub(32, n) == 0, n == 32 <==> v == 0;
    assert(v < 268435456 <==> n >= 4) by (bit_vector)
        requires n <= 32, n < 32 ==> (v >> sub(31, n)) & 1 != 0, n > 0 ==> v >> sub(32, n) == 0, n == 32 <==> v == 0;
}
pub proof fn lemma_zeros_64(v: u64)
    ensures
        v < 128 <==> u64_leading_zeros(v) >= 57,
        v < 16384 <==> u64_leading_zeros(v) >= 50,
        v < 2097152 <==> u64_leading_zeros(v) >= 43,
        v < 268435456 <==> u64_leading_zeros(v) >= 36,
        v < 34359738368 <==> u64_leading_zeros(v) >= 29,
        v < 4398046511104 <==> u64_leading_zeros(v) >= 22,
        v < 562949953421312 <==> u64_leading_zeros(v) >= 15,
        v < 72057594037927936 <==> u64_leading_zeros(v) >= 8,
{
    axiom_u64_leading_zeros(v);
    let n = u64_leading_zeros(v) as u64;
    assert(n < 64 ==> (v >> ((63 - n) as u64)) & 1u64 != 0);
    assert(n > 0 ==> v >> ((64 - n) as u64) == 0);
    assert(n < 64 ==> (v >> sub(63, n)) & 1 != 0);
    assert(n > 0 ==> v >> sub(64, n) == 0);
    assert(v < 128 <==> n >= 57) by (bit_vector)
        requires n <= 64, n < 64 ==> (v >> sub(63, n)) & 1 != 0, n > 0 ==> v >> sub(64, n) == 0, n == 64 <==> v == 0;
    assert(v < 16384 <==> n >= 50) by (bit_vector)
        requires n <= 64, n < 64 ==> (v >> sub(63, n)) & 1 != 0, n > 0 ==> v >> sub(64, n) == 0, n == 64 <==> v == 0;
    assert(v < 2097152 <==> n >= 43) by (bit_vector)
        requires n <= 64, n < 64 ==> (v >> sub(63, n)) & 1 != 0, n > 0 ==> v >> sub(64, n) == 0, n == 64 <==> v == 0;
    assert(v < 268435456 <==> n >= 36) by (bit_vector)
        requires n <= 64, n < 64 ==> (v >> sub(63, n)) & 1 != 0, n > 0 ==> v >> sub(64, n) == 0, n == 64 <==> v == 0;
    assert(v < 34359738368 <==> n >= 29) by (bit_vector)
        requires n <= 64, n < 64 ==> (v >> sub(63, n)) & 1 != 0, n > 0 ==> v >> sub(64, n) == 0, n == 64 <==> v == 0;
    assert(v < 4398046511104 <==> n >= 22) by (bit_vector)
        requires n <= 64, n < 64 ==> (v >> sub(63, n)) & 1 != 0, n > 0 ==> v >> sub(64, n) == 0, n == 64 <==> v == 0;
    assert(v < 562949953421312 <==> n >= 15) by (bit_vector)
        requires n <= 64, n < 64 ==> (v >> sub(63, n)) & 1 != 0, n > 0 ==> v >> sub(64, n) == 0, n == 64 <==> v == 0;
    assert(v < 72057594037927936 <==> n >= 8) by (bit_vector)
        requires n <= 64, n < 64 ==> (v >> sub(63, n)) & 1 != 0, n > 0 ==> v >> sub(64, n) == 0, n == 64 <==> v == 0;
}
pub proof fn all_ones()
    ensures forall|p: u8| #![trigger u8_leading_ones(p)] ones(p)
{
    assert forall|p: u8| #![trigger u8_leading_ones(p)] ones(p) by { lemma_ones_8(p); }
}
/// What the leading ones of a byte say of it.
pub open spec fn ones(p: u8) -> bool {
    &&& u8_leading_ones(p) <= 8
    &&& p < 128 <==> u8_leading_ones(p) < 1
    &&& p < 192 <==> u8_leading_ones(p) < 2
    &&& p < 224 <==> u8_leading_ones(p) < 3
    &&& p < 240 <==> u8_leading_ones(p) < 4
    &&& p < 248 <==> u8_leading_ones(p) < 5
    &&& p < 252 <==> u8_leading_ones(p) < 6
    &&& p < 254 <==> u8_leading_ones(p) < 7
    &&& p < 255 <==> u8_leading_ones(p) < 8
}
pub proof fn lemma_ones_8(p: u8)
    ensures ones(p)
{
    let q = !p;
    axiom_u8_leading_ones(p);
    axiom_u8_leading_zeros(q);
    let n = u8_leading_ones(p) as u8;
    assert(n == u8_leading_zeros(q));
    assert(n < 8 ==> (q >> ((7 - n) as u8)) & 1u8 != 0);
    assert(n > 0 ==> q >> ((8 - n) as u8) == 0);
    assert(n < 8 ==> (q >> sub(7, n)) & 1 != 0);
    assert(n > 0 ==> q >> sub(8, n) == 0);
    assert(p < 128 <==> n < 1) by (bit_vector)
        requires q == !p, n <= 8, n < 8 ==> (q >> sub(7, n)) & 1 != 0, n > 0 ==> q >> sub(8, n) == 0, n == 8 <==> q == 0;
    assert(p < 192 <==> n < 2) by (bit_vector)
        requires q == !p, n <= 8, n < 8 ==> (q >> sub(7, n)) & 1 != 0, n > 0 ==> q >> sub(8, n) == 0, n == 8 <==> q == 0;
    assert(p < 224 <==> n < 3) by (bit_vector)
        requires q == !p, n <= 8, n < 8 ==> (q >> sub(7, n)) & 1 != 0, n > 0 ==> q >> sub(8, n) == 0, n == 8 <==> q == 0;
    assert(p < 240 <==> n < 4) by (bit_vector)
        requires q == !p, n <= 8, n < 8 ==> (q >> sub(7, n)) & 1 != 0, n > 0 ==> q >> sub(8, n) == 0, n == 8 <==> q == 0;
    assert(p < 248 <==> n < 5) by (bit_vector)
        requires q == !p, n <= 8, n < 8 ==> (q >> sub(7, n)) & 1 != 0, n > 0 ==> q >> sub(8, n) == 0, n == 8 <==> q == 0;
    assert(p < 252 <==> n < 6) by (bit_vector)
        requires q == !p, n <= 8, n < 8 ==> (q >> sub(7, n)) & 1 != 0, n > 0 ==> q >> sub(8, n) == 0, n == 8 <==> q == 0;
    assert(p < 254 <==> n < 7) by (bit_vector)
        requires q == !p, n <= 8, n < 8 ==> (q >> sub(7, n)) & 1 != 0, n > 0 ==> q >> sub(8, n) == 0, n == 8 <==> q == 0;
    assert(p < 255 <==> n < 8) by (bit_vector)
        requires q == !p, n <= 8, n < 8 ==> (q >> sub(7, n)) & 1 != 0, n > 0 ==> q >> sub(8, n) == 0, n == 8 <==> q == 0;
}
/// What encoding does with bits.
pub proof fn parts_16()
    ensures
        forall|x: u16| #[trigger](x as u8) == x % 256,
        forall|x: u16| #[trigger](((x << 2) as u8) >> 2) == x % 64,
        forall|x: u16| x < 0x4000 ==> #[trigger](((x << 2) >> 8) as u8) == x / 0x40 % 256,
        forall|x: u16| #[trigger]((x >> 8) as u8) == x / 0x100 % 256,
{
    assert forall|x: u16| #[trigger](x as u8) == x % 256 by { assert((x as u8) == x % 256) by (bit_vector); }
    assert forall|x: u16| #[trigger](((x << 2) as u8) >> 2) == x % 64 by { assert((((x << 2) as u8) >> 2) == x % 64) by (bit_vector); }
    assert forall|x: u16| x < 0x4000 implies #[trigger](((x << 2) >> 8) as u8) == x / 0x40 % 256 by { assert(x < 0x4000 ==> (((x << 2) >> 8) as u8) == x / 0x40 % 256) by (bit_vector); }
    assert forall|x: u16| #[trigger]((x >> 8) as u8) == x / 0x100 % 256 by { assert(((x >> 8) as u8) == x / 0x100 % 256) by (bit_vector); }
}
pub proof fn facts_16()
    ensures
        forall|x: u16| #[trigger](x & 1) == x % 2,
        forall|x: u16| #[trigger](x & 3) == x % 4,
        forall|x: u16| #[trigger](x & 7) == x % 8,
        forall|x: u16| #[trigger](x & 15) == x % 16,
        forall|x: u16| #[trigger](x & 31) == x % 32,
        forall|x: u16| #[trigger](x & 63) == x % 64,
        forall|x: u16| #[trigger](x & 127) == x % 128,
        forall|x: u16| #[trigger](x & 255) == x % 256,
        forall|x: u16, y: u16| x < 0x8000 && y < 0x2 ==> #[trigger]((x << 1) | y) == x * 0x2 + y,
        forall|x: u16, y: u16| x < 0x8000 && y < 0x2 ==> #[trigger](y | (x << 1)) == x * 0x2 + y,
        forall|x: u16, y: u16| x < 0x4000 && y < 0x4 ==> #[trigger]((x << 2) | y) == x * 0x4 + y,
        forall|x: u16, y: u16| x < 0x4000 && y < 0x4 ==> #[trigger](y | (x << 2)) == x * 0x4 + y,
        forall|x: u16, y: u16| x < 0x2000 && y < 0x8 ==> #[trigger]((x << 3) | y) == x * 0x8 + y,
        forall|x: u16, y: u16| x < 0x2000 && y < 0x8 ==> #[trigger](y | (x << 3)) == x * 0x8 + y,
        forall|x: u16, y: u16| x < 0x1000 && y < 0x10 ==> #[trigger]((x << 4) | y) == x * 0x10 + y,
        forall|x: u16, y: u16| x < 0x1000 && y < 0x10 ==> #[trigger](y | (x << 4)) == x * 0x10 + y,
        forall|x: u16, y: u16| x < 0x800 && y < 0x20 ==> #[trigger]((x << 5) | y) == x * 0x20 + y,
        forall|x: u16, y: u16| x < 0x800 && y < 0x20 ==> #[trigger](y | (x << 5)) == x * 0x20 + y,
        forall|x: u16, y: u16| x < 0x400 && y < 0x40 ==> #[trigger]((x << 6) | y) == x * 0x40 + y,
        forall|x: u16, y: u16| x < 0x400 && y < 0x40 ==> #[trigger](y | (x << 6)) == x * 0x40 + y,
        forall|x: u16, y: u16| x < 0x100 && y < 0x100 ==> #[trigger]((x << 8) | y) == x * 0x100 + y,
        forall|x: u16, y: u16| x < 0x100 && y < 0x100 ==> #[trigger](y | (x << 8)) == x * 0x100 + y,
        forall|x: u16| #[trigger](x >> 8) == x / 256,
{
    assert forall|x: u16| #[trigger](x & 1) == x % 2 by { assert((x & 1) == x % 2) by (bit_vector); }
    assert forall|x: u16| #[trigger](x & 3) == x % 4 by { assert((x & 3) == x % 4) by (bit_vector); }
    assert forall|x: u16| #[trigger](x & 7) == x % 8 by { assert((x & 7) == x % 8) by (bit_vector); }
    assert forall|x: u16| #[trigger](x & 15) == x % 16 by { assert((x & 15) == x % 16) by (bit_vector); }
    assert forall|x: u16| #[trigger](x & 31) == x % 32 by { assert((x & 31) == x % 32) by (bit_vector); }
    assert forall|x: u16| #[trigger](x & 63) == x % 64 by { assert((x & 63) == x % 64) by (bit_vector); }
    assert forall|x: u16| #[trigger](x & 127) == x % 128 by { assert((x & 127) == x % 128) by (bit_vector); }
    assert forall|x: u16| #[trigger](x & 255) == x % 256 by { assert((x & 255) == x % 256) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x8000 && y < 0x2 implies #[trigger]((x << 1) | y) == x * 0x2 + y by { assert(x < 0x8000 && y < 0x2 ==> ((x << 1) | y) == x * 0x2 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x8000 && y < 0x2 implies #[trigger](y | (x << 1)) == x * 0x2 + y by { assert(x < 0x8000 && y < 0x2 ==> (y | (x << 1)) == x * 0x2 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x4000 && y < 0x4 implies #[trigger]((x << 2) | y) == x * 0x4 + y by { assert(x < 0x4000 && y < 0x4 ==> ((x << 2) | y) == x * 0x4 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x4000 && y < 0x4 implies #[trigger](y | (x << 2)) == x * 0x4 + y by { assert(x < 0x4000 && y < 0x4 ==> (y | (x << 2)) == x * 0x4 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x2000 && y < 0x8 implies #[trigger]((x << 3) | y) == x * 0x8 + y by { assert(x < 0x2000 && y < 0x8 ==> ((x << 3) | y) == x * 0x8 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x2000 && y < 0x8 implies #[trigger](y | (x << 3)) == x * 0x8 + y by { assert(x < 0x2000 && y < 0x8 ==> (y | (x << 3)) == x * 0x8 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x1000 && y < 0x10 implies #[trigger]((x << 4) | y) == x * 0x10 + y by { assert(x < 0x1000 && y < 0x10 ==> ((x << 4) | y) == x * 0x10 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x1000 && y < 0x10 implies #[trigger](y | (x << 4)) == x * 0x10 + y by { assert(x < 0x1000 && y < 0x10 ==> (y | (x << 4)) == x * 0x10 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x800 && y < 0x20 implies #[trigger]((x << 5) | y) == x * 0x20 + y by { assert(x < 0x800 && y < 0x20 ==> ((x << 5) | y) == x * 0x20 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x800 && y < 0x20 implies #[trigger](y | (x << 5)) == x * 0x20 + y by { assert(x < 0x800 && y < 0x20 ==> (y | (x << 5)) == x * 0x20 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x400 && y < 0x40 implies #[trigger]((x << 6) | y) == x * 0x40 + y by { assert(x < 0x400 && y < 0x40 ==> ((x << 6) | y) == x * 0x40 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x400 && y < 0x40 implies #[trigger](y | (x << 6)) == x * 0x40 + y by { assert(x < 0x400 && y < 0x40 ==> (y | (x << 6)) == x * 0x40 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x100 && y < 0x100 implies #[trigger]((x << 8) | y) == x * 0x100 + y by { assert(x < 0x100 && y < 0x100 ==> ((x << 8) | y) == x * 0x100 + y) by (bit_vector); }
    assert forall|x: u16, y: u16| x < 0x100 && y < 0x100 implies #[trigger](y | (x << 8)) == x * 0x100 + y by { assert(x < 0x100 && y < 0x100 ==> (y | (x << 8)) == x * 0x100 + y) by (bit_vector); }
    assert forall|x: u16| #[trigger](x >> 8) == x / 256 by { assert((x >> 8) == x / 256) by (bit_vector); }
}
/// What encoding does with bits.
pub proof fn parts_32()
    ensures
        forall|x: u32| #[trigger](x as u8) == x % 256,
        forall|x: u32| #[trigger](((x << 2) as u8) >> 2) == x % 64,
        forall|x: u32| x < 0x4000 ==> #[trigger](((x << 2) >> 8) as u8) == x / 0x40 % 256,
        forall|x: u32| #[trigger](((x << 3) as u8) >> 3) == x % 32,
        forall|x: u32| x < 0x200000 ==> #[trigger](((x << 3) >> 8) as u8) == x / 0x20 % 256,
        forall|x: u32| x < 0x200000 ==> #[trigger](((x << 3) >> 16) as u8) == x / 0x2000 % 256,
        forall|x: u32| #[trigger](((x << 4) as u8) >> 4) == x % 16,
        forall|x: u32| x < 0x10000000 ==> #[trigger](((x << 4) >> 8) as u8) == x / 0x10 % 256,
        forall|x: u32| x < 0x10000000 ==> #[trigger](((x << 4) >> 16) as u8) == x / 0x1000 % 256,
        forall|x: u32| x < 0x10000000 ==> #[trigger](((x << 4) >> 24) as u8) == x / 0x100000 % 256,
        forall|x: u32| #[trigger]((x >> 8) as u8) == x / 0x100 % 256,
        forall|x: u32| #[trigger]((x >> 16) as u8) == x / 0x10000 % 256,
        forall|x: u32| #[trigger]((x >> 24) as u8) == x / 0x1000000 % 256,
{
    assert forall|x: u32| #[trigger](x as u8) == x % 256 by { assert((x as u8) == x % 256) by (bit_vector); }
    assert forall|x: u32| #[trigger](((x << 2) as u8) >> 2) == x % 64 by { assert((((x << 2) as u8) >> 2) == x % 64) by (bit_vector); }
    assert forall|x: u32| x < 0x4000 implies #[trigger](((x << 2) >> 8) as u8) == x / 0x40 % 256 by { assert(x < 0x4000 ==> (((x << 2) >> 8) as u8) == x / 0x40 % 256) by (bit_vector); }
    assert forall|x: u32| #[trigger](((x << 3) as u8) >> 3) == x % 32 by { assert((((x << 3) as u8) >> 3) == x % 32) by (bit_vector); }
    assert forall|x: u32| x < 0x200000 implies #[trigger](((x << 3) >> 8) as u8) == x / 0x20 % 256 by { assert(x < 0x200000 ==> (((x << 3) >> 8) as u8) == x / 0x20 % 256) by (bit_vector); }
    assert forall|x: u32| x < 0x200000 implies #[trigger](((x << 3) >> 16) as u8) == x / 0x2000 % 256 by { assert(x < 0x200000 ==> (((x << 3) >> 16) as u8) == x / 0x2000 % 256) by (bit_vector); }
    assert forall|x: u32| #[trigger](((x << 4) as u8) >> 4) == x % 16 by { assert((((x << 4) as u8) >> 4) == x % 16) by (bit_vector); }
    assert forall|x: u32| x < 0x10000000 implies #[trigger](((x << 4) >> 8) as u8) == x / 0x10 % 256 by { assert(x < 0x10000000 ==> (((x << 4) >> 8) as u8) == x / 0x10 % 256) by (bit_vector); }
    assert forall|x: u32| x < 0x10000000 implies #[trigger](((x << 4) >> 16) as u8) == x / 0x1000 % 256 by { assert(x < 0x10000000 ==> (((x << 4) >> 16) as u8) == x / 0x1000 % 256) by (bit_vector); }
    assert forall|x: u32| x < 0x10000000 implies #[trigger](((x << 4) >> 24) as u8) == x / 0x100000 % 256 by { assert(x < 0x10000000 ==> (((x << 4) >> 24) as u8) == x / 0x100000 % 256) by (bit_vector); }
    assert forall|x: u32| #[trigger]((x >> 8) as u8) == x / 0x100 % 256 by { assert(((x >> 8) as u8) == x / 0x100 % 256) by (bit_vector); }
    assert forall|x: u32| #[trigger]((x >> 16) as u8) == x / 0x10000 % 256 by { assert(((x >> 16) as u8) == x / 0x10000 % 256) by (bit_vector); }
    assert forall|x: u32| #[trigger]((x >> 24) as u8) == x / 0x1000000 % 256 by { assert(((x >> 24) as u8) == x / 0x1000000 % 256) by (bit_vector); }
}
pub proof fn facts_32()
    ensures
        forall|x: u32| #[trigger](x & 1) == x % 2,
        forall|x: u32| #[trigger](x & 3) == x % 4,
        forall|x: u32| #[trigger](x & 7) == x % 8,
        forall|x: u32| #[trigger](x & 15) == x % 16,
        forall|x: u32| #[trigger](x & 31) == x % 32,
        forall|x: u32| #[trigger](x & 63) == x % 64,
        forall|x: u32| #[trigger](x & 127) == x % 128,
        forall|x: u32| #[trigger](x & 255) == x % 256,
        forall|x: u32, y: u32| x < 0x80000000 && y < 0x2 ==> #[trigger]((x << 1) | y) == x * 0x2 + y,
        forall|x: u32, y: u32| x < 0x80000000 && y < 0x2 ==> #[trigger](y | (x << 1)) == x * 0x2 + y,
        forall|x: u32, y: u32| x < 0x40000000 && y < 0x4 ==> #[trigger]((x << 2) | y) == x * 0x4 + y,
        forall|x: u32, y: u32| x < 0x40000000 && y < 0x4 ==> #[trigger](y | (x << 2)) == x * 0x4 + y,
        forall|x: u32, y: u32| x < 0x20000000 && y < 0x8 ==> #[trigger]((x << 3) | y) == x * 0x8 + y,
        forall|x: u32, y: u32| x < 0x20000000 && y < 0x8 ==> #[trigger](y | (x << 3)) == x * 0x8 + y,
        forall|x: u32, y: u32| x < 0x10000000 && y < 0x10 ==> #[trigger]((x << 4) | y) == x * 0x10 + y,
        forall|x: u32, y: u32| x < 0x10000000 && y < 0x10 ==> #[trigger](y | (x << 4)) == x * 0x10 + y,
        forall|x: u32, y: u32| x < 0x8000000 && y < 0x20 ==> #[trigger]((x << 5) | y) == x * 0x20 + y,
        forall|x: u32, y: u32| x < 0x8000000 && y < 0x20 ==> #[trigger](y | (x << 5)) == x * 0x20 + y,
        forall|x: u32, y: u32| x < 0x4000000 && y < 0x40 ==> #[trigger]((x << 6) | y) == x * 0x40 + y,
        forall|x: u32, y: u32| x < 0x4000000 && y < 0x40 ==> #[trigger](y | (x << 6)) == x * 0x40 + y,
        forall|x: u32, y: u32| x < 0x1000000 && y < 0x100 ==> #[trigger]((x << 8) | y) == x * 0x100 + y,
        forall|x: u32, y: u32| x < 0x1000000 && y < 0x100 ==> #[trigger](y | (x << 8)) == x * 0x100 + y,
        forall|x: u32, y: u32| x < 0x10000 && y < 0x10000 ==> #[trigger]((x << 16) | y) == x * 0x10000 + y,
        forall|x: u32, y: u32| x < 0x10000 && y < 0x10000 ==> #[trigger](y | (x << 16)) == x * 0x10000 + y,
        forall|x: u32, y: u32| x < 0x100 && y < 0x1000000 ==> #[trigger]((x << 24) | y) == x * 0x1000000 + y,
        forall|x: u32, y: u32| x < 0x100 && y < 0x1000000 ==> #[trigger](y | (x << 24)) == x * 0x1000000 + y,
        forall|x: u32| #[trigger](x >> 8) == x / 256,
{
    assert forall|x: u32| #[trigger](x & 1) == x % 2 by { assert((x & 1) == x % 2) by (bit_vector); }
    assert forall|x: u32| #[trigger](x & 3) == x % 4 by { assert((x & 3) == x % 4) by (bit_vector); }
    assert forall|x: u32| #[trigger](x & 7) == x % 8 by { assert((x & 7) == x % 8) by (bit_vector); }
    assert forall|x: u32| #[trigger](x & 15) == x % 16 by { assert((x & 15) == x % 16) by (bit_vector); }
    assert forall|x: u32| #[trigger](x & 31) == x % 32 by { assert((x & 31) == x % 32) by (bit_vector); }
    assert forall|x: u32| #[trigger](x & 63) == x % 64 by { assert((x & 63) == x % 64) by (bit_vector); }
    assert forall|x: u32| #[trigger](x & 127) == x % 128 by { assert((x & 127) == x % 128) by (bit_vector); }
    assert forall|x: u32| #[trigger](x & 255) == x % 256 by { assert((x & 255) == x % 256) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x80000000 && y < 0x2 implies #[trigger]((x << 1) | y) == x * 0x2 + y by { assert(x < 0x80000000 && y < 0x2 ==> ((x << 1) | y) == x * 0x2 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x80000000 && y < 0x2 implies #[trigger](y | (x << 1)) == x * 0x2 + y by { assert(x < 0x80000000 && y < 0x2 ==> (y | (x << 1)) == x * 0x2 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x40000000 && y < 0x4 implies #[trigger]((x << 2) | y) == x * 0x4 + y by { assert(x < 0x40000000 && y < 0x4 ==> ((x << 2) | y) == x * 0x4 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x40000000 && y < 0x4 implies #[trigger](y | (x << 2)) == x * 0x4 + y by { assert(x < 0x40000000 && y < 0x4 ==> (y | (x << 2)) == x * 0x4 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x20000000 && y < 0x8 implies #[trigger]((x << 3) | y) == x * 0x8 + y by { assert(x < 0x20000000 && y < 0x8 ==> ((x << 3) | y) == x * 0x8 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x20000000 && y < 0x8 implies #[trigger](y | (x << 3)) == x * 0x8 + y by { assert(x < 0x20000000 && y < 0x8 ==> (y | (x << 3)) == x * 0x8 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x10000000 && y < 0x10 implies #[trigger]((x << 4) | y) == x * 0x10 + y by { assert(x < 0x10000000 && y < 0x10 ==> ((x << 4) | y) == x * 0x10 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x10000000 && y < 0x10 implies #[trigger](y | (x << 4)) == x * 0x10 + y by { assert(x < 0x10000000 && y < 0x10 ==> (y | (x << 4)) == x * 0x10 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x8000000 && y < 0x20 implies #[trigger]((x << 5) | y) == x * 0x20 + y by { assert(x < 0x8000000 && y < 0x20 ==> ((x << 5) | y) == x * 0x20 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x8000000 && y < 0x20 implies #[trigger](y | (x << 5)) == x * 0x20 + y by { assert(x < 0x8000000 && y < 0x20 ==> (y | (x << 5)) == x * 0x20 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x4000000 && y < 0x40 implies #[trigger]((x << 6) | y) == x * 0x40 + y by { assert(x < 0x4000000 && y < 0x40 ==> ((x << 6) | y) == x * 0x40 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x4000000 && y < 0x40 implies #[trigger](y | (x << 6)) == x * 0x40 + y by { assert(x < 0x4000000 && y < 0x40 ==> (y | (x << 6)) == x * 0x40 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x1000000 && y < 0x100 implies #[trigger]((x << 8) | y) == x * 0x100 + y by { assert(x < 0x1000000 && y < 0x100 ==> ((x << 8) | y) == x * 0x100 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x1000000 && y < 0x100 implies #[trigger](y | (x << 8)) == x * 0x100 + y by { assert(x < 0x1000000 && y < 0x100 ==> (y | (x << 8)) == x * 0x100 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x10000 && y < 0x10000 implies #[trigger]((x << 16) | y) == x * 0x10000 + y by { assert(x < 0x10000 && y < 0x10000 ==> ((x << 16) | y) == x * 0x10000 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x10000 && y < 0x10000 implies #[trigger](y | (x << 16)) == x * 0x10000 + y by { assert(x < 0x10000 && y < 0x10000 ==> (y | (x << 16)) == x * 0x10000 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x100 && y < 0x1000000 implies #[trigger]((x << 24) | y) == x * 0x1000000 + y by { assert(x < 0x100 && y < 0x1000000 ==> ((x << 24) | y) == x * 0x1000000 + y) by (bit_vector); }
    assert forall|x: u32, y: u32| x < 0x100 && y < 0x1000000 implies #[trigger](y | (x << 24)) == x * 0x1000000 + y by { assert(x < 0x100 && y < 0x1000000 ==> (y | (x << 24)) == x * 0x1000000 + y) by (bit_vector); }
    assert forall|x: u32| #[trigger](x >> 8) == x / 256 by { assert((x >> 8) == x / 256) by (bit_vector); }
}
/// What encoding does with bits.
pub proof fn parts_64()
    ensures
        forall|x: u64| #[trigger](x as u8) == x % 256,
        forall|x: u64| #[trigger](((x << 2) as u8) >> 2) == x % 64,
        forall|x: u64| x < 0x4000 ==> #[trigger](((x << 2) >> 8) as u8) == x / 0x40 % 256,
        forall|x: u64| #[trigger](((x << 3) as u8) >> 3) == x % 32,
        forall|x: u64| x < 0x200000 ==> #[trigger](((x << 3) >> 8) as u8) == x / 0x20 % 256,
        forall|x: u64| x < 0x200000 ==> #[trigger](((x << 3) >> 16) as u8) == x / 0x2000 % 256,
        forall|x: u64| #[trigger](((x << 4) as u8) >> 4) == x % 16,
        forall|x: u64| x < 0x10000000 ==> #[trigger](((x << 4) >> 8) as u8) == x / 0x10 % 256,
        forall|x: u64| x < 0x10000000 ==> #[trigger](((x << 4) >> 16) as u8) == x / 0x1000 % 256,
        forall|x: u64| x < 0x10000000 ==> #[trigger](((x << 4) >> 24) as u8) == x / 0x100000 % 256,
        forall|x: u64| #[trigger](((x << 5) as u8) >> 5) == x % 8,
        forall|x: u64| x < 0x800000000 ==> #[trigger](((x << 5) >> 8) as u8) == x / 0x8 % 256,
        forall|x: u64| x < 0x800000000 ==> #[trigger](((x << 5) >> 16) as u8) == x / 0x800 % 256,
        forall|x: u64| x < 0x800000000 ==> #[trigger](((x << 5) >> 24) as u8) == x / 0x80000 % 256,
        forall|x: u64| x < 0x800000000 ==> #[trigger](((x << 5) >> 32) as u8) == x / 0x8000000 % 256,
        forall|x: u64| #[trigger](((x << 6) as u8) >> 6) == x % 4,
        forall|x: u64| x < 0x40000000000 ==> #[trigger](((x << 6) >> 8) as u8) == x / 0x4 % 256,
        forall|x: u64| x < 0x40000000000 ==> #[trigger](((x << 6) >> 16) as u8) == x / 0x400 % 256,
        forall|x: u64| x < 0x40000000000 ==> #[trigger](((x << 6) >> 24) as u8) == x / 0x40000 % 256,
        forall|x: u64| x < 0x40000000000 ==> #[trigger](((x << 6) >> 32) as u8) == x / 0x4000000 % 256,
        forall|x: u64| x < 0x40000000000 ==> #[trigger](((x << 6) >> 40) as u8) == x / 0x400000000 % 256,
        forall|x: u64| #[trigger](((x << 7) as u8) >> 7) == x % 2,
        forall|x: u64| x < 0x2000000000000 ==> #[trigger](((x << 7) >> 8) as u8) == x / 0x2 % 256,
        forall|x: u64| x < 0x2000000000000 ==> #[trigger](((x << 7) >> 16) as u8) == x / 0x200 % 256,
        forall|x: u64| x < 0x2000000000000 ==> #[trigger](((x << 7) >> 24) as u8) == x / 0x20000 % 256,
        forall|x: u64| x < 0x2000000000000 ==> #[trigger](((x << 7) >> 32) as u8) == x / 0x2000000 % 256,
        forall|x: u64| x < 0x2000000000000 ==> #[trigger](((x << 7) >> 40) as u8) == x / 0x200000000 % 256,
        forall|x: u64| x < 0x2000000000000 ==> #[trigger](((x << 7) >> 48) as u8) == x / 0x20000000000 % 256,
        forall|x: u64| #[trigger]((x >> 8) as u8) == x / 0x100 % 256,
        forall|x: u64| #[trigger]((x >> 16) as u8) == x / 0x10000 % 256,
        forall|x: u64| #[trigger]((x >> 24) as u8) == x / 0x1000000 % 256,
        forall|x: u64| #[trigger]((x >> 32) as u8) == x / 0x100000000 % 256,
        forall|x: u64| #[trigger]((x >> 40) as u8) == x / 0x10000000000 % 256,
        forall|x: u64| #[trigger]((x >> 48) as u8) == x / 0x1000000000000 % 256,
        forall|x: u64| #[trigger]((x >> 56) as u8) == x / 0x100000000000000 % 256,
{
    assert forall|x: u64| #[trigger](x as u8) == x % 256 by { assert((x as u8) == x % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger](((x << 2) as u8) >> 2) == x % 64 by { assert((((x << 2) as u8) >> 2) == x % 64) by (bit_vector); }
    assert forall|x: u64| x < 0x4000 implies #[trigger](((x << 2) >> 8) as u8) == x / 0x40 % 256 by { assert(x < 0x4000 ==> (((x << 2) >> 8) as u8) == x / 0x40 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger](((x << 3) as u8) >> 3) == x % 32 by { assert((((x << 3) as u8) >> 3) == x % 32) by (bit_vector); }
    assert forall|x: u64| x < 0x200000 implies #[trigger](((x << 3) >> 8) as u8) == x / 0x20 % 256 by { assert(x < 0x200000 ==> (((x << 3) >> 8) as u8) == x / 0x20 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x200000 implies #[trigger](((x << 3) >> 16) as u8) == x / 0x2000 % 256 by { assert(x < 0x200000 ==> (((x << 3) >> 16) as u8) == x / 0x2000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger](((x << 4) as u8) >> 4) == x % 16 by { assert((((x << 4) as u8) >> 4) == x % 16) by (bit_vector); }
    assert forall|x: u64| x < 0x10000000 implies #[trigger](((x << 4) >> 8) as u8) == x / 0x10 % 256 by { assert(x < 0x10000000 ==> (((x << 4) >> 8) as u8) == x / 0x10 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x10000000 implies #[trigger](((x << 4) >> 16) as u8) == x / 0x1000 % 256 by { assert(x < 0x10000000 ==> (((x << 4) >> 16) as u8) == x / 0x1000 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x10000000 implies #[trigger](((x << 4) >> 24) as u8) == x / 0x100000 % 256 by { assert(x < 0x10000000 ==> (((x << 4) >> 24) as u8) == x / 0x100000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger](((x << 5) as u8) >> 5) == x % 8 by { assert((((x << 5) as u8) >> 5) == x % 8) by (bit_vector); }
    assert forall|x: u64| x < 0x800000000 implies #[trigger](((x << 5) >> 8) as u8) == x / 0x8 % 256 by { assert(x < 0x800000000 ==> (((x << 5) >> 8) as u8) == x / 0x8 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x800000000 implies #[trigger](((x << 5) >> 16) as u8) == x / 0x800 % 256 by { assert(x < 0x800000000 ==> (((x << 5) >> 16) as u8) == x / 0x800 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x800000000 implies #[trigger](((x << 5) >> 24) as u8) == x / 0x80000 % 256 by { assert(x < 0x800000000 ==> (((x << 5) >> 24) as u8) == x / 0x80000 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x800000000 implies #[trigger](((x << 5) >> 32) as u8) == x / 0x8000000 % 256 by { assert(x < 0x800000000 ==> (((x << 5) >> 32) as u8) == x / 0x8000000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger](((x << 6) as u8) >> 6) == x % 4 by { assert((((x << 6) as u8) >> 6) == x % 4) by (bit_vector); }
    assert forall|x: u64| x < 0x40000000000 implies #[trigger](((x << 6) >> 8) as u8) == x / 0x4 % 256 by { assert(x < 0x40000000000 ==> (((x << 6) >> 8) as u8) == x / 0x4 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x40000000000 implies #[trigger](((x << 6) >> 16) as u8) == x / 0x400 % 256 by { assert(x < 0x40000000000 ==> (((x << 6) >> 16) as u8) == x / 0x400 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x40000000000 implies #[trigger](((x << 6) >> 24) as u8) == x / 0x40000 % 256 by { assert(x < 0x40000000000 ==> (((x << 6) >> 24) as u8) == x / 0x40000 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x40000000000 implies #[trigger](((x << 6) >> 32) as u8) == x / 0x4000000 % 256 by { assert(x < 0x40000000000 ==> (((x << 6) >> 32) as u8) == x / 0x4000000 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x40000000000 implies #[trigger](((x << 6) >> 40) as u8) == x / 0x400000000 % 256 by { assert(x < 0x40000000000 ==> (((x << 6) >> 40) as u8) == x / 0x400000000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger](((x << 7) as u8) >> 7) == x % 2 by { assert((((x << 7) as u8) >> 7) == x % 2) by (bit_vector); }
    assert forall|x: u64| x < 0x2000000000000 implies #[trigger](((x << 7) >> 8) as u8) == x / 0x2 % 256 by { assert(x < 0x2000000000000 ==> (((x << 7) >> 8) as u8) == x / 0x2 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x2000000000000 implies #[trigger](((x << 7) >> 16) as u8) == x / 0x200 % 256 by { assert(x < 0x2000000000000 ==> (((x << 7) >> 16) as u8) == x / 0x200 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x2000000000000 implies #[trigger](((x << 7) >> 24) as u8) == x / 0x20000 % 256 by { assert(x < 0x2000000000000 ==> (((x << 7) >> 24) as u8) == x / 0x20000 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x2000000000000 implies #[trigger](((x << 7) >> 32) as u8) == x / 0x2000000 % 256 by { assert(x < 0x2000000000000 ==> (((x << 7) >> 32) as u8) == x / 0x2000000 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x2000000000000 implies #[trigger](((x << 7) >> 40) as u8) == x / 0x200000000 % 256 by { assert(x < 0x2000000000000 ==> (((x << 7) >> 40) as u8) == x / 0x200000000 % 256) by (bit_vector); }
    assert forall|x: u64| x < 0x2000000000000 implies #[trigger](((x << 7) >> 48) as u8) == x / 0x20000000000 % 256 by { assert(x < 0x2000000000000 ==> (((x << 7) >> 48) as u8) == x / 0x20000000000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger]((x >> 8) as u8) == x / 0x100 % 256 by { assert(((x >> 8) as u8) == x / 0x100 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger]((x >> 16) as u8) == x / 0x10000 % 256 by { assert(((x >> 16) as u8) == x / 0x10000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger]((x >> 24) as u8) == x / 0x1000000 % 256 by { assert(((x >> 24) as u8) == x / 0x1000000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger]((x >> 32) as u8) == x / 0x100000000 % 256 by { assert(((x >> 32) as u8) == x / 0x100000000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger]((x >> 40) as u8) == x / 0x10000000000 % 256 by { assert(((x >> 40) as u8) == x / 0x10000000000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger]((x >> 48) as u8) == x / 0x1000000000000 % 256 by { assert(((x >> 48) as u8) == x / 0x1000000000000 % 256) by (bit_vector); }
    assert forall|x: u64| #[trigger]((x >> 56) as u8) == x / 0x100000000000000 % 256 by { assert(((x >> 56) as u8) == x / 0x100000000000000 % 256) by (bit_vector); }
}
pub proof fn facts_64()
    ensures
        forall|x: u64| #[trigger](x & 1) == x % 2,
        forall|x: u64| #[trigger](x & 3) == x % 4,
        forall|x: u64| #[trigger](x & 7) == x % 8,
        forall|x: u64| #[trigger](x & 15) == x % 16,
        forall|x: u64| #[trigger](x & 31) == x % 32,
        forall|x: u64| #[trigger](x & 63) == x % 64,
        forall|x: u64| #[trigger](x & 127) == x % 128,
        forall|x: u64| #[trigger](x & 255) == x % 256,
        forall|x: u64, y: u64| x < 0x8000000000000000 && y < 0x2 ==> #[trigger]((x << 1) | y) == x * 0x2 + y,
        forall|x: u64, y: u64| x < 0x8000000000000000 && y < 0x2 ==> #[trigger](y | (x << 1)) == x * 0x2 + y,
        forall|x: u64, y: u64| x < 0x4000000000000000 && y < 0x4 ==> #[trigger]((x << 2) | y) == x * 0x4 + y,
        forall|x: u64, y: u64| x < 0x4000000000000000 && y < 0x4 ==> #[trigger](y | (x << 2)) == x * 0x4 + y,
        forall|x: u64, y: u64| x < 0x2000000000000000 && y < 0x8 ==> #[trigger]((x << 3) | y) == x * 0x8 + y,
        forall|x: u64, y: u64| x < 0x2000000000000000 && y < 0x8 ==> #[trigger](y | (x << 3)) == x * 0x8 + y,
        forall|x: u64, y: u64| x < 0x1000000000000000 && y < 0x10 ==> #[trigger]((x << 4) | y) == x * 0x10 + y,
        forall|x: u64, y: u64| x < 0x1000000000000000 && y < 0x10 ==> #[trigger](y | (x << 4)) == x * 0x10 + y,
        forall|x: u64, y: u64| x < 0x800000000000000 && y < 0x20 ==> #[trigger]((x << 5) | y) == x * 0x20 + y,
        forall|x: u64, y: u64| x < 0x800000000000000 && y < 0x20 ==> #[trigger](y | (x << 5)) == x * 0x20 + y,
        forall|x: u64, y: u64| x < 0x400000000000000 && y < 0x40 ==> #[trigger]((x << 6) | y) == x * 0x40 + y,
        forall|x: u64, y: u64| x < 0x400000000000000 && y < 0x40 ==> #[trigger](y | (x << 6)) == x * 0x40 + y,
        forall|x: u64, y: u64| x < 0x100000000000000 && y < 0x100 ==> #[trigger]((x << 8) | y) == x * 0x100 + y,
        forall|x: u64, y: u64| x < 0x100000000000000 && y < 0x100 ==> #[trigger](y | (x << 8)) == x * 0x100 + y,
        forall|x: u64, y: u64| x < 0x1000000000000 && y < 0x10000 ==> #[trigger]((x << 16) | y) == x * 0x10000 + y,
        forall|x: u64, y: u64| x < 0x1000000000000 && y < 0x10000 ==> #[trigger](y | (x << 16)) == x * 0x10000 + y,
        forall|x: u64, y: u64| x < 0x10000000000 && y < 0x1000000 ==> #[trigger]((x << 24) | y) == x * 0x1000000 + y,
        forall|x: u64, y: u64| x < 0x10000000000 && y < 0x1000000 ==> #[trigger](y | (x << 24)) == x * 0x1000000 + y,
        forall|x: u64, y: u64| x < 0x100000000 && y < 0x100000000 ==> #[trigger]((x << 32) | y) == x * 0x100000000 + y,
        forall|x: u64, y: u64| x < 0x100000000 && y < 0x100000000 ==> #[trigger](y | (x << 32)) == x * 0x100000000 + y,
        forall|x: u64, y: u64| x < 0x1000000 && y < 0x10000000000 ==> #[trigger]((x << 40) | y) == x * 0x10000000000 + y,
        forall|x: u64, y: u64| x < 0x1000000 && y < 0x10000000000 ==> #[trigger](y | (x << 40)) == x * 0x10000000000 + y,
        forall|x: u64, y: u64| x < 0x10000 && y < 0x1000000000000 ==> #[trigger]((x << 48) | y) == x * 0x1000000000000 + y,
        forall|x: u64, y: u64| x < 0x10000 && y < 0x1000000000000 ==> #[trigger](y | (x << 48)) == x * 0x1000000000000 + y,
        forall|x: u64| #[trigger](x >> 8) == x / 256,
{
    assert forall|x: u64| #[trigger](x & 1) == x % 2 by { assert((x & 1) == x % 2) by (bit_vector); }
    assert forall|x: u64| #[trigger](x & 3) == x % 4 by { assert((x & 3) == x % 4) by (bit_vector); }
    assert forall|x: u64| #[trigger](x & 7) == x % 8 by { assert((x & 7) == x % 8) by (bit_vector); }
    assert forall|x: u64| #[trigger](x & 15) == x % 16 by { assert((x & 15) == x % 16) by (bit_vector); }
    assert forall|x: u64| #[trigger](x & 31) == x % 32 by { assert((x & 31) == x % 32) by (bit_vector); }
    assert forall|x: u64| #[trigger](x & 63) == x % 64 by { assert((x & 63) == x % 64) by (bit_vector); }
    assert forall|x: u64| #[trigger](x & 127) == x % 128 by { assert((x & 127) == x % 128) by (bit_vector); }
    assert forall|x: u64| #[trigger](x & 255) == x % 256 by { assert((x & 255) == x % 256) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x8000000000000000 && y < 0x2 implies #[trigger]((x << 1) | y) == x * 0x2 + y by { assert(x < 0x8000000000000000 && y < 0x2 ==> ((x << 1) | y) == x * 0x2 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x8000000000000000 && y < 0x2 implies #[trigger](y | (x << 1)) == x * 0x2 + y by { assert(x < 0x8000000000000000 && y < 0x2 ==> (y | (x << 1)) == x * 0x2 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x4000000000000000 && y < 0x4 implies #[trigger]((x << 2) | y) == x * 0x4 + y by { assert(x < 0x4000000000000000 && y < 0x4 ==> ((x << 2) | y) == x * 0x4 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x4000000000000000 && y < 0x4 implies #[trigger](y | (x << 2)) == x * 0x4 + y by { assert(x < 0x4000000000000000 && y < 0x4 ==> (y | (x << 2)) == x * 0x4 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x2000000000000000 && y < 0x8 implies #[trigger]((x << 3) | y) == x * 0x8 + y by { assert(x < 0x2000000000000000 && y < 0x8 ==> ((x << 3) | y) == x * 0x8 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x2000000000000000 && y < 0x8 implies #[trigger](y | (x << 3)) == x * 0x8 + y by { assert(x < 0x2000000000000000 && y < 0x8 ==> (y | (x << 3)) == x * 0x8 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x1000000000000000 && y < 0x10 implies #[trigger]((x << 4) | y) == x * 0x10 + y by { assert(x < 0x1000000000000000 && y < 0x10 ==> ((x << 4) | y) == x * 0x10 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x1000000000000000 && y < 0x10 implies #[trigger](y | (x << 4)) == x * 0x10 + y by { assert(x < 0x1000000000000000 && y < 0x10 ==> (y | (x << 4)) == x * 0x10 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x800000000000000 && y < 0x20 implies #[trigger]((x << 5) | y) == x * 0x20 + y by { assert(x < 0x800000000000000 && y < 0x20 ==> ((x << 5) | y) == x * 0x20 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x800000000000000 && y < 0x20 implies #[trigger](y | (x << 5)) == x * 0x20 + y by { assert(x < 0x800000000000000 && y < 0x20 ==> (y | (x << 5)) == x * 0x20 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x400000000000000 && y < 0x40 implies #[trigger]((x << 6) | y) == x * 0x40 + y by { assert(x < 0x400000000000000 && y < 0x40 ==> ((x << 6) | y) == x * 0x40 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x400000000000000 && y < 0x40 implies #[trigger](y | (x << 6)) == x * 0x40 + y by { assert(x < 0x400000000000000 && y < 0x40 ==> (y | (x << 6)) == x * 0x40 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x100000000000000 && y < 0x100 implies #[trigger]((x << 8) | y) == x * 0x100 + y by { assert(x < 0x100000000000000 && y < 0x100 ==> ((x << 8) | y) == x * 0x100 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x100000000000000 && y < 0x100 implies #[trigger](y | (x << 8)) == x * 0x100 + y by { assert(x < 0x100000000000000 && y < 0x100 ==> (y | (x << 8)) == x * 0x100 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x1000000000000 && y < 0x10000 implies #[trigger]((x << 16) | y) == x * 0x10000 + y by { assert(x < 0x1000000000000 && y < 0x10000 ==> ((x << 16) | y) == x * 0x10000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x1000000000000 && y < 0x10000 implies #[trigger](y | (x << 16)) == x * 0x10000 + y by { assert(x < 0x1000000000000 && y < 0x10000 ==> (y | (x << 16)) == x * 0x10000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x10000000000 && y < 0x1000000 implies #[trigger]((x << 24) | y) == x * 0x1000000 + y by { assert(x < 0x10000000000 && y < 0x1000000 ==> ((x << 24) | y) == x * 0x1000000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x10000000000 && y < 0x1000000 implies #[trigger](y | (x << 24)) == x * 0x1000000 + y by { assert(x < 0x10000000000 && y < 0x1000000 ==> (y | (x << 24)) == x * 0x1000000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x100000000 && y < 0x100000000 implies #[trigger]((x << 32) | y) == x * 0x100000000 + y by { assert(x < 0x100000000 && y < 0x100000000 ==> ((x << 32) | y) == x * 0x100000000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x100000000 && y < 0x100000000 implies #[trigger](y | (x << 32)) == x * 0x100000000 + y by { assert(x < 0x100000000 && y < 0x100000000 ==> (y | (x << 32)) == x * 0x100000000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x1000000 && y < 0x10000000000 implies #[trigger]((x << 40) | y) == x * 0x10000000000 + y by { assert(x < 0x1000000 && y < 0x10000000000 ==> ((x << 40) | y) == x * 0x10000000000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x1000000 && y < 0x10000000000 implies #[trigger](y | (x << 40)) == x * 0x10000000000 + y by { assert(x < 0x1000000 && y < 0x10000000000 ==> (y | (x << 40)) == x * 0x10000000000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x10000 && y < 0x1000000000000 implies #[trigger]((x << 48) | y) == x * 0x1000000000000 + y by { assert(x < 0x10000 && y < 0x1000000000000 ==> ((x << 48) | y) == x * 0x1000000000000 + y) by (bit_vector); }
    assert forall|x: u64, y: u64| x < 0x10000 && y < 0x1000000000000 implies #[trigger](y | (x << 48)) == x * 0x1000000000000 + y by { assert(x < 0x10000 && y < 0x1000000000000 ==> (y | (x << 48)) == x * 0x1000000000000 + y) by (bit_vector); }
    assert forall|x: u64| #[trigger](x >> 8) == x / 256 by { assert((x >> 8) == x / 256) by (bit_vector); }
}
pub proof fn facts_8()
    ensures
        forall|x: u8| #[trigger](x >> 1) == x / 2,
        forall|x: u8| x < 128 ==> #[trigger](x | 128) == x + 128,
        forall|x: u8| x < 128 ==> #[trigger](128 | x) == x + 128,
        forall|x: u8| #[trigger](x >> 2) == x / 4,
        forall|x: u8| x < 64 ==> #[trigger](x | 192) == x + 192,
        forall|x: u8| x < 64 ==> #[trigger](192 | x) == x + 192,
        forall|x: u8| #[trigger](x >> 3) == x / 8,
        forall|x: u8| x < 32 ==> #[trigger](x | 224) == x + 224,
        forall|x: u8| x < 32 ==> #[trigger](224 | x) == x + 224,
        forall|x: u8| #[trigger](x >> 4) == x / 16,
        forall|x: u8| x < 16 ==> #[trigger](x | 240) == x + 240,
        forall|x: u8| x < 16 ==> #[trigger](240 | x) == x + 240,
        forall|x: u8| #[trigger](x >> 5) == x / 32,
        forall|x: u8| x < 8 ==> #[trigger](x | 248) == x + 248,
        forall|x: u8| x < 8 ==> #[trigger](248 | x) == x + 248,
        forall|x: u8| #[trigger](x >> 6) == x / 64,
        forall|x: u8| x < 4 ==> #[trigger](x | 252) == x + 252,
        forall|x: u8| x < 4 ==> #[trigger](252 | x) == x + 252,
        forall|x: u8| #[trigger](x >> 7) == x / 128,
        forall|x: u8| x < 2 ==> #[trigger](x | 254) == x + 254,
        forall|x: u8| x < 2 ==> #[trigger](254 | x) == x + 254,
{
    assert forall|x: u8| #[trigger](x >> 1) == x / 2 by { assert((x >> 1) == x / 2) by (bit_vector); }
    assert forall|x: u8| x < 128 implies #[trigger](x | 128) == x + 128 by { assert(x < 128 ==> (x | 128) == x + 128) by (bit_vector); }
    assert forall|x: u8| x < 128 implies #[trigger](128 | x) == x + 128 by { assert(x < 128 ==> (128 | x) == x + 128) by (bit_vector); }
    assert forall|x: u8| #[trigger](x >> 2) == x / 4 by { assert((x >> 2) == x / 4) by (bit_vector); }
    assert forall|x: u8| x < 64 implies #[trigger](x | 192) == x + 192 by { assert(x < 64 ==> (x | 192) == x + 192) by (bit_vector); }
    assert forall|x: u8| x < 64 implies #[trigger](192 | x) == x + 192 by { assert(x < 64 ==> (192 | x) == x + 192) by (bit_vector); }
    assert forall|x: u8| #[trigger](x >> 3) == x / 8 by { assert((x >> 3) == x / 8) by (bit_vector); }
    assert forall|x: u8| x < 32 implies #[trigger](x | 224) == x + 224 by { assert(x < 32 ==> (x | 224) == x + 224) by (bit_vector); }
    assert forall|x: u8| x < 32 implies #[trigger](224 | x) == x + 224 by { assert(x < 32 ==> (224 | x) == x + 224) by (bit_vector); }
    assert forall|x: u8| #[trigger](x >> 4) == x / 16 by { assert((x >> 4) == x / 16) by (bit_vector); }
    assert forall|x: u8| x < 16 implies #[trigger](x | 240) == x + 240 by { assert(x < 16 ==> (x | 240) == x + 240) by (bit_vector); }
    assert forall|x: u8| x < 16 implies #[trigger](240 | x) == x + 240 by { assert(x < 16 ==> (240 | x) == x + 240) by (bit_vector); }
    assert forall|x: u8| #[trigger](x >> 5) == x / 32 by { assert((x >> 5) == x / 32) by (bit_vector); }
    assert forall|x: u8| x < 8 implies #[trigger](x | 248) == x + 248 by { assert(x < 8 ==> (x | 248) == x + 248) by (bit_vector); }
    assert forall|x: u8| x < 8 implies #[trigger](248 | x) == x + 248 by { assert(x < 8 ==> (248 | x) == x + 248) by (bit_vector); }
    assert forall|x: u8| #[trigger](x >> 6) == x / 64 by { assert((x >> 6) == x / 64) by (bit_vector); }
    assert forall|x: u8| x < 4 implies #[trigger](x | 252) == x + 252 by { assert(x < 4 ==> (x | 252) == x + 252) by (bit_vector); }
    assert forall|x: u8| x < 4 implies #[trigger](252 | x) == x + 252 by { assert(x < 4 ==> (252 | x) == x + 252) by (bit_vector); }
    assert forall|x: u8| #[trigger](x >> 7) == x / 128 by { assert((x >> 7) == x / 128) by (bit_vector); }
    assert forall|x: u8| x < 2 implies #[trigger](x | 254) == x + 254 by { assert(x < 2 ==> (x | 254) == x + 254) by (bit_vector); }
    assert forall|x: u8| x < 2 implies #[trigger](254 | x) == x + 254 by { assert(x < 2 ==> (254 | x) == x + 254) by (bit_vector); }
}
pub proof fn zigzag_64()
    ensures
        forall|x: i64| x >= 0 ==> #[trigger](x >> 63) == 0,
        forall|x: i64| x < 0 ==> #[trigger](x >> 63) == -1,
        forall|x: i64, y: i64| x >= 0 && y == 0 ==> #[trigger](((x << 1) ^ y) as u64) == x * 2,
        forall|x: i64, y: i64| x < 0 && y == -1 ==> #[trigger](((x << 1) ^ y) as u64) == x * -2 - 1,
        forall|v: u64| #[trigger]((v as i64) & 1) == v % 2,
        forall|v: u64| #[trigger](v >> 1) == v / 2,
        forall|x: i64, y: i64| y == 0 ==> #[trigger](x ^ y) == x,
        forall|x: i64, y: i64| y == -1 ==> #[trigger](x ^ y) == -1 - x,
{
    assert forall|x: i64| x >= 0 implies #[trigger](x >> 63) == 0 by { assert(x >= 0 ==> (x >> 63) == 0) by (bit_vector); }
    assert forall|x: i64| x < 0 implies #[trigger](x >> 63) == -1 by { assert(x < 0 ==> (x >> 63) == -1) by (bit_vector); }
    assert forall|x: i64, y: i64| x >= 0 && y == 0 implies #[trigger](((x << 1) ^ y) as u64) == x * 2 by { assert(x >= 0 && y == 0 ==> (((x << 1) ^ y) as u64) == x * 2) by (bit_vector); }
    assert forall|x: i64, y: i64| x < 0 && y == -1 implies #[trigger](((x << 1) ^ y) as u64) == x * -2 - 1 by { assert(x < 0 && y == -1 ==> (((x << 1) ^ y) as u64) == x * -2 - 1) by (bit_vector); }
    assert forall|v: u64| #[trigger]((v as i64) & 1) == v % 2 by { assert(((v as i64) & 1) == v % 2) by (bit_vector); }
    assert forall|v: u64| #[trigger](v >> 1) == v / 2 by { assert((v >> 1) == v / 2) by (bit_vector); }
    assert forall|x: i64, y: i64| y == 0 implies #[trigger](x ^ y) == x by { assert(y == 0 ==> (x ^ y) == x) by (bit_vector); }
    assert forall|x: i64, y: i64| y == -1 implies #[trigger](x ^ y) == -1 - x by { assert(y == -1 ==> (x ^ y) == -1 - x) by (bit_vector); }
}
pub proof fn zigzag_32()
    ensures
        forall|x: i32| x >= 0 ==> #[trigger](x >> 31) == 0,
        forall|x: i32| x < 0 ==> #[trigger](x >> 31) == -1,
        forall|x: i32, y: i32| x >= 0 && y == 0 ==> #[trigger](((x << 1) ^ y) as u32) == x * 2,
        forall|x: i32, y: i32| x < 0 && y == -1 ==> #[trigger](((x << 1) ^ y) as u32) == x * -2 - 1,
        forall|v: u32| #[trigger]((v as i32) & 1) == v % 2,
        forall|v: u32| #[trigger](v >> 1) == v / 2,
        forall|x: i32, y: i32| y == 0 ==> #[trigger](x ^ y) == x,
        forall|x: i32, y: i32| y == -1 ==> #[trigger](x ^ y) == -1 - x,
{
    assert forall|x: i32| x >= 0 implies #[trigger](x >> 31) == 0 by { assert(x >= 0 ==> (x >> 31) == 0) by (bit_vector); }
    assert forall|x: i32| x < 0 implies #[trigger](x >> 31) == -1 by { assert(x < 0 ==> (x >> 31) == -1) by (bit_vector); }
    assert forall|x: i32, y: i32| x >= 0 && y == 0 implies #[trigger](((x << 1) ^ y) as u32) == x * 2 by { assert(x >= 0 && y == 0 ==> (((x << 1) ^ y) as u32) == x * 2) by (bit_vector); }
    assert forall|x: i32, y: i32| x < 0 && y == -1 implies #[trigger](((x << 1) ^ y) as u32) == x * -2 - 1 by { assert(x < 0 && y == -1 ==> (((x << 1) ^ y) as u32) == x * -2 - 1) by (bit_vector); }
    assert forall|v: u32| #[trigger]((v as i32) & 1) == v % 2 by { assert(((v as i32) & 1) == v % 2) by (bit_vector); }
    assert forall|v: u32| #[trigger](v >> 1) == v / 2 by { assert((v >> 1) == v / 2) by (bit_vector); }
    assert forall|x: i32, y: i32| y == 0 implies #[trigger](x ^ y) == x by { assert(y == 0 ==> (x ^ y) == x) by (bit_vector); }
    assert forall|x: i32, y: i32| y == -1 implies #[trigger](x ^ y) == -1 - x by { assert(y == -1 ==> (x ^ y) == -1 - x) by (bit_vector); }
}
pub proof fn zigzag_16()
    ensures
        forall|x: i16| x >= 0 ==> #[trigger](x >> 15) == 0,
        forall|x: i16| x < 0 ==> #[trigger](x >> 15) == -1,
        forall|x: i16, y: i16| x >= 0 && y == 0 ==> #[trigger](((x << 1) ^ y) as u16) == x * 2,
        forall|x: i16, y: i16| x < 0 && y == -1 ==> #[trigger](((x << 1) ^ y) as u16) == x * -2 - 1,
        forall|v: u16| #[trigger]((v as i16) & 1) == v % 2,
        forall|v: u16| #[trigger](v >> 1) == v / 2,
        forall|x: i16, y: i16| y == 0 ==> #[trigger](x ^ y) == x,
        forall|x: i16, y: i16| y == -1 ==> #[trigger](x ^ y) == -1 - x,
{
    assert forall|x: i16| x >= 0 implies #[trigger](x >> 15) == 0 by { assert(x >= 0 ==> (x >> 15) == 0) by (bit_vector); }
    assert forall|x: i16| x < 0 implies #[trigger](x >> 15) == -1 by { assert(x < 0 ==> (x >> 15) == -1) by (bit_vector); }
    assert forall|x: i16, y: i16| x >= 0 && y == 0 implies #[trigger](((x << 1) ^ y) as u16) == x * 2 by { assert(x >= 0 && y == 0 ==> (((x << 1) ^ y) as u16) == x * 2) by (bit_vector); }
    assert forall|x: i16, y: i16| x < 0 && y == -1 implies #[trigger](((x << 1) ^ y) as u16) == x * -2 - 1 by { assert(x < 0 && y == -1 ==> (((x << 1) ^ y) as u16) == x * -2 - 1) by (bit_vector); }
    assert forall|v: u16| #[trigger]((v as i16) & 1) == v % 2 by { assert(((v as i16) & 1) == v % 2) by (bit_vector); }
    assert forall|v: u16| #[trigger](v >> 1) == v / 2 by { assert((v >> 1) == v / 2) by (bit_vector); }
    assert forall|x: i16, y: i16| y == 0 implies #[trigger](x ^ y) == x by { assert(y == 0 ==> (x ^ y) == x) by (bit_vector); }
    assert forall|x: i16, y: i16| y == -1 implies #[trigger](x ^ y) == -1 - x by { assert(y == -1 ==> (x ^ y) == -1 - x) by (bit_vector); }
}
}
/// The functions of prefix_varint.rs.
pub mod prefix_varint {
use super::*;
use super::io_spec::*;
use super::varint::{vlen, lead, modulus, announced, le, unle, pow256, vu};
use super::std_spec::*;
use super::bits::*;
use vstd::std_specs::bits::*;
use std::io::{Read, Result};

/// The first r bytes of b are the encoding of v, spelled out.
pub open spec fn written(b: Seq<u8>, r: nat, v: nat, max: nat) -> bool {
    let n = vlen(v as u64, max);
    r == n && if n == max {
        &&& b[0] == lead(n)
        &&& b[1] == digit(v, 0) && b[2] == digit(v, 1)
        &&& n > 4 ==> b[3] == digit(v, 2) && b[4] == digit(v, 3)
        &&& n > 8 ==> b[5] == digit(v, 4) && b[6] == digit(v, 5) && b[7] == digit(v, 6) && b[8] == digit(v, 7)
    } else {
        &&& n == 1 ==> b[0] == 0 + v % 128
        &&& n == 2 ==> b[0] == 128 + v % 64 && b[1] == v / 0x40 % 256
        &&& n == 3 ==> b[0] == 192 + v % 32 && b[1] == v / 0x20 % 256 && b[2] == v / 0x2000 % 256
        &&& n == 4 ==> b[0] == 224 + v % 16 && b[1] == v / 0x10 % 256 && b[2] == v / 0x1000 % 256 && b[3] == v / 0x100000 % 256
        &&& n == 5 ==> b[0] == 240 + v % 8 && b[1] == v / 0x8 % 256 && b[2] == v / 0x800 % 256 && b[3] == v / 0x80000 % 256 && b[4] == v / 0x8000000 % 256
        &&& n == 6 ==> b[0] == 248 + v % 4 && b[1] == v / 0x4 % 256 && b[2] == v / 0x400 % 256 && b[3] == v / 0x40000 % 256 && b[4] == v / 0x4000000 % 256 && b[5] == v / 0x400000000 % 256
        &&& n == 7 ==> b[0] == 252 + v % 2 && b[1] == v / 0x2 % 256 && b[2] == v / 0x200 % 256 && b[3] == v / 0x20000 % 256 && b[4] == v / 0x2000000 % 256 && b[5] == v / 0x200000000 % 256 && b[6] == v / 0x20000000000 % 256
        &&& n == 8 ==> b[0] == 254 + v % 1 && b[1] == v / 0x1 % 256 && b[2] == v / 0x100 % 256 && b[3] == v / 0x10000 % 256 && b[4] == v / 0x1000000 % 256 && b[5] == v / 0x100000000 % 256 && b[6] == v / 0x10000000000 % 256 && b[7] == v / 0x1000000000000 % 256
    }
}
/// What the bytes s decode to.
pub open spec fn means(s: Seq<u8>, max: nat) -> Option<(nat, nat)> {
    if s.len() == 0 { None } else {
        let n = announced(s[0], max);
        let m = modulus(n, max);
        if s.len() < n { None } else { Some((s[0] as nat % m + m * number(s, 1, (n - 1) as nat), n)) }
    }
}
pub trait PrefixVarint<const N: usize>: Sized {
    const PREFIX_VARINT_BUF_SIZE: usize = N;
    spec fn nat_(self) -> nat;
    fn encode_prefix_varint(self, buf: &mut [u8; N]) -> (r: usize)
        ensures written(final(buf)@, r as nat, self.nat_(), N as nat);
    fn decode_prefix_varint<R: Read>(reader: &mut R) -> (r: Result<Self>)
        ensures
            match means((*old(reader)).rest(), N as nat) {
                Some((v, n)) => r is Ok && r->Ok_0.nat_() == v && (*final(reader)).rest() == (*old(reader)).rest().skip(n as int),
                None => r is Err,
            };
//@rewrite buf[..$e].to_vec() => head_of(&buf, $e)
//@defaults {CRATE}/src/prefix_varint.rs :: PrefixVarint
//@fn encode_prefix_varint_vec
    requires N == 3 || N == 5 || N == 9
    ensures written(r@, r@.len(), self.nat_(), N as nat)
//@end
}
/// buf[..n].to_vec()
pub fn head_of<const N: usize>(buf: &[u8; N], n: usize) -> (r: Vec<u8>)
    requires n <= N
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == buf@[i]
{
    let mut r = Vec::new();
    let mut i = 0;
    while i < n
        invariant i <= n, n <= N, r@.len() == i, forall|k: int| 0 <= k < i ==> r@[k] == buf@[k]
        decreases n - i
    { r.push(buf[i]); i += 1; }
    r
}
pub proof fn lemma_digits(v: nat, n: nat)
    requires n <= 8
    ensures le(v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] le(v, n)[i] == digit(v, i as nat)
{
    reveal_with_fuel(le, 9);
    assert(v / 256 / 256 == v / 0x1_0000 && v / 0x1_0000 / 256 == v / 0x100_0000 && v / 0x100_0000 / 256 == v / 0x1_0000_0000
        && v / 0x1_0000_0000 / 256 == v / 0x100_0000_0000 && v / 0x100_0000_0000 / 256 == v / 0x1_0000_0000_0000
        && v / 0x1_0000_0000_0000 / 256 == v / 0x100_0000_0000_0000);
}
pub proof fn lemma_written(b: Seq<u8>, r: nat, v: u64, max: nat)
    requires written(b, r, v as nat, max), max == 3 && v < 0x1_0000 || max == 5 && v < 0x1_0000_0000 || max == 9, b.len() >= r
    ensures 1 <= r <= max, r == vu(v, max).len(), b.subrange(0, r as int) == vu(v, max)
{
    reveal(vu);
    let n = vlen(v, max);
    let m = modulus(n, max);
    let w = v as nat / m;
    lemma_digits(w, (n - 1) as nat);
    let x = v as int;
    let d = m as int;
    vstd::arithmetic::div_mod::lemma_div_denominator(x, d, 0x100);
    vstd::arithmetic::div_mod::lemma_div_denominator(x, d, 0x1_0000);
    vstd::arithmetic::div_mod::lemma_div_denominator(x, d, 0x100_0000);
    vstd::arithmetic::div_mod::lemma_div_denominator(x, d, 0x1_0000_0000);
    vstd::arithmetic::div_mod::lemma_div_denominator(x, d, 0x100_0000_0000);
    vstd::arithmetic::div_mod::lemma_div_denominator(x, d, 0x1_0000_0000_0000);
    let t = b.subrange(0, n as int);
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] t[i + 1] == le(w, (n - 1) as nat)[i] by {}
    assert forall|i: int| 0 <= i < n implies #[trigger] t[i] == vu(v, max)[i] by { if i > 0 { assert(t[(i - 1) + 1] == le(w, (n - 1) as nat)[i - 1]); } }
    assert(t =~= vu(v, max));
}
pub proof fn skips()
    ensures forall|s: Seq<u8>, k: int| 0 <= k < s.len() ==> #[trigger] s.skip(1).skip(k) == s.skip(1 + k), forall|s: Seq<u8>| #[trigger] s.skip(0) == s
{
    assert forall|s: Seq<u8>, k: int| 0 <= k < s.len() implies #[trigger] s.skip(1).skip(k) == s.skip(1 + k) by { assert(s.skip(1).skip(k) =~= s.skip(1 + k)); }
    assert forall|s: Seq<u8>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); }
}
pub proof fn encoding_16(v: u16)
    ensures
        v < 128 <==> u16_leading_zeros(v) >= 9,
        v < 16384 <==> u16_leading_zeros(v) >= 2,
{
    lemma_zeros_16(v);
}
pub proof fn encoding_32(v: u32)
    ensures
        v < 128 <==> u32_leading_zeros(v) >= 25,
        v < 16384 <==> u32_leading_zeros(v) >= 18,
        v < 2097152 <==> u32_leading_zeros(v) >= 11,
        v < 268435456 <==> u32_leading_zeros(v) >= 4,
{
    lemma_zeros_32(v);
}
pub proof fn encoding_64(v: u64)
    ensures
        v < 128 <==> u64_leading_zeros(v) >= 57,
        v < 16384 <==> u64_leading_zeros(v) >= 50,
        v < 2097152 <==> u64_leading_zeros(v) >= 43,
        v < 268435456 <==> u64_leading_zeros(v) >= 36,
        v < 34359738368 <==> u64_leading_zeros(v) >= 29,
        v < 4398046511104 <==> u64_leading_zeros(v) >= 22,
        v < 562949953421312 <==> u64_leading_zeros(v) >= 15,
        v < 72057594037927936 <==> u64_leading_zeros(v) >= 8,
{
    lemma_zeros_64(v);
}
//@rewrite (reader: &mut impl Read) => <R: Read>(reader: &mut R)
//@rewrite buf[1..].copy_from_slice($e) => copy_to_tail(buf, $e)
//@rewrite reader.read_exact(&mut buf[$a..$b]) => read_part(reader, &mut buf, $a, $b)
//@rewrite $v:ident.to_le_bytes() => $v.le_bytes()
//@rewrite $t:ident::from_le_bytes($e) => <$t>::of_le_bytes($e)
//@fns {CRATE}/src/prefix_varint.rs
//@fn decode_prefix
    ensures
        r is Ok <==> (*old(reader)).rest().len() >= 1,
        r is Ok ==> r->Ok_0 == (*old(reader)).rest()[0] && (*final(reader)).rest() == (*old(reader)).rest().skip(1)
//@end
//@impl {CRATE}/src/prefix_varint.rs :: impl PrefixVarint<3> for u16
//@inject
    open spec fn nat_(self) -> nat { self as nat }
//@fn encode_prefix_varint
//@start
    proof { encoding_16(self); parts_16(); facts_8(); }
//@fn decode_prefix_varint
//@start
    proof { facts_16(); skips(); }
    proof { all_ones(); }
//@end
//@impl {CRATE}/src/prefix_varint.rs :: impl PrefixVarint<5> for u32
//@inject
    open spec fn nat_(self) -> nat { self as nat }
//@fn encode_prefix_varint
//@start
    proof { encoding_32(self); parts_32(); facts_8(); }
//@fn decode_prefix_varint
//@start
    proof { facts_32(); skips(); }
    proof { all_ones(); }
//@end
//@impl {CRATE}/src/prefix_varint.rs :: impl PrefixVarint<9> for u64
//@inject
    open spec fn nat_(self) -> nat { self as nat }
//@fn encode_prefix_varint
//@start
    proof { encoding_64(self); parts_64(); facts_8(); }
//@fn decode_prefix_varint
//@start
    proof { facts_64(); skips(); }
    proof { all_ones(); }
//@end
}
