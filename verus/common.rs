// Readers, writers and the varints, as the other templates see them.
pub mod io_spec {
use super::*;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_type_specification]
pub struct ExErrorKind(std::io::ErrorKind);


/// Stands for the construction of an error: which error it is does not matter here.
#[verifier::external_body]
pub fn error() -> std::io::Error { unimplemented!() }

/// How many more bytes a writer takes: nothing is no limit.
pub open spec fn fits(room: Option<nat>, n: nat) -> bool { room is None || n <= room->Some_0 }
pub open spec fn minus(room: Option<nat>, n: nat) -> Option<nat> {
    match room { None => None, Some(k) => if n <= k { Some((k - n) as nat) } else { Some(0) } }
}

// write_all: all bytes are taken, or it is an error. The bytes a writer has taken are out(), and it
// fails at the first byte beyond room(), which is any number.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    spec fn out(&self) -> Seq<u8>;
    spec fn room(&self) -> Option<nat>;
    fn write_all(&mut self, buf: &[u8]) -> (r: std::io::Result<()>)
        ensures
            r is Ok <==> fits(old(self).room(), buf@.len()),
            r is Ok ==> final(self).out() == old(self).out() + buf@
                && final(self).room() == minus(old(self).room(), buf@.len());
}

// read_exact: the next bytes, or an error if there are fewer. rest() is what the reader will deliver
// until it ends or fails.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    spec fn rest(&self) -> Seq<u8>;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: std::io::Result<()>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok <==> old(buf)@.len() <= old(self).rest().len(),
            r is Ok ==> final(buf)@ == old(self).rest().take(old(buf)@.len() as int)
                && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int);
}

/// Reserving memory: for a bounded number of elements, whatever the input says.
#[verifier::external_body]
pub fn bounded_vec<T>(n: usize) -> (r: Vec<T>)
    requires n <= 65536
    ensures r@.len() == 0
{ Vec::with_capacity(n) }
#[verifier::external_body]
pub fn bounded_string(n: usize) -> (r: String)
    requires n <= 65536
    ensures r@.len() == 0
{ String::with_capacity(n) }
pub trait Reserve: Sized {
    spec fn same(self, other: Self) -> bool;
    fn bounded_reserve(&mut self, n: usize)
        requires n <= 65536
        ensures old(self).same(*final(self));
}
impl<T> Reserve for Vec<T> {
    open spec fn same(self, other: Self) -> bool { self@ == other@ }
    #[verifier::external_body]
    fn bounded_reserve(&mut self, n: usize) { self.reserve(n) }
}
impl Reserve for String {
    open spec fn same(self, other: Self) -> bool { self@ == other@ }
    #[verifier::external_body]
    fn bounded_reserve(&mut self, n: usize) { self.reserve(n) }
}

/// Stands for the bound AsRef<str>, of which nothing is used.
pub trait AsRefStr {}

pub assume_specification<T, E, F>[ Result::<T, E>::or::<F> ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
    ensures
        a is Ok ==> r is Ok && r->Ok_0 == a->Ok_0,
        a is Err ==> r == b;
}

/// The prefix varint: vu16(v) etc. are the bytes of a value, du16(s) etc. what decoding the bytes s
/// gives (the value and how many bytes it takes). That the real functions do so is shown in u0_varint.rs.
pub mod varint {
use super::*;
use super::io_spec::*;
/// How many bytes the prefix varint of v takes in a type of max - 1 bytes.
pub open spec fn vlen(v: u64, max: nat) -> nat {
    let n: nat = if v < 0x80 { 1 } else if v < 0x4000 { 2 } else if v < 0x20_0000 { 3 } else if v < 0x1000_0000 { 4 }
        else if v < 0x8_0000_0000 { 5 } else if v < 0x400_0000_0000 { 6 } else if v < 0x2_0000_0000_0000 { 7 }
        else if v < 0x100_0000_0000_0000 { 8 } else { 9 };
    if n > max { max } else { n }
}
/// The leading ones of a first byte that announces n bytes.
pub open spec fn lead(n: nat) -> nat {
    if n == 1 { 0 } else if n == 2 { 128 } else if n == 3 { 192 } else if n == 4 { 224 } else if n == 5 { 240 }
    else if n == 6 { 248 } else if n == 7 { 252 } else if n == 8 { 254 } else { 255 }
}
/// What part of the value is in the first of n bytes.
pub open spec fn modulus(n: nat, max: nat) -> nat {
    if n == max { 1 } else if n == 1 { 128 } else if n == 2 { 64 } else if n == 3 { 32 } else if n == 4 { 16 }
    else if n == 5 { 8 } else if n == 6 { 4 } else if n == 7 { 2 } else { 1 }
}
/// n bytes of v, least significant first.
pub open spec fn le(v: nat, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { seq![] } else { seq![(v % 256) as u8] + le(v / 256, (n - 1) as nat) }
}
pub open spec fn unle(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * unle(s.skip(1)) }
}
pub open spec fn pow256(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }

#[verifier::opaque]
pub open spec fn vu(v: u64, max: nat) -> Seq<u8> {
    let n = vlen(v, max);
    let m = modulus(n, max);
    seq![(lead(n) + v as nat % m) as u8] + le(v as nat / m, (n - 1) as nat)
}
/// How many bytes the first byte announces.
pub open spec fn announced(b: u8, max: nat) -> nat {
    let n: nat = if b < 128 { 1 } else if b < 192 { 2 } else if b < 224 { 3 } else if b < 240 { 4 } else if b < 248 { 5 }
        else if b < 252 { 6 } else if b < 254 { 7 } else if b < 255 { 8 } else { 9 };
    if n > max { max } else { n }
}
#[verifier::opaque]
pub open spec fn du(s: Seq<u8>, max: nat) -> Option<(nat, nat)> {
    if s.len() == 0 { None } else {
        let n = announced(s[0], max);
        let m = modulus(n, max);
        if s.len() < n { None } else { Some((s[0] as nat % m + m * unle(s.subrange(1, n as int)), n)) }
    }
}
pub proof fn lemma_le(v: nat, n: nat)
    requires v < pow256(n)
    ensures le(v, n).len() == n, unle(le(v, n)) == v
    decreases n
{
    if n > 0 {
        lemma_le(v / 256, (n - 1) as nat);
        assert(le(v, n).skip(1) =~= le(v / 256, (n - 1) as nat));
    }
}
pub proof fn lemma_rt(v: u64, max: nat, t: Seq<u8>)
    requires max == 3 && v < 0x1_0000 || max == 5 && v < 0x1_0000_0000 || max == 9
    ensures du(vu(v, max) + t, max) == Some((v as nat, vu(v, max).len())), vu(v, max).len() == vlen(v, max)
{
    reveal(vu);
    reveal(du);
    let n = vlen(v, max);
    let m = modulus(n, max);
    assert(pow256(0) == 1 && pow256(1) == 0x100 && pow256(2) == 0x1_0000 && pow256(3) == 0x100_0000 && pow256(4) == 0x1_0000_0000
        && pow256(5) == 0x100_0000_0000 && pow256(6) == 0x1_0000_0000_0000 && pow256(7) == 0x100_0000_0000_0000
        && pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
    let s = vu(v, max) + t;
    lemma_le(v as nat / m, (n - 1) as nat);
    assert(s.subrange(1, n as int) =~= le(v as nat / m, (n - 1) as nat));
    assert(s[0] as nat % m == v as nat % m);
    assert(announced(s[0], max) == n);
    assert(v as nat % m + m * (v as nat / m) == v) by (nonlinear_arith) requires m > 0;
}
/// More input after it changes nothing.
pub proof fn lemma_du_more(s: Seq<u8>, max: nat, t: Seq<u8>)
    requires du(s, max) is Some, max >= 1
    ensures du(s + t, max) == du(s, max)
{
    reveal(du);
    let n = announced(s[0], max);
    assert((s + t).subrange(1, n as int) =~= s.subrange(1, n as int));
}
pub open spec fn vu16(v: u16) -> Seq<u8> { vu(v as u64, 3) }
pub open spec fn du16(s: Seq<u8>) -> Option<(u16, nat)> { match du(s, 3) { Some((v, n)) => Some((v as u16, n)), None => None } }
pub broadcast proof fn lemma_vu16(v: u16, t: Seq<u8>)
    ensures 1 <= vu16(v).len() <= 3, #[trigger] du16(vu16(v) + t) == Some((v, vu16(v).len()))
{ lemma_rt(v as u64, 3, t); }
pub broadcast proof fn lemma_len_vu16(v: u16)
    ensures 1 <= #[trigger] vu16(v).len() <= 3
{ lemma_rt(v as u64, 3, seq![]); }
pub broadcast proof fn lemma_du16(s: Seq<u8>)
    ensures (#[trigger] du16(s)) is Some ==> 1 <= du16(s)->Some_0.1 <= s.len()
{ reveal(du); }
pub open spec fn vu32(v: u32) -> Seq<u8> { vu(v as u64, 5) }
pub open spec fn du32(s: Seq<u8>) -> Option<(u32, nat)> { match du(s, 5) { Some((v, n)) => Some((v as u32, n)), None => None } }
pub broadcast proof fn lemma_vu32(v: u32, t: Seq<u8>)
    ensures 1 <= vu32(v).len() <= 5, #[trigger] du32(vu32(v) + t) == Some((v, vu32(v).len()))
{ lemma_rt(v as u64, 5, t); }
pub broadcast proof fn lemma_len_vu32(v: u32)
    ensures 1 <= #[trigger] vu32(v).len() <= 5
{ lemma_rt(v as u64, 5, seq![]); }
pub broadcast proof fn lemma_du32(s: Seq<u8>)
    ensures (#[trigger] du32(s)) is Some ==> 1 <= du32(s)->Some_0.1 <= s.len()
{ reveal(du); }
pub open spec fn vu64(v: u64) -> Seq<u8> { vu(v as u64, 9) }
pub open spec fn du64(s: Seq<u8>) -> Option<(u64, nat)> { match du(s, 9) { Some((v, n)) => Some((v as u64, n)), None => None } }
pub broadcast proof fn lemma_vu64(v: u64, t: Seq<u8>)
    ensures 1 <= vu64(v).len() <= 9, #[trigger] du64(vu64(v) + t) == Some((v, vu64(v).len()))
{ lemma_rt(v as u64, 9, t); }
pub broadcast proof fn lemma_len_vu64(v: u64)
    ensures 1 <= #[trigger] vu64(v).len() <= 9
{ lemma_rt(v as u64, 9, seq![]); }
pub broadcast proof fn lemma_du64(s: Seq<u8>)
    ensures (#[trigger] du64(s)) is Some ==> 1 <= du64(s)->Some_0.1 <= s.len()
{ reveal(du); }
pub broadcast group group_varint { lemma_vu16, lemma_len_vu16, lemma_du16, lemma_vu32, lemma_len_vu32, lemma_du32, lemma_vu64, lemma_len_vu64, lemma_du64 }

pub trait PrefixVarint<const N: usize>: Sized {
    spec fn enc(self) -> Seq<u8>;
    spec fn dec(s: Seq<u8>) -> Option<(Self, nat)>;
    fn encode_prefix_varint(self, buf: &mut [u8; N]) -> (r: usize)
        ensures 1 <= r <= N, r == self.enc().len(), final(buf)@.subrange(0, r as int) == self.enc();
    fn decode_prefix_varint<R: std::io::Read>(reader: &mut R) -> (r: std::io::Result<Self>)
        ensures
            match Self::dec((*old(reader)).rest()) {
                Some((v, n)) => r == Ok::<Self, std::io::Error>(v) && (*final(reader)).rest() == (*old(reader)).rest().skip(n as int),
                None => r is Err,
            };
}
}
pub mod zigzag {
use super::*;
pub open spec fn zigzag(v: int) -> int { if v >= 0 { 2 * v } else { -2 * v - 1 } }
pub open spec fn unzigzag(v: int) -> int { if v % 2 == 0 { v / 2 } else { -(v + 1) / 2 } }
pub trait ZigZag<T>: Sized {
    spec fn to(self) -> T;
    spec fn from(v: T) -> Self;
    fn encode_zigzag(self) -> (r: T)
        ensures r == self.to();
    fn decode_zigzag(v: T) -> (r: Self)
        ensures r == Self::from(v);
}
}
