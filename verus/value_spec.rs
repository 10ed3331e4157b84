// The format of values without a type description: what Body holds, and what the bytes of it are.
pub mod value_spec {
use super::*;
use super::varint::*;
use super::header_spec::*;
use vstd::utf8::*;
pub use super::zigzag::{zigzag, unzigzag};

/// A value without parts.
pub enum L {
    Bool(bool), U8(u8), U16(u16), U32(u32), U64(u64), I8(i8), I16(i16), I32(i32), I64(i64),
    F32(u32), F64(u64),                       // the bits
    BigUint(Seq<u8>), BigInt(Seq<u8>), BigDecimal(Seq<u8>, i64),   // little-endian bytes, and the scale
    Str(Seq<char>), Bin(Seq<u8>),
    Date(i32, u16),                           // the year, the day of the year from 1
    DateTime(i64, u32),
}
pub open spec fn kind(l: L) -> H {
    match l {
        L::Bool(_) => H::Bool, L::U8(_) => H::U8, L::U16(_) => H::U16, L::U32(_) => H::U32, L::U64(_) => H::U64,
        L::I8(_) => H::I8, L::I16(_) => H::I16, L::I32(_) => H::I32, L::I64(_) => H::I64, L::F32(_) => H::F32, L::F64(_) => H::F64,
        L::BigUint(_) => H::BigUint, L::BigInt(_) => H::BigInt, L::BigDecimal(..) => H::BigDecimal, L::Str(_) => H::Str,
        L::Bin(_) => H::Bin, L::Date(..) => H::Date, L::DateTime(..) => H::DateTime,
    }
}
/// What the type of a value guarantees.
pub open spec fn wl(l: L) -> bool {
    match l {
        L::BigUint(b) | L::BigInt(b) | L::Bin(b) => b.len() <= u64::MAX,
        L::BigDecimal(b, s) => b.len() <= u64::MAX && (b.len() == 0 ==> s == 0),
        L::Str(c) => encode_utf8(c).len() <= u64::MAX,
        L::Date(y, o) => y - 2000 >= i32::MIN && o >= 1,
        _ => true,
    }
}
pub open spec fn blob(b: Seq<u8>) -> Seq<u8> { vu64(b.len() as u64) + b }
/// The bytes of a value.
pub open spec fn lb(l: L) -> Seq<u8> {
    match l {
        L::Bool(v) => seq![if v { 1u8 } else { 0u8 }],
        L::U8(v) => seq![v], L::U16(v) => vu16(v), L::U32(v) => vu32(v), L::U64(v) => vu64(v),
        L::I8(v) => seq![v as u8],
        L::I16(v) => vu16(zigzag(v as int) as u16), L::I32(v) => vu32(zigzag(v as int) as u32), L::I64(v) => vu64(zigzag(v as int) as u64),
        L::F32(v) => le(v as nat, 4), L::F64(v) => le(v as nat, 8),
        L::BigUint(b) | L::BigInt(b) | L::Bin(b) => blob(b),
        L::BigDecimal(b, s) => if b.len() == 0 { seq![0u8] } else { blob(b) + vu64(zigzag(s as int) as u64) },
        L::Str(c) => blob(encode_utf8(c)),
        L::Date(y, o) => vu32(zigzag(y - 2000) as u32) + vu16((o - 1) as u16),
        L::DateTime(t, n) => vu64(zigzag(t as int) as u64) + vu32(n),
    }
}
pub open spec fn pblob(s: Seq<u8>) -> Option<(Seq<u8>, nat)> {
    match du64(s) {
        Some((n, k)) => if s.len() < k + n { None } else { Some((s.subrange(k as int, k + n), k + n as nat)) },
        None => None,
    }
}
/// The value of a kind that the bytes s start with, and how many of them it takes.
pub open spec fn lp(h: H, s: Seq<u8>) -> Option<(L, nat)> {
    match h {
        H::Bool => if s.len() >= 1 && s[0] <= 1 { Some((L::Bool(s[0] == 1), 1)) } else { None },
        H::U8 => if s.len() >= 1 { Some((L::U8(s[0]), 1)) } else { None },
        H::I8 => if s.len() >= 1 { Some((L::I8(s[0] as i8), 1)) } else { None },
        H::U16 => match du16(s) { Some((v, n)) => Some((L::U16(v), n)), None => None },
        H::U32 => match du32(s) { Some((v, n)) => Some((L::U32(v), n)), None => None },
        H::U64 => match du64(s) { Some((v, n)) => Some((L::U64(v), n)), None => None },
        H::I16 => match du16(s) { Some((v, n)) => Some((L::I16(unzigzag(v as int) as i16), n)), None => None },
        H::I32 => match du32(s) { Some((v, n)) => Some((L::I32(unzigzag(v as int) as i32), n)), None => None },
        H::I64 => match du64(s) { Some((v, n)) => Some((L::I64(unzigzag(v as int) as i64), n)), None => None },
        H::F32 => if s.len() >= 4 { Some((L::F32(unle(s.take(4)) as u32), 4)) } else { None },
        H::F64 => if s.len() >= 8 { Some((L::F64(unle(s.take(8)) as u64), 8)) } else { None },
        H::BigUint => match pblob(s) { Some((b, n)) => Some((L::BigUint(b), n)), None => None },
        H::BigInt => match pblob(s) { Some((b, n)) => Some((L::BigInt(b), n)), None => None },
        H::Bin => match pblob(s) { Some((b, n)) => Some((L::Bin(b), n)), None => None },
        H::BigDecimal => match pblob(s) {
            Some((b, n)) => if b.len() == 0 { Some((L::BigDecimal(b, 0), n)) } else {
                match du64(s.skip(n as int)) {
                    Some((v, m)) => Some((L::BigDecimal(b, unzigzag(v as int) as i64), n + m)),
                    None => None,
                }
            },
            None => None,
        },
        H::Str => match pblob(s) {
            Some((b, n)) => if valid_utf8(b) { Some((L::Str(decode_utf8(b)), n)) } else { None },
            None => None,
        },
        H::Date => match du32(s) {
            Some((y, n)) => match du16(s.skip(n as int)) {
                Some((o, m)) => if unzigzag(y as int) + 2000 <= i32::MAX && o + 1 <= u16::MAX {
                    Some((L::Date((unzigzag(y as int) + 2000) as i32, (o + 1) as u16), n + m))
                } else { None },
                None => None,
            },
            None => None,
        },
        H::DateTime => match du64(s) {
            Some((t, n)) => match du32(s.skip(n as int)) {
                Some((k, m)) => Some((L::DateTime(unzigzag(t as int) as i64, k), n + m)),
                None => None,
            },
            None => None,
        },
        _ => None,
    }
}
pub proof fn lemma_blob(b: Seq<u8>, t: Seq<u8>)
    requires b.len() <= u64::MAX
    ensures pblob(blob(b) + t) == Some((b, blob(b).len())), blob(b).len() >= 1
{
    broadcast use group_varint;
    assert(blob(b) + t =~= vu64(b.len() as u64) + (b + t));
    let k = vu64(b.len() as u64).len();
    assert((blob(b) + t).subrange(k as int, (k + b.len()) as int) =~= b);
}
pub proof fn lemma_unle_bound(s: Seq<u8>)
    ensures unle(s) < pow256(s.len())
    decreases s.len()
{ if s.len() > 0 { lemma_unle_bound(s.skip(1)); } }
pub proof fn lemma_unzigzag(v: int)
    ensures unzigzag(zigzag(v)) == v, zigzag(v) >= 0,
        -0x8000 <= v < 0x8000 ==> zigzag(v) < 0x1_0000,
        -0x8000_0000 <= v < 0x8000_0000 ==> zigzag(v) < 0x1_0000_0000,
        -0x8000_0000_0000_0000 <= v < 0x8000_0000_0000_0000 ==> zigzag(v) < 0x1_0000_0000_0000_0000,
{}
pub proof fn lemma_rt_num(l: L, t: Seq<u8>)
    requires l is Bool || l is U8 || l is U16 || l is U32 || l is U64 || l is I8 || l is I16 || l is I32 || l is I64 || l is F32 || l is F64
    ensures lp(kind(l), lb(l) + t) == Some((l, lb(l).len()))
{
    broadcast use group_varint;
    let s = lb(l) + t;
    assert(pow256(4) == 0x1_0000_0000 && pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
    match l {
        L::I8(v) => { assert((v as u8) as i8 == v) by (bit_vector); }
        L::I16(v) => { lemma_unzigzag(v as int); }
        L::I32(v) => { lemma_unzigzag(v as int); }
        L::I64(v) => { lemma_unzigzag(v as int); }
        L::F32(v) => { lemma_le(v as nat, 4); assert(s.take(4) =~= le(v as nat, 4)); }
        L::F64(v) => { lemma_le(v as nat, 8); assert(s.take(8) =~= le(v as nat, 8)); }
        _ => {}
    }
}
pub proof fn lemma_rt_decimal(b: Seq<u8>, sc: i64, t: Seq<u8>)
    requires wl(L::BigDecimal(b, sc))
    ensures lp(H::BigDecimal, lb(L::BigDecimal(b, sc)) + t) == Some((L::BigDecimal(b, sc), lb(L::BigDecimal(b, sc)).len()))
{
    broadcast use group_varint;
    let s = lb(L::BigDecimal(b, sc)) + t;
    if b.len() == 0 {
        lemma_blob(b, t);
        lemma_vu64_zero();
        assert(blob(b) =~= seq![0u8]);
    } else {
        let z = vu64(zigzag(sc as int) as u64);
        lemma_unzigzag(sc as int);
        lemma_blob(b, z + t);
        assert(s =~= blob(b) + (z + t));
        assert(s.skip(blob(b).len() as int) =~= z + t);
    }
}
pub proof fn lemma_rt_date(y: i32, o: u16, t: Seq<u8>)
    requires wl(L::Date(y, o))
    ensures lp(H::Date, lb(L::Date(y, o)) + t) == Some((L::Date(y, o), lb(L::Date(y, o)).len()))
{
    broadcast use group_varint;
    let s = lb(L::Date(y, o)) + t;
    let (a, b) = (vu32(zigzag(y - 2000) as u32), vu16((o - 1) as u16));
    lemma_unzigzag(y - 2000);
    assert(s =~= a + (b + t));
    assert(s.skip(a.len() as int) =~= b + t);
}
pub proof fn lemma_rt_date_time(x: i64, n: u32, t: Seq<u8>)
    ensures lp(H::DateTime, lb(L::DateTime(x, n)) + t) == Some((L::DateTime(x, n), lb(L::DateTime(x, n)).len()))
{
    broadcast use group_varint;
    let s = lb(L::DateTime(x, n)) + t;
    let (a, b) = (vu64(zigzag(x as int) as u64), vu32(n));
    lemma_unzigzag(x as int);
    assert(s =~= a + (b + t));
    assert(s.skip(a.len() as int) =~= b + t);
}
pub proof fn lemma_utf8(c: Seq<char>)
    ensures valid_utf8(encode_utf8(c)), decode_utf8(encode_utf8(c)) == c
{ broadcast use group_utf8_lib; }
/// Values without parts decode back to themselves and use up their own bytes.
pub proof fn theorem_leaf_round_trip(l: L, t: Seq<u8>)
    requires wl(l)
    ensures lp(kind(l), lb(l) + t) == Some((l, lb(l).len()))
{
    match l {
        L::BigUint(b) | L::BigInt(b) | L::Bin(b) => { lemma_blob(b, t); }
        L::Str(c) => { lemma_blob(encode_utf8(c), t); lemma_utf8(c); }
        L::BigDecimal(b, sc) => { lemma_rt_decimal(b, sc, t); }
        L::Date(y, o) => { lemma_rt_date(y, o, t); }
        L::DateTime(x, n) => { lemma_rt_date_time(x, n, t); }
        _ => { lemma_rt_num(l, t); }
    }
}
pub proof fn lemma_vu64_zero()
    ensures vu64(0) == seq![0u8]
{ reveal(vu); assert(vu64(0) =~= seq![0u8]); }
pub proof fn lemma_pblob(s: Seq<u8>)
    ensures pblob(s) is Some ==> pblob(s)->Some_0.0.len() <= u64::MAX && 1 <= pblob(s)->Some_0.1 <= s.len()
{ broadcast use group_varint; }
pub proof fn lemma_lp_str(s: Seq<u8>)
    ensures lp(H::Str, s) is Some ==> kind(lp(H::Str, s)->Some_0.0) == H::Str && wl(lp(H::Str, s)->Some_0.0) && 1 <= lp(H::Str, s)->Some_0.1 <= s.len()
{
    lemma_pblob(s);
    if let Some((b, n)) = pblob(s) {
        if valid_utf8(b) { broadcast use group_utf8_lib; assert(encode_utf8(decode_utf8(b)) == b); }
    }
}
pub proof fn lemma_lp_pair(h: H, s: Seq<u8>)
    requires h is Date || h is DateTime || h is BigDecimal
    ensures lp(h, s) is Some ==> kind(lp(h, s)->Some_0.0) == h && wl(lp(h, s)->Some_0.0) && 1 <= lp(h, s)->Some_0.1 <= s.len()
{ 
    broadcast use group_varint;
    lemma_pblob(s);
}
/// What is decoded is a value of the kind that was asked for, made of bytes that are there.
pub proof fn lemma_lp(h: H, s: Seq<u8>)
    ensures lp(h, s) is Some ==> kind(lp(h, s)->Some_0.0) == h && wl(lp(h, s)->Some_0.0) && 1 <= lp(h, s)->Some_0.1 <= s.len()
{
    match h {
        H::Str => { lemma_lp_str(s); }
        H::Date | H::DateTime | H::BigDecimal => { lemma_lp_pair(h, s); }
        H::BigUint | H::BigInt | H::Bin => { lemma_pblob(s); }
        _ => { broadcast use group_varint; }
    }
}

/// More input after it changes nothing.
pub proof fn lemma_lp_more(h: H, s: Seq<u8>, t: Seq<u8>)
    requires lp(h, s) is Some
    ensures lp(h, s + t) == lp(h, s)
{
    broadcast use group_varint;
    match h {
        H::U16 | H::I16 => { lemma_du_more(s, 3, t); }
        H::U32 | H::I32 => { lemma_du_more(s, 5, t); }
        H::U64 | H::I64 => { lemma_du_more(s, 9, t); }
        H::F32 => { assert((s + t).take(4) =~= s.take(4)); }
        H::F64 => { assert((s + t).take(8) =~= s.take(8)); }
        H::BigUint | H::BigInt | H::Bin | H::Str => { lemma_pblob_more(s, t); }
        H::BigDecimal => { 
            lemma_pblob_more(s, t);
            lemma_pblob(s);
            let (b, n) = pblob(s)->Some_0;
            if b.len() > 0 {
                lemma_du_more(s.skip(n as int), 9, t);
                assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
            }
        }
        H::Date => {
            lemma_du_more(s, 5, t);
            let n = du32(s)->Some_0.1;
            lemma_du_more(s.skip(n as int), 3, t);
            assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
        }
        H::DateTime => {
            lemma_du_more(s, 9, t);
            let n = du64(s)->Some_0.1;
            lemma_du_more(s.skip(n as int), 5, t);
            assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
        }
        _ => {}
    }
}
proof fn lemma_pblob_more(s: Seq<u8>, t: Seq<u8>)
    requires pblob(s) is Some
    ensures pblob(s + t) == pblob(s)
{
    broadcast use group_varint;
    lemma_du_more(s, 9, t);
    let (n, k) = du64(s)->Some_0;
    assert((s + t).subrange(k as int, k + n) =~= s.subrange(k as int, k + n));
}

/// A dynamic value. Maps hold their entries in the order of the keys.
pub enum B { Unit, None, Some(Box<B>), Leaf(L), Arr(Seq<B>), Tup(Seq<B>), Map(Seq<(Seq<char>, B)>), Enum(u32, Box<B>) }

/// The order of the keys of a map: that of str, which orders by the bytes of UTF-8, and so by the characters.
#[verifier::opaque]
pub open spec fn less(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) } else { less(a.skip(1), b.skip(1)) }
}

/// What the type of a dynamic value guarantees.
pub open spec fn wb(b: B) -> bool
    decreases b, 0nat
{
    match b {
        B::Leaf(l) => wl(l),
        B::Some(x) | B::Enum(_, x) => wb(*x),
        B::Arr(v) => v.len() <= u64::MAX && wbs(v),
        B::Tup(v) => wbs(v),
        B::Map(m) => m.len() <= u64::MAX && wms(m) && forall|i: int, j: int| 0 <= i < j < m.len() ==> less(#[trigger] m[i].0, #[trigger] m[j].0),
        _ => true,
    }
}
pub open spec fn wbs(v: Seq<B>) -> bool
    decreases v, v.len()
{ v.len() == 0 || wbs(v.drop_last()) && wb(v.last()) }
pub open spec fn wms(m: Seq<(Seq<char>, B)>) -> bool
    decreases m, m.len()
{ m.len() == 0 || wms(m.drop_last()) && wl(L::Str(m.last().0)) && wb(m.last().1) }

/// Whether a value has the shape that a header describes.
pub open spec fn valid(h: H, b: B) -> bool
    decreases b, 0nat
{
    match (h, b) {
        (H::Unit, B::Unit) => true,
        (H::Opt(_), B::None) => true,
        (H::Opt(x), B::Some(y)) => valid(*x, *y),
        (H::Arr(x), B::Arr(v)) => valid_all(*x, v),
        (H::Tup(hs), B::Tup(v)) => hs.len() == v.len() && valid_each(hs, v),
        (H::Map(x), B::Map(m)) => valid_values(*x, m),
        (H::Enum(hs), B::Enum(i, y)) => i < hs.len() && valid(hs[i as int], *y),
        (_, B::Leaf(l)) => kind(l) == h,
        _ => false,
    }
}
pub open spec fn valid_all(h: H, v: Seq<B>) -> bool
    decreases v, v.len()
{ v.len() == 0 || valid_all(h, v.drop_last()) && valid(h, v.last()) }
pub open spec fn valid_each(hs: Seq<H>, v: Seq<B>) -> bool
    decreases v, v.len()
{ v.len() == 0 || hs.len() > 0 && valid_each(hs.drop_last(), v.drop_last()) && valid(hs.last(), v.last()) }
pub open spec fn valid_values(h: H, m: Seq<(Seq<char>, B)>) -> bool
    decreases m, m.len()
{ m.len() == 0 || valid_values(h, m.drop_last()) && valid(h, m.last().1) }

/// The bytes of a value.
pub open spec fn bb(b: B) -> Seq<u8>
    decreases b, 0nat
{
    match b {
        B::Unit => seq![],
        B::None => seq![0u8],
        B::Some(x) => seq![1u8] + bb(*x),
        B::Leaf(l) => lb(l),
        B::Arr(v) => vu64(v.len() as u64) + bbs(v),
        B::Tup(v) => bbs(v),
        B::Map(m) => vu64(m.len() as u64) + bms(m),
        B::Enum(i, x) => vu32(i) + bb(*x),
    }
}
pub open spec fn bbs(v: Seq<B>) -> Seq<u8>
    decreases v, v.len()
{ if v.len() == 0 { seq![] } else { bbs(v.drop_last()) + bb(v.last()) } }
pub open spec fn bms(m: Seq<(Seq<char>, B)>) -> Seq<u8>
    decreases m, m.len()
{ if m.len() == 0 { seq![] } else { bms(m.drop_last()) + (lb(L::Str(m.last().0)) + bb(m.last().1)) } }

/// Where a key goes: after the last key that is less.
pub open spec fn place(keys: Seq<Seq<char>>, k: Seq<char>) -> nat
    decreases keys.len()
{ if keys.len() == 0 { 0 } else if less(keys.last(), k) { keys.len() } else { place(keys.drop_last(), k) } }
/// Inserting into a map.
pub open spec fn put<T>(m: Seq<T>, keys: Seq<Seq<char>>, k: Seq<char>, entry: T) -> Seq<T> {
    let p = place(keys, k) as int;
    if p < keys.len() && keys[p] == k { m.update(p, entry) } else { m.insert(p, entry) }
}
pub open spec fn keys_of(m: Seq<(Seq<char>, B)>) -> Seq<Seq<char>> { Seq::new(m.len(), |i: int| m[i].0) }

/// What the bytes s hold under a header, and how many of them it takes.
pub open spec fn pb(h: H, s: Seq<u8>) -> Option<(B, nat)>
    decreases h, 0nat
{
    match h {
        H::Unit => Some((B::Unit, 0)),
        H::Opt(x) => match lp(H::Bool, s) {
            Some((L::Bool(some), n)) => if !some { Some((B::None, n)) } else {
                match pb(*x, s.skip(n as int)) { Some((b, m)) => Some((B::Some(Box::new(b)), n + m)), None => None }
            },
            _ => None,
        },
        H::Arr(x) => match du64(s) {
            Some((c, k)) => match pbs(*x, s, k, c as nat) { Some((v, n)) => Some((B::Arr(v), n)), None => None },
            None => None,
        },
        H::Tup(hs) => match pts(hs, s) { Some((v, n)) => Some((B::Tup(v), n)), None => None },
        H::Map(x) => match du64(s) {
            Some((c, k)) => match pms(*x, s, k, c as nat) { Some((m, n)) => Some((B::Map(m), n)), None => None },
            None => None,
        },
        H::Enum(hs) => match du32(s) {
            Some((i, k)) => if i < hs.len() {
                match pb(hs[i as int], s.skip(k as int)) { Some((b, m)) => Some((B::Enum(i, Box::new(b)), k + m)), None => None }
            } else { None },
            None => None,
        },
        _ => match lp(h, s) { Some((l, n)) => Some((B::Leaf(l), n)), None => None },
    }
}
/// count values from offset at on, and the offset after them.
pub open spec fn pbs(h: H, s: Seq<u8>, at: nat, count: nat) -> Option<(Seq<B>, nat)>
    decreases h, count + 1
{
    if count == 0 { Some((seq![], at)) } else {
        match pbs(h, s, at, (count - 1) as nat) {
            Some((v, n)) => match pb(h, s.skip(n as int)) { Some((b, m)) => Some((v.push(b), n + m)), None => None },
            None => None,
        }
    }
}
/// One value for each of the headers.
pub open spec fn pts(hs: Seq<H>, s: Seq<u8>) -> Option<(Seq<B>, nat)>
    decreases hs, hs.len()
{
    if hs.len() == 0 { Some((seq![], 0)) } else {
        match pts(hs.drop_last(), s) {
            Some((v, n)) => match pb(hs.last(), s.skip(n as int)) { Some((b, m)) => Some((v.push(b), n + m)), None => None },
            None => None,
        }
    }
}
/// count entries of a map from offset at on, and the offset after them.
pub open spec fn pms(h: H, s: Seq<u8>, at: nat, count: nat) -> Option<(Seq<(Seq<char>, B)>, nat)>
    decreases h, count + 1
{
    if count == 0 { Some((seq![], at)) } else {
        match pms(h, s, at, (count - 1) as nat) {
            Some((e, n)) => match lp(H::Str, s.skip(n as int)) {
                Some((L::Str(k), m)) => match pb(h, s.skip((n + m) as int)) {
                    Some((b, j)) => Some((put(e, keys_of(e), k, (k, b)), n + m + j)),
                    None => None,
                },
                _ => None,
            },
            None => None,
        }
    }
}
}
