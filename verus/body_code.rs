pub mod de {
use super::*;
use super::value_spec::*;
use super::header_spec::H;
use super::io_spec::*;
use std::io::Read;
//@item dlhn/src/de.rs :: enum Error
//@item dlhn/src/de.rs :: struct Deserializer

impl<'de, R: Read> Deserializer<'de, R> {
    /// What the reader has left.
    pub open spec fn rest(&self) -> Seq<u8> { (*self.reader).rest() }
}
}

/// The values without parts: that decoding one of them gives what lp says is what check C03 and C04, C13, C14 are about.
pub mod leaves {
use super::*;
use super::value_spec::*;
use super::header_spec::H;
use super::io_spec::*;
use super::de::*;
use super::leaf::*;
use super::date::*; use super::date_time::*; use super::big::*;
use vstd::float::FloatBitsProperties;
use std::io::Read;

pub trait Deserialize: Leaf {
    fn deserialize<R: Read>(d: &mut Deserializer<R>) -> (r: Result<Self, Error>)
        ensures
            match lp(Self::knd(), old(d).rest()) {
                Some((l, n)) => r is Ok && r->Ok_0.leaf() == l && final(d).rest() == old(d).rest().skip(n as int),
                None => r is Err,
            };
}
impl Deserialize for bool {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for u8 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for u16 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for u32 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for u64 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for i8 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for i16 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for i32 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for i64 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for f32 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for f64 {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for String {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for ByteBuf {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for BigUint {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for BigInt {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for BigDecimal {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for Date {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
impl Deserialize for DateTime {
    #[verifier::external_body] fn deserialize<R: Read>(d: &mut Deserializer<R>) -> Result<Self, Error> { unimplemented!() } }
}

pub mod body {
use super::*;
use super::leaf::*;
use super::btree::*;
use super::io_spec::*;
use super::varint::*;
use super::header_spec::*;
use super::header::*;
use super::value_spec::*;
use super::body_lemmas::*;
use super::de::*;
use super::io_spec::*;
use super::leaves::*;
use super::date::*; use super::date_time::*; use super::big::*;
use std::io::Read;

#[verifier::external_body]
pub fn min_u64(a: u64, b: u64) -> (r: u64)
    ensures r == if a <= b { a } else { b }
{ a.min(b) }

//@consts dlhn/src/body/mod.rs
//@include body_view.rs

proof fn lemma_bvs(v: Vec<Body>)
    ensures bvs(v).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] bvs(v)[i] == bv(v@[i])
{}
proof fn lemma_bvm(m: BTreeMap<String, Body>)
    ensures bvm(m).len() == m.entries@.len(), forall|i: int| 0 <= i < m.entries@.len() ==> #[trigger] bvm(m)[i] == (m.entries@[i].0@, bv(m.entries@[i].1))
{}

/// n elements of an array or map of len are decoded, and rest is what follows them.
#[verifier::opaque]
pub open spec fn arr_so_far(h: H, s0: Seq<u8>, len: u64, n: nat, v: Seq<B>, rest: Seq<u8>) -> bool {
    &&& du64(s0) is Some && du64(s0)->Some_0.0 == len
    &&& pbs(h, s0, du64(s0)->Some_0.1, n) is Some
    &&& pbs(h, s0, du64(s0)->Some_0.1, n)->Some_0.0 == v
    &&& rest == s0.skip(pbs(h, s0, du64(s0)->Some_0.1, n)->Some_0.1 as int)
}
proof fn arr_first(h: H, s0: Seq<u8>, v: Seq<B>, rest: Seq<u8>)
    requires du64(s0) is Some, v.len() == 0, rest == s0.skip(du64(s0)->Some_0.1 as int),
    ensures arr_so_far(h, s0, du64(s0)->Some_0.0, 0, v, rest)
{ reveal(arr_so_far); assert(v =~= seq![]); }
proof fn arr_here(h: H, s0: Seq<u8>, len: u64, n: nat, v: Seq<B>, rest: Seq<u8>)
    requires arr_so_far(h, s0, len, n, v, rest), n < len
    ensures pb(h, rest) is None ==> pb(H::Arr(Box::new(h)), s0) is None
{
    reveal(arr_so_far);
    let k = du64(s0)->Some_0.1;
    if pb(h, rest) is None { 
        assert(pbs(h, s0, k, n + 1) is None);
        lemma_pbs_none(h, s0, k, n + 1, len as nat);
    }
}
proof fn arr_next(h: H, s0: Seq<u8>, len: u64, n: nat, v: Seq<B>, rest: Seq<u8>, v2: Seq<B>, rest2: Seq<u8>)
    requires arr_so_far(h, s0, len, n, v, rest), n < len, v2.len() == v.len() + 1, v2.drop_last() =~= v,
        pb(h, rest) is Some, pb(h, rest)->Some_0.0 == v2.last(), rest2 == rest.skip(pb(h, rest)->Some_0.1 as int),
    ensures arr_so_far(h, s0, len, n + 1, v2, rest2)
{
    broadcast use group_varint;
    reveal(arr_so_far);
    let k = du64(s0)->Some_0.1;
    lemma_valid_arr(h, s0, k, n);
    theorem_decoded_body_is_valid(h, rest);
    assert(v.push(v2.last()) =~= v2);
    assert(rest2 =~= s0.skip(pbs(h, s0, k, n + 1)->Some_0.1 as int));
}
proof fn arr_all(h: H, s0: Seq<u8>, len: u64, v: Seq<B>, rest: Seq<u8>)
    requires arr_so_far(h, s0, len, len as nat, v, rest)
    ensures pb(H::Arr(Box::new(h)), s0) is Some, pb(H::Arr(Box::new(h)), s0)->Some_0.0 == B::Arr(v), rest == s0.skip(pb(H::Arr(Box::new(h)), s0)->Some_0.1 as int),
{ reveal(arr_so_far); }

#[verifier::opaque]
pub open spec fn tup_so_far(hs: Seq<H>, s0: Seq<u8>, n: nat, v: Seq<B>, rest: Seq<u8>) -> bool {
    &&& n <= hs.len()
    &&& pts(hs.take(n as int), s0) is Some
    &&& pts(hs.take(n as int), s0)->Some_0.0 == v
    &&& rest == s0.skip(pts(hs.take(n as int), s0)->Some_0.1 as int)
}
proof fn tup_first(hs: Seq<H>, s0: Seq<u8>, v: Seq<B>)
    requires v.len() == 0
    ensures tup_so_far(hs, s0, 0, v, s0)
{ reveal(tup_so_far); assert(v =~= seq![]); assert(hs.take(0) =~= seq![]); assert(s0.skip(0) =~= s0); }
proof fn tup_here(hs: Seq<H>, s0: Seq<u8>, n: nat, v: Seq<B>, rest: Seq<u8>)
    requires tup_so_far(hs, s0, n, v, rest), n < hs.len()
    ensures pb(hs[n as int], rest) is None ==> pb(H::Tup(hs), s0) is None
{
    reveal(tup_so_far);
    assert(hs.take((n + 1) as int).drop_last() =~= hs.take(n as int));
    if pb(hs[n as int], rest) is None {
        lemma_pts_none(hs, s0, n + 1);
    }
}
proof fn tup_next(hs: Seq<H>, s0: Seq<u8>, n: nat, v: Seq<B>, rest: Seq<u8>, v2: Seq<B>, rest2: Seq<u8>)
    requires tup_so_far(hs, s0, n, v, rest), n < hs.len(), v2.len() == v.len() + 1, v2.drop_last() =~= v,
        pb(hs[n as int], rest) is Some, pb(hs[n as int], rest)->Some_0.0 == v2.last(), rest2 == rest.skip(pb(hs[n as int], rest)->Some_0.1 as int),
    ensures tup_so_far(hs, s0, n + 1, v2, rest2)
{
    reveal(tup_so_far);
    assert(hs.take((n + 1) as int).drop_last() =~= hs.take(n as int));
    lemma_valid_tup(hs.take(n as int), s0);
    theorem_decoded_body_is_valid(hs[n as int], rest);
    assert(v.push(v2.last()) =~= v2);
    assert(rest2 =~= s0.skip(pts(hs.take((n + 1) as int), s0)->Some_0.1 as int));
}
proof fn tup_all(hs: Seq<H>, s0: Seq<u8>, v: Seq<B>, rest: Seq<u8>)
    requires tup_so_far(hs, s0, hs.len(), v, rest)
    ensures pb(H::Tup(hs), s0) is Some, pb(H::Tup(hs), s0)->Some_0.0 == B::Tup(v), rest == s0.skip(pb(H::Tup(hs), s0)->Some_0.1 as int),
{ reveal(tup_so_far); assert(hs.take(hs.len() as int) =~= hs); }

#[verifier::opaque]
pub open spec fn map_so_far(h: H, s0: Seq<u8>, len: u64, n: nat, v: Seq<(Seq<char>, B)>, rest: Seq<u8>) -> bool {
    &&& du64(s0) is Some && du64(s0)->Some_0.0 == len
    &&& pms(h, s0, du64(s0)->Some_0.1, n) is Some
    &&& pms(h, s0, du64(s0)->Some_0.1, n)->Some_0.0 == v
    &&& rest == s0.skip(pms(h, s0, du64(s0)->Some_0.1, n)->Some_0.1 as int)
}
proof fn map_first(h: H, s0: Seq<u8>, v: Seq<(Seq<char>, B)>, rest: Seq<u8>)
    requires du64(s0) is Some, v.len() == 0, rest == s0.skip(du64(s0)->Some_0.1 as int),
    ensures map_so_far(h, s0, du64(s0)->Some_0.0, 0, v, rest)
{ reveal(map_so_far); assert(v =~= seq![]); }
/// Where a value of a map starts, after its key.
pub open spec fn after_key(rest: Seq<u8>) -> Seq<u8> { rest.skip(lp(H::Str, rest)->Some_0.1 as int) }
proof fn map_here(h: H, s0: Seq<u8>, len: u64, n: nat, v: Seq<(Seq<char>, B)>, rest: Seq<u8>)
    requires map_so_far(h, s0, len, n, v, rest), n < len
    ensures lp(H::Str, rest) is None || pb(h, after_key(rest)) is None ==> pb(H::Map(Box::new(h)), s0) is None
{
    broadcast use group_varint;
    reveal(map_so_far);
    let k = du64(s0)->Some_0.1;
    lemma_valid_map(h, s0, k, n);
    lemma_lp(H::Str, rest);
    let o = pms(h, s0, k, n)->Some_0.1;
    if lp(H::Str, rest) is Some {
        assert(after_key(rest) =~= s0.skip((o + lp(H::Str, rest)->Some_0.1) as int));
    }
    if lp(H::Str, rest) is None || pb(h, after_key(rest)) is None {
        assert(pms(h, s0, k, n + 1) is None);
        lemma_pms_none(h, s0, k, n + 1, len as nat);
    }
}
proof fn map_next(h: H, s0: Seq<u8>, len: u64, n: nat, m: BTreeMap<String, Body>, rest: Seq<u8>, m2: BTreeMap<String, Body>, rest2: Seq<u8>, k: Seq<char>, b: B)
    requires map_so_far(h, s0, len, n, bvm(m), rest), n < len,
        lp(H::Str, rest) is Some, lp(H::Str, rest)->Some_0.0 == L::Str(k),
        pb(h, after_key(rest)) is Some, pb(h, after_key(rest))->Some_0.0 == b, rest2 == after_key(rest).skip(pb(h, after_key(rest))->Some_0.1 as int),
        bvm(m2) == put(bvm(m), keys_of(bvm(m)), k, (k, b)),
    ensures map_so_far(h, s0, len, n + 1, bvm(m2), rest2)
{
    broadcast use group_varint;
    reveal(map_so_far);
    let at = du64(s0)->Some_0.1;
    lemma_valid_map(h, s0, at, n);
    lemma_lp(H::Str, rest);
    let o = pms(h, s0, at, n)->Some_0.1;
    assert(after_key(rest) =~= s0.skip((o + lp(H::Str, rest)->Some_0.1) as int));
    theorem_decoded_body_is_valid(h, after_key(rest));
    assert(rest2 =~= s0.skip(pms(h, s0, at, n + 1)->Some_0.1 as int));
}
proof fn map_all(h: H, s0: Seq<u8>, len: u64, v: Seq<(Seq<char>, B)>, rest: Seq<u8>)
    requires map_so_far(h, s0, len, len as nat, v, rest)
    ensures pb(H::Map(Box::new(h)), s0) is Some, pb(H::Map(Box::new(h)), s0)->Some_0.0 == B::Map(v), rest == s0.skip(pb(H::Map(Box::new(h)), s0)->Some_0.1 as int),
{ reveal(map_so_far); }

/// What insert does to the entries, and to what they are.
proof fn lemma_put(m: BTreeMap<String, Body>, m2: BTreeMap<String, Body>, k: Seq<char>, b: B)
    requires exists|key: String, value: Body| key@ == k && bv(value) == b && #[trigger] inserted(m, m2, key, value)
    ensures bvm(m2) == put(bvm(m), keys_of(bvm(m)), k, (k, b))
{
    let (key, value) = choose|key: String, value: Body| key@ == k && bv(value) == b && #[trigger] inserted(m, m2, key, value);
    assert(keys_of(bvm(m)) =~= m.keys());
    lemma_place(m.keys(), k);
    assert(bvm(m2) =~= put(bvm(m), keys_of(bvm(m)), k, (k, b)));
}

//@rewrite -> Result<Self, crate::de::Error> => -> Result<Body, Error>
//@rewrite ByteBuf::deserialize($d:ident).map(|$v:ident| Self::$c:ident($v:ident)) => (match ByteBuf::deserialize($d) { Ok(v_) => Ok(Self::$c(v_)), Err(e_) => Err(e_) })
//@rewrite $t:ident::deserialize($d:ident).map(Self::$c:ident) => (match $t::deserialize($d) { Ok(v_) => Ok(Self::$c(v_)), Err(e_) => Err(e_) })
//@rewrite $a:ident.min($b) => min_u64($a, $b)
//@rewrite Vec::with_capacity(inner.len()) => Vec::new()
//@rewrite Vec::with_capacity($n) => bounded_vec($n)
//@rewrite String::with_capacity($n) => bounded_string($n)
//@rewrite $v:ident.reserve($n) => $v.bounded_reserve($n)
//@rewrite $v:ident.reserve_exact($n) => $v.bounded_reserve($n)
//@rewrite for _ in 0..$n { => for i_ in 0..$n {
//@rewrite for $x:ident in inner.iter() { => for $x in it_: inner.iter() {
//@rewrite $h:ident.iter().zip($b:ident).all(|(header, body)| $e) => { let mut all_ = true; for i_ in 0..$h.len() { if all_ { let header = &$h[i_]; let body = &$b[i_]; all_ = $e; } } all_ }
//@rewrite $x:ident.iter().all(|$v:ident| $e) => { let mut all_ = true; for i_ in 0..$x.len() { if all_ { let $v = &$x[i_]; all_ = $e; } } all_ }
//@rewrite $x:ident.values().all(|$v:ident| $e) => { let mut all_ = true; for i_ in 0..$x.entries.len() { if all_ { let $v = &$x.entries[i_].1; all_ = $e; } } all_ }
//@impl dlhn/src/body/mod.rs :: impl Body
//@fn deserialize
    ensures
        match pb(hv(*header), old(deserializer).rest()) {
            Some((b, n)) => r is Ok && bv(r->Ok_0) == b && final(deserializer).rest() == old(deserializer).rest().skip(n as int),
            None => r is Err,
        },
    decreases *header
//@attr #[verifier::loop_isolation(false)] #[verifier::rlimit(60)]
//@start
    hide(pb); hide(lp);
    broadcast use {group_varint, vstd::seq_lib::lemma_seq_skip_of_skip};
    let ghost s0 = deserializer.rest();
    proof { lemma_pb_step(hv(*header), s0); assert(s0.skip(0) =~= s0); lemma_hv(*header); }
//@before 1
    proof { arr_first(hv(**inner), s0, bvs(buf), deserializer.rest()); }
//@loop 1
    invariant
    @for arr_so_far(hv(**inner), s0, len as u64, i_ as nat, bvs(buf), deserializer.rest()),
    @while arr_so_far(hv(**inner), s0, len as u64, $w as nat, bvs(buf), deserializer.rest()), $w <= len,
    @while decreases len - $w,
//@loopbody 1
    @for let ghost k_ = i_ as nat;
    @while let ghost k_ = $w as nat;
    let ghost (v1, r1) = (buf, deserializer.rest());
    proof { arr_here(hv(**inner), s0, len as u64, k_, bvs(v1), r1); }
//@loopend 1
    proof {
        assert(bvs(buf).drop_last() =~= bvs(v1));
        arr_next(hv(**inner), s0, len as u64, k_, bvs(v1), r1, bvs(buf), deserializer.rest());
    }
//@after 1
    proof { arr_all(hv(**inner), s0, len as u64, bvs(buf), deserializer.rest()); }
//@before 2
    let ghost (all, hs) = (inner@, hvs(*inner));
    proof { assert(forall|i: int| 0 <= i < all.len() ==> #[trigger] hs[i] == hv(all[i])); tup_first(hs, s0, bvs(buf)); }
//@loop 2
    invariant
        tup_so_far(hs, s0, it_.index() as nat, bvs(buf), deserializer.rest()),
        it_.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> *(#[trigger] it_.seq()[i]) == all[i],
//@loopbody 2
    let ghost (v1, r1) = (buf, deserializer.rest());
    proof { tup_here(hs, s0, it_.index() as nat, bvs(v1), r1); }
//@loopend 2
    proof {
        assert(bvs(buf).drop_last() =~= bvs(v1));
        tup_next(hs, s0, it_.index() as nat, bvs(v1), r1, bvs(buf), deserializer.rest());
    }
//@after 2
    proof { tup_all(hs, s0, bvs(buf), deserializer.rest()); }
//@before 3
    proof { map_first(hv(**inner), s0, bvm(buf), deserializer.rest()); }
//@loop 3
    invariant
    @for map_so_far(hv(**inner), s0, len as u64, i_ as nat, bvm(buf), deserializer.rest()),
    @while map_so_far(hv(**inner), s0, len as u64, $w as nat, bvm(buf), deserializer.rest()), $w <= len,
    @while decreases len - $w,
//@loopbody 3
    @for let ghost k_ = i_ as nat;
    @while let ghost k_ = $w as nat;
    let ghost (v1, r1) = (buf, deserializer.rest());
    proof { lemma_pb_step(H::Unit, r1); map_here(hv(**inner), s0, len as u64, k_, bvm(v1), r1); }
//@loopend 3
    proof {
        let k = lp(H::Str, r1)->Some_0.0->Str_0;
        let b = pb(hv(**inner), after_key(r1))->Some_0.0;
        lemma_put(v1, buf, k, b);
        map_next(hv(**inner), s0, len as u64, k_, v1, r1, buf, deserializer.rest(), k, b);
    }
//@after 3
    proof { map_all(hv(**inner), s0, len as u64, bvm(buf), deserializer.rest()); }
//@fn validate
    ensures r == valid(hv(*header), bv(*self))
    decreases *self
//@attr #[verifier::loop_isolation(false)] #[verifier::rlimit(60)]
//@start
    hide(valid);
    proof { lemma_valid_step(hv(*header), bv(*self)); lemma_hv(*header); }
//@before 1
    let ghost (x, v) = (hv(**inner_header), bvs(*inner_body));
    proof { lemma_bvs(*inner_body); lemma_valid_none(x, seq![], v, seq![]); }
//@loop 1
    invariant all_ == valid_all(x, v.take(i_ as int)),
//@loopend 1
    proof { lemma_valid_all_step(x, v, i_ as int); }
//@before 2
    let ghost (hs, v) = (hvs(*inner_headers), bvs(*inner_bodies));
    proof { lemma_bvs(*inner_bodies); lemma_valid_none(H::Unit, hs, v, seq![]); }
//@loop 2
    invariant all_ == valid_each(hs.take(i_ as int), v.take(i_ as int)),
//@loopend 2
    proof { lemma_valid_each_step(hs, v, i_ as int); }
//@before 3
    let ghost (x, m) = (hv(**inner_header), bvm(*inner_body));
    proof { lemma_bvm(*inner_body); lemma_valid_none(x, seq![], seq![], m); }
//@loop 3
    invariant all_ == valid_values(x, m.take(i_ as int)),
//@loopend 3
    proof { lemma_valid_values_step(x, m, i_ as int); }
//@end
//@norewrites
}
