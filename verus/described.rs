/// That the header of a type describes the bytes of its values: for every type that has a header and a serialization.
pub mod described {
use super::*;
use super::varint::*;
use super::header_spec::*;
use super::value_spec::*;
use super::body_lemmas::*;
use super::enc_spec::*;
use super::leaf::Leaf;
use super::btree::*;
use super::io_spec::AsRefStr;
use super::date::*; use super::date_time::*; use super::big::*;
use super::header::ser::SerializeHeader;
use vstd::float::FloatBitsProperties;

/// The bytes decode to b under h, whatever follows them, and are what b has: in the same order too, if said so.
pub open spec fn shows(h: H, b: B, e: Option<Seq<u8>>, t: Seq<u8>, ordered: bool) -> bool {
    e is Some ==> {
        &&& pb(h, e->Some_0 + t) == Some((b, e->Some_0.len()))
        &&& bb(b).len() == e->Some_0.len()
        &&& ordered ==> bb(b) == e->Some_0
    }
}
pub trait Described: Enc + SerializeHeader {
    /// The dynamic value that a value is.
    spec fn body(&self) -> B;
    /// What every value of the type is: lengths fit, the keys of a map are in order, or are distinct.
    spec fn fine(&self) -> bool;
    /// There is no hash map in it.
    spec fn ordered() -> bool;
    proof fn described(&self, t: Seq<u8>)
        requires self.fine()
        ensures shows(Self::hdr(), self.body(), self.enc(), t, Self::ordered());
    /// The format can express the header.
    proof fn expressible()
        ensures wf(Self::hdr());
}
/// C11: the header that is written for a type decodes, and under it so do the bytes of every value that can be
/// written, to a body that validates, consumes exactly them and has the same bytes again.
pub proof fn theorem_header_describes<T: Described + ?Sized>(x: &T, t: Seq<u8>, u: Seq<u8>)
    requires x.fine(), x.enc() is Some
    ensures ({
        let (h, e) = (T::hdr(), x.enc()->Some_0);
        &&& ph(hb(h) + t) == Some((h, hb(h).len()))
        &&& pb(h, e + u) == Some((x.body(), e.len()))
        &&& valid(h, x.body()) && wb(x.body())
        &&& T::ordered() ==> bb(x.body()) == e
        &&& bb(x.body()).len() == e.len()
        &&& pb(h, bb(x.body()) + u) == Some((x.body(), e.len()))
    })
{
    T::expressible();
    theorem_header_round_trip(T::hdr(), t);
    x.described(u);
    theorem_decoded_body_is_valid(T::hdr(), x.enc()->Some_0 + u);
    theorem_decoded_body_is_good(T::hdr(), x.enc()->Some_0 + u);
    theorem_body_round_trip(T::hdr(), x.body(), u);
}
/// C11: truncated bytes of a value decode to nothing under its header.
pub proof fn theorem_truncated<T: Described + ?Sized>(x: &T, n: nat)
    requires x.fine(), x.enc() is Some, n < x.enc()->Some_0.len()
    ensures pb(T::hdr(), x.enc()->Some_0.take(n as int)) is None
{
    let e = x.enc()->Some_0;
    x.described(seq![]);
    assert(e + seq![] =~= e);
    if pb(T::hdr(), e.take(n as int)) is Some {
        lemma_pb_more(T::hdr(), e.take(n as int), e.skip(n as int));
        theorem_decoded_body_is_valid(T::hdr(), e.take(n as int));
        assert(e.take(n as int) + e.skip(n as int) =~= e);
    }
}
proof fn lemma_leaf(l: L, t: Seq<u8>)
    requires wl(l)
    ensures shows(kind(l), B::Leaf(l), Some(lb(l)), t, true)
{ theorem_leaf_round_trip(l, t); }
impl Described for bool {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for i8 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for i16 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for i32 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for i64 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for u8 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for u16 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for u32 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for u64 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for f32 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for f64 {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for String {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for ByteBuf {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for BigUint {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for BigInt {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for BigDecimal {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for Date {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for DateTime {
    open spec fn body(&self) -> B { B::Leaf((*self).leaf()) }
    open spec fn fine(&self) -> bool { wl((*self).leaf()) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf((*self).leaf(), t); }
    proof fn expressible() {}
}
impl Described for &str {
    open spec fn body(&self) -> B { B::Leaf(L::Str(self@)) }
    open spec fn fine(&self) -> bool { wl(L::Str(self@)) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf(L::Str(self@), t); }
    proof fn expressible() {}
}
impl Described for Bytes {
    open spec fn body(&self) -> B { B::Leaf(L::Bin(self.bytes@)) }
    open spec fn fine(&self) -> bool { wl(L::Bin(self.bytes@)) }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) { lemma_leaf(L::Bin(self.bytes@), t); }
    proof fn expressible() {}
}
impl Described for () {
    open spec fn body(&self) -> B { B::Unit }
    open spec fn fine(&self) -> bool { true }
    open spec fn ordered() -> bool { true }
    proof fn described(&self, t: Seq<u8>) {}
    proof fn expressible() {}
}
impl<T: Described> Described for Option<T> {
    open spec fn body(&self) -> B { match *self { None => B::None, Some(x) => B::Some(Box::new(x.body())) } }
    open spec fn fine(&self) -> bool { *self matches Some(x) ==> x.fine() }
    open spec fn ordered() -> bool { T::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        if self.enc() is Some {
            let s = self.enc()->Some_0 + t;
            match *self {
                None => { assert(s[0] == 0); }
                Some(x) => {
                    x.described(t);
                    assert(s[0] == 1);
                    assert(s.skip(1) =~= x.enc()->Some_0 + t);
                }
            }
        }
    }
    proof fn expressible() { T::expressible(); }
}
pub proof fn lemma_some(es: Seq<Option<Seq<u8>>>, i: int)
    requires 0 <= i < es.len()
    ensures all(es) is Some ==> es[i] is Some
    decreases es.len()
{ if i < es.len() - 1 { lemma_some(es.drop_last(), i); } }
proof fn lemma_both(a: Option<Seq<u8>>, b: Option<Seq<u8>>)
    ensures all(seq![a, b]) == both(a, b)
{
    let s = seq![a, b];
    assert(s.drop_last() =~= seq![a]);
    assert(s.drop_last().drop_last() =~= seq![]);
    reveal_with_fuel(all, 3);
    if a is Some { assert(seq![] + a->Some_0 =~= a->Some_0); }
}
proof fn lemma_wfs(hs: Seq<H>)
    requires forall|i: int| 0 <= i < hs.len() ==> wf(#[trigger] hs[i])
    ensures wfs(hs)
    decreases hs.len()
{ if hs.len() > 0 { lemma_wfs(hs.drop_last()); } }
/// The bytes show the value whatever follows them.
#[verifier::opaque]
pub open spec fn shown(h: H, b: B, e: Option<Seq<u8>>, ordered: bool) -> bool { forall|t: Seq<u8>| #[trigger] shows(h, b, e, t, ordered) }
proof fn lemma_part<T: Described>(x: &T, ordered: bool)
    requires x.fine(), ordered ==> T::ordered()
    ensures shown(T::hdr(), x.body(), x.enc(), ordered)
{
    reveal(shown);
    assert forall|t: Seq<u8>| #[trigger] shows(T::hdr(), x.body(), x.enc(), t, ordered) by { x.described(t); }
}
/// Parts one after another, each under a header of its own.
proof fn lemma_tuple(hs: Seq<H>, bs: Seq<B>, es: Seq<Option<Seq<u8>>>, ordered: bool, t: Seq<u8>)
    requires hs.len() == bs.len() == es.len(), forall|i: int| 0 <= i < hs.len() ==> #[trigger] shown(hs[i], bs[i], es[i], ordered)
    ensures all(es) is Some ==> pts(hs, all(es)->Some_0 + t) == Some((bs, all(es)->Some_0.len())) && bbs(bs).len() == all(es)->Some_0.len()
        && (ordered ==> bbs(bs) == all(es)->Some_0)
    decreases hs.len()
{
    if hs.len() == 0 {
        assert(bs =~= seq![]);
    } else if all(es) is Some {
        let (h, b, e) = (hs.last(), bs.last(), es.last()->Some_0);
        let a = all(es.drop_last())->Some_0;
        let n = hs.len() - 1;
        assert forall|i: int| 0 <= i < hs.len() - 1 implies #[trigger] shown(hs.drop_last()[i], bs.drop_last()[i], es.drop_last()[i], ordered) by {
            assert(shown(hs[i], bs[i], es[i], ordered));
        }
        reveal(shown);
        lemma_tuple(hs.drop_last(), bs.drop_last(), es.drop_last(), ordered, e + t);
        assert(shown(hs[n], bs[n], es[n], ordered));
        assert(shows(hs[n], bs[n], es[n], t, ordered));
        assert(a + e + t =~= a + (e + t));
        assert((a + (e + t)).skip(a.len() as int) =~= e + t);
        assert(bs.drop_last().push(b) =~= bs);
    }
}
proof fn lemma_array<T: Described>(v: Seq<T>, s: Seq<u8>, at: nat, t: Seq<u8>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).fine(), all(encs(v)) is Some, at <= s.len(), s.skip(at as int) == all(encs(v))->Some_0 + t
    ensures pbs(T::hdr(), s, at, v.len()) == Some((Seq::new(v.len(), |i: int| v[i].body()), at + all(encs(v))->Some_0.len())),
        bbs(Seq::new(v.len(), |i: int| v[i].body())).len() == all(encs(v))->Some_0.len(),
        T::ordered() ==> bbs(Seq::new(v.len(), |i: int| v[i].body())) == all(encs(v))->Some_0
    decreases v.len()
{
    let bs = Seq::new(v.len(), |i: int| v[i].body());
    if v.len() == 0 {
        assert(bs =~= seq![]);
    } else {
        let (w, x) = (v.drop_last(), v.last());
        let ws = Seq::new(w.len(), |i: int| w[i].body());
        assert(encs(v).drop_last() =~= encs(w));
        assert(encs(v).last() == x.enc());
        let (a, e) = (all(encs(w))->Some_0, x.enc()->Some_0);
        assert(a + e + t =~= a + (e + t));
        lemma_array(w, s, at, e + t);
        assert(s.skip((at + a.len()) as int) =~= s.skip(at as int).skip(a.len() as int));
        assert(s.skip((at + a.len()) as int) =~= e + t);
        x.described(t);
        assert(ws.push(x.body()) =~= bs);
        assert(bs.drop_last() =~= ws);
    }
}
impl<T: Described> Described for Vec<T> {
    open spec fn body(&self) -> B { B::Arr(Seq::new(self@.len(), |i: int| self@[i].body())) }
    open spec fn fine(&self) -> bool { self@.len() <= u64::MAX && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fine() }
    open spec fn ordered() -> bool { T::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        if self.enc() is Some {
            let (c, e) = (vu64(self@.len() as u64), all(encs(self@))->Some_0);
            let s = self.enc()->Some_0 + t;
            assert(s =~= c + (e + t));
            lemma_vu64(self@.len() as u64, e + t);
            assert(s.skip(c.len() as int) =~= e + t);
            lemma_array(self@, s, c.len(), t);
        }
    }
    proof fn expressible() { T::expressible(); }
}
pub open spec fn entries_of<K: Enc, V: Described>(v: Seq<(K, V)>) -> Seq<(Seq<char>, B)> {
    Seq::new(v.len(), |i: int| (v[i].0.key()->Some_0, v[i].1.body()))
}
/// The entries in the order of the keys.
pub open spec fn sorted(m: Seq<(Seq<char>, B)>) -> Seq<(Seq<char>, B)>
    decreases m.len()
{
    if m.len() == 0 { m } else {
        let w = sorted(m.drop_last());
        put(w, keys_of(w), m.last().0, m.last())
    }
}
/// The bytes of the last entry come last.
proof fn lemma_pairs_step<K: Enc, V: Described>(v: Seq<(K, V)>)
    requires v.len() > 0
    ensures
        all(pairs(v)) is Some <==> all(pairs(v.drop_last())) is Some && v.last().0.key() is Some && v.last().1.enc() is Some,
        all(pairs(v)) is Some ==> all(pairs(v))->Some_0 == all(pairs(v.drop_last()))->Some_0 + lb(L::Str(v.last().0.key()->Some_0)) + v.last().1.enc()->Some_0,
{
    let p = pairs(v);
    let q = p.drop_last();
    let n = v.len() as int;
    assert((2 * n - 1) % 2 == 1 && (2 * n - 1) / 2 == n - 1 && (2 * n - 2) % 2 == 0 && (2 * n - 2) / 2 == n - 1);
    assert(p.last() == p[2 * n - 1]); assert(p[2 * n - 1] == v[n - 1].1.enc());
    assert(q.last() == p[2 * n - 2]); assert(p[2 * n - 2] == key_enc(v[n - 1].0));
    assert(q.drop_last() =~= pairs(v.drop_last()));
    let w = pairs(v.drop_last());
    assert(all(q) == match (all(w), key_enc(v[n - 1].0)) { (Some(a), Some(b)) => Some(a + b), _ => None });
    assert(all(p) == match (all(q), v.last().1.enc()) { (Some(a), Some(b)) => Some(a + b), _ => None });
}
pub open spec fn fine_entries<K: Enc, V: Described>(v: Seq<(K, V)>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]).0.key() matches Some(k) ==> wl(L::Str(k))) && v[i].1.fine()
}
proof fn lemma_pms_step(h: H, s: Seq<u8>, at: nat, count: nat, e: Seq<(Seq<char>, B)>, n: nat, k: Seq<char>, m: nat, b: B, j: nat)
    requires pms(h, s, at, count) == Some((e, n)), lp(H::Str, s.skip(n as int)) == Some((L::Str(k), m)), pb(h, s.skip((n + m) as int)) == Some((b, j))
    ensures pms(h, s, at, count + 1) == Some((put(e, keys_of(e), k, (k, b)), n + m + j))
{}
proof fn lemma_map<K: Enc, V: Described>(v: Seq<(K, V)>, s: Seq<u8>, at: nat, t: Seq<u8>)
    requires fine_entries(v), all(pairs(v)) is Some, at <= s.len(), s.skip(at as int) == all(pairs(v))->Some_0 + t
    ensures pms(V::hdr(), s, at, v.len()) == Some((sorted(entries_of(v)), at + all(pairs(v))->Some_0.len()))
    decreases v.len()
{
    hide(pb); hide(lp); hide(put); hide(lb); hide(pairs);
    if v.len() == 0 {
        assert(entries_of(v) =~= seq![]);
        assert(pairs(v) =~= seq![]) by { reveal(pairs); }
        assert(pms(V::hdr(), s, at, v.len()) == Some((sorted(entries_of(v)), at)));
    } else {
        let (w, x) = (v.drop_last(), v.last());
        lemma_pairs_step(v);
        let (a, kb, e) = (all(pairs(w))->Some_0, lb(L::Str(x.0.key()->Some_0)), x.1.enc()->Some_0);
        assert(s.skip(at as int) =~= a + (kb + (e + t)));
        lemma_map(w, s, at, kb + (e + t));
        let n = at + a.len();
        assert(s.skip(n as int) =~= s.skip(at as int).skip(a.len() as int));
        assert(s.skip(n as int) =~= kb + (e + t));
        theorem_leaf_round_trip(L::Str(x.0.key()->Some_0), e + t);
        assert(s.skip((n + kb.len()) as int) =~= s.skip(n as int).skip(kb.len() as int));
        assert(s.skip((n + kb.len()) as int) =~= e + t);
        x.1.described(t);
        assert(entries_of(v).drop_last() =~= entries_of(w));
        let k = x.0.key()->Some_0;
        assert(lp(H::Str, s.skip(n as int)) == Some((L::Str(k), kb.len())));
        assert(pb(V::hdr(), s.skip((n + kb.len()) as int)) == Some((x.1.body(), e.len())));
        assert(entries_of(v).last() == (k, x.1.body()));
        assert(pms(V::hdr(), s, at, w.len()) == Some((sorted(entries_of(w)), n)));
        assert(all(pairs(v))->Some_0.len() == a.len() + kb.len() + e.len());
        let ew = sorted(entries_of(w));
        assert(sorted(entries_of(v)) == put(ew, keys_of(ew), k, (k, x.1.body())));
        lemma_pms_step(V::hdr(), s, at, w.len(), ew, n, k, kb.len(), x.1.body(), e.len());
    }
}
/// Entries whose keys are in order stay as they are.
proof fn lemma_sorted(m: Seq<(Seq<char>, B)>)
    requires forall|i: int, j: int| 0 <= i < j < m.len() ==> less(#[trigger] m[i].0, #[trigger] m[j].0)
    ensures sorted(m) == m
    decreases m.len()
{
    if m.len() > 0 {
        let w = m.drop_last();
        lemma_sorted(w);
        if w.len() > 0 { assert(less(m[w.len() - 1].0, m[w.len() as int].0)); assert(keys_of(w).last() == m[w.len() - 1].0); }
        assert(put(w, keys_of(w), m.last().0, m.last()) =~= m);
    }
}
/// Entries with different keys are all there, in whatever order.
proof fn lemma_permuted(m: Seq<(Seq<char>, B)>)
    requires forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0 != (#[trigger] m[j]).0
    ensures sorted(m).to_multiset() == m.to_multiset(), sorted(m).len() == m.len(), bms(sorted(m)).len() == bms(m).len()
    decreases m.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if m.len() > 0 {
        let (w, x) = (m.drop_last(), m.last());
        lemma_permuted(w);
        let v = sorted(w);
        let p = place(keys_of(v), x.0) as int;
        lemma_place_bound(keys_of(v), x.0);
        if p < v.len() && v[p].0 == x.0 {
            assert(v.to_multiset().contains(v[p]));
            assert(w.to_multiset().contains(v[p]));
            assert(w.contains(v[p]));
            let i = choose|i: int| 0 <= i < w.len() && w[i] == v[p];
            assert(m[i].0 != m[m.len() - 1].0);
            assert(false);
        }
        assert(sorted(m) == v.insert(p, x));
        assert(m =~= w.push(x));
        lemma_bms_insert(v, p, x);
        assert(bms(m).len() == bms(w).len() + lb(L::Str(x.0)).len() + bb(x.1).len());
    }
}
proof fn lemma_place_bound(keys: Seq<Seq<char>>, k: Seq<char>)
    ensures place(keys, k) <= keys.len()
    decreases keys.len()
{ if keys.len() > 0 { lemma_place_bound(keys.drop_last(), k); } }
proof fn lemma_bms_insert(v: Seq<(Seq<char>, B)>, p: int, x: (Seq<char>, B))
    requires 0 <= p <= v.len()
    ensures bms(v.insert(p, x)).len() == bms(v).len() + lb(L::Str(x.0)).len() + bb(x.1).len()
    decreases v.len()
{
    let u = v.insert(p, x);
    if p == v.len() {
        assert(u.drop_last() =~= v);
    } else {
        assert(u.drop_last() =~= v.drop_last().insert(p, x));
        assert(u.last() == v.last());
        lemma_bms_insert(v.drop_last(), p, x);
    }
}
proof fn lemma_map_bytes<K: Enc, V: Described>(v: Seq<(K, V)>)
    requires fine_entries(v), all(pairs(v)) is Some
    ensures bms(entries_of(v)).len() == all(pairs(v))->Some_0.len(), V::ordered() ==> bms(entries_of(v)) == all(pairs(v))->Some_0
    decreases v.len()
{
    if v.len() > 0 {
        lemma_pairs_step(v);
        lemma_map_bytes(v.drop_last());
        assert(entries_of(v).drop_last() =~= entries_of(v.drop_last()));
        v.last().1.described(seq![]);
        let (a, k, e) = (all(pairs(v.drop_last()))->Some_0, lb(L::Str(v.last().0.key()->Some_0)), v.last().1.enc()->Some_0);
        assert(a + k + e =~= a + (k + e));
    } else {
        assert(entries_of(v) =~= seq![]);
        assert(pairs(v) =~= seq![]);
    }
}
proof fn lemma_count<K: Enc, V: Described>(v: Seq<(K, V)>, t: Seq<u8>)
    requires fine_entries(v), v.len() <= u64::MAX, all(pairs(v)) is Some
    ensures ({
        let e = vu64(v.len() as u64) + all(pairs(v))->Some_0;
        pb(H::Map(Box::new(V::hdr())), e + t) == Some((B::Map(sorted(entries_of(v))), e.len()))
    })
{
    let (c, e) = (vu64(v.len() as u64), all(pairs(v))->Some_0);
    let s = c + e + t;
    assert(s =~= c + (e + t));
    lemma_vu64(v.len() as u64, e + t);
    assert(s.skip(c.len() as int) =~= e + t);
    lemma_map(v, s, c.len(), t);
}
impl<K: AsRefStr + Enc, V: Described> Described for BTreeMap<K, V> {
    open spec fn body(&self) -> B { B::Map(entries_of(self.entries@)) }
    open spec fn fine(&self) -> bool {
        &&& self.entries@.len() <= u64::MAX && fine_entries(self.entries@)
        &&& forall|i: int, j: int| 0 <= i < j < self.entries@.len() ==> less(#[trigger] entries_of(self.entries@)[i].0, #[trigger] entries_of(self.entries@)[j].0)
    }
    open spec fn ordered() -> bool { V::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        if self.enc() is Some {
            let v = self.entries@;
            lemma_count(v, t);
            lemma_sorted(entries_of(v));
            lemma_map_bytes(v);
        }
    }
    proof fn expressible() { V::expressible(); }
}
impl<K: AsRefStr + Enc, V: Described> Described for HashMap<K, V> {
    open spec fn body(&self) -> B { B::Map(sorted(entries_of(self.entries@))) }
    open spec fn fine(&self) -> bool {
        &&& self.entries@.len() <= u64::MAX && fine_entries(self.entries@)
        &&& forall|i: int, j: int| 0 <= i < j < self.entries@.len() ==> (#[trigger] entries_of(self.entries@)[i]).0 != (#[trigger] entries_of(self.entries@)[j]).0
    }
    open spec fn ordered() -> bool { false }
    proof fn described(&self, t: Seq<u8>) {
        if self.enc() is Some {
            let v = self.entries@;
            lemma_count(v, t);
            lemma_permuted(entries_of(v));
            lemma_map_bytes(v);
        }
    }
    proof fn expressible() { V::expressible(); }
}
/// C11: what is decoded of a hash map has the same entries.
pub proof fn theorem_hash_map_entries<K: AsRefStr + Enc, V: Described>(x: &HashMap<K, V>)
    requires x.fine()
    ensures x.body() matches B::Map(m) && m.to_multiset() == entries_of(x.entries@).to_multiset()
{ lemma_permuted(entries_of(x.entries@)); }
//@include described_tuples.rs

/// C12: a struct whose serialized fields are shown by their headers, in declaration order, is shown by the header of a
/// derived struct: all of serialize_struct, serialize_tuple_struct and serialize_newtype_struct write the fields
/// one after another (u3_ser), and the derived header is the tuple of their headers (u7_derive).
pub proof fn theorem_derived_struct(hs: Seq<H>, bs: Seq<B>, es: Seq<Option<Seq<u8>>>, ordered: bool)
    requires hs.len() == bs.len() == es.len(), forall|i: int| 0 <= i < hs.len() ==> #[trigger] shown(hs[i], bs[i], es[i], ordered)
    ensures shown(H::Tup(hs), B::Tup(bs), all(es), ordered)
{
    reveal(shown);
    assert forall|t: Seq<u8>| #[trigger] shows(H::Tup(hs), B::Tup(bs), all(es), t, ordered) by { lemma_tuple(hs, bs, es, ordered, t); }
}
/// C12: a variant that carries what its header shows, nothing, a value or several, behind the index that serde writes,
/// is shown by the header of a derived enum, as long as the index is that of the header: no variant before it is left out.
pub proof fn theorem_derived_variant(hs: Seq<H>, i: u32, b: B, e: Option<Seq<u8>>, ordered: bool)
    requires i < hs.len(), shown(hs[i as int], b, e, ordered)
    ensures shown(H::Enum(hs), B::Enum(i, Box::new(b)), pre(vu32(i), e), ordered)
{
    reveal(shown);
    assert forall|t: Seq<u8>| #[trigger] shows(H::Enum(hs), B::Enum(i, Box::new(b)), pre(vu32(i), e), t, ordered) by {
        assert(shows(hs[i as int], b, e, t, ordered));
        if e is Some {
            let k = vu32(i);
            let s = k + e->Some_0 + t;
            assert(s =~= k + (e->Some_0 + t));
            lemma_vu32(i, e->Some_0 + t);
            assert(s.skip(k.len() as int) =~= e->Some_0 + t);
        }
    }
}
/// C12: a unit variant carries nothing, and one with several fields carries them like a struct does.
pub proof fn theorem_derived_unit(ordered: bool)
    ensures shown(H::Unit, B::Unit, Some(seq![]), ordered)
{
    reveal(shown);
    assert forall|t: Seq<u8>| #[trigger] shows(H::Unit, B::Unit, Some(seq![]), t, ordered) by { assert(seq![] + t =~= t); }
}
/// C12: what is shown decodes under its header to a body that validates, takes exactly its bytes and has the same
/// bytes again.
pub proof fn theorem_derived_describes(h: H, b: B, e: Seq<u8>, ordered: bool, t: Seq<u8>, u: Seq<u8>)
    requires wf(h), shown(h, b, Some(e), ordered)
    ensures
        ph(hb(h) + t) == Some((h, hb(h).len())),
        pb(h, e + u) == Some((b, e.len())),
        valid(h, b) && wb(b),
        bb(b).len() == e.len() && (ordered ==> bb(b) == e),
        pb(h, bb(b) + u) == Some((b, e.len())),
{
    reveal(shown);
    assert(shows(h, b, Some(e), u, ordered));
    theorem_header_round_trip(h, t);
    theorem_decoded_body_is_valid(h, e + u);
    theorem_decoded_body_is_good(h, e + u);
    theorem_body_round_trip(h, b, u);
}
}
