/// What the bytes of values and what they decode to have to do with each other, for all types that the units know.
pub mod codec {
use super::*;
use super::varint::*;
use super::header_spec::H;
use super::value_spec::*;
use super::enc_spec::*;
use super::de_spec::*;
use super::de_glue::*;
use super::leaf::*;
use super::btree::*;
use super::stand_ins::*;
use super::date::*; use super::date_time::*; use super::big::*;
use super::serde::de::Deserialize;
use vstd::float::FloatBitsProperties;

pub trait Codec: Enc + Deserialize {
    /// What every value of the type is: lengths fit, the keys of a map are in order.
    spec fn good(self) -> bool;
    /// The bytes of a value decode to it and are used up, whatever follows.
    proof fn round_trip(self, t: Seq<u8>)
        requires self.good(), self.enc() is Some
        ensures Self::parse(self.enc()->Some_0 + t) == Some((self.out(), self.enc()->Some_0.len()));
    /// What decodes is there, and what follows does not matter.
    proof fn more(s: Seq<u8>, t: Seq<u8>)
        requires Self::parse(s) is Some
        ensures Self::parse(s + t) == Self::parse(s), Self::parse(s)->Some_0.1 <= s.len();
    /// Every value that can be written: what is not good or not written is one that has no bytes.
    proof fn written(self)
        requires self.good()
        ensures self.enc() is Some;
}
/// No proper prefix of the bytes of a value is one of the type: decoding fails on it.
pub proof fn theorem_prefix_fails<T: Codec>(x: T, n: nat)
    requires x.good(), x.enc() is Some, n < x.enc()->Some_0.len()
    ensures T::parse(x.enc()->Some_0.take(n as int)) is None
{
    let e = x.enc()->Some_0;
    x.round_trip(seq![]);
    assert(e + seq![] =~= e);
    if T::parse(e.take(n as int)) is Some {
        T::more(e.take(n as int), e.skip(n as int));
        assert(e.take(n as int) + e.skip(n as int) =~= e);
    }
}
/// Values of a type with the same bytes decode to the same: no two different ones share theirs.
pub proof fn theorem_injective<T: Codec>(x: T, y: T)
    requires x.good(), y.good(), x.enc() is Some, x.enc() == y.enc()
    ensures x.out() == y.out()
{
    x.round_trip(seq![]);
    y.round_trip(seq![]);
}
impl Codec for bool {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for i8 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for i16 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for i32 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for i64 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for u8 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for u16 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for u32 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for u64 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for f32 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for f64 {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for String {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for ByteBuf {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for BigUint {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for BigInt {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for BigDecimal {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for Date {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
impl Codec for DateTime {
    open spec fn good(self) -> bool { wl(self.leaf()) }
    proof fn round_trip(self, t: Seq<u8>) { theorem_leaf_round_trip(self.leaf(), t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(Self::knd(), s); lemma_lp_more(Self::knd(), s, t); }
    proof fn written(self) {}
}
/// The bytes of a character.
pub proof fn lemma_char(c: char)
    ensures vstd::utf8::encode_utf8(seq![c]).len() <= 4
{
    let s = seq![c];
    assert(s.drop_first() =~= seq![]);
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    assert(vstd::utf8::encode_utf8(s) == vstd::utf8::encode_scalar(c as u32) + vstd::utf8::encode_utf8(s.drop_first()));
}
impl Codec for char {
    open spec fn good(self) -> bool { true }
    proof fn round_trip(self, t: Seq<u8>) {
        lemma_char(self);
        theorem_leaf_round_trip(L::Str(seq![self]), t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_lp(H::Str, s); lemma_lp_more(H::Str, s, t); }
    proof fn written(self) {}
}
impl Codec for () {
    open spec fn good(self) -> bool { true }
    proof fn round_trip(self, t: Seq<u8>) {}
    proof fn more(s: Seq<u8>, t: Seq<u8>) {}
    proof fn written(self) {}
}
impl<T: Codec> Codec for Box<T> {
    open spec fn good(self) -> bool { (*self).good() }
    proof fn round_trip(self, t: Seq<u8>) { (*self).round_trip(t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { T::more(s, t); }
    proof fn written(self) { (*self).written(); }
}
impl<T: Codec> Codec for Option<T> {
    open spec fn good(self) -> bool { self matches Some(x) ==> x.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let s = self.enc()->Some_0 + t;
        if let Some(x) = self {
            x.round_trip(t);
            assert(s.skip(1) =~= x.enc()->Some_0 + t);
        }
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) {
        lemma_lp(H::Bool, s);
        lemma_lp_more(H::Bool, s, t);
        assert((s + t).skip(1) =~= s.skip(1) + t);
        if s[0] == 1 { T::more(s.skip(1), t); }
    }
    proof fn written(self) { if let Some(x) = self { x.written(); } }
}
pub proof fn lemma_written<T: Codec>(v: Seq<T>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).good()
    ensures all(encs(v)) is Some
    decreases v.len()
{
    if v.len() > 0 {
        lemma_written(v.drop_last());
        assert(encs(v).drop_last() =~= encs(v.drop_last()));
        v.last().written();
        assert(encs(v).last() == v.last().enc());
    }
}
proof fn lemma_many<T: Codec>(v: Seq<T>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).good(), all(encs(v)) is Some
    ensures many::<T>(v.len(), all(encs(v))->Some_0 + t) == Some((outs(v), all(encs(v))->Some_0.len()))
    decreases v.len()
{
    let s = all(encs(v))->Some_0 + t;
    if v.len() == 0 {
        assert(outs(v) =~= seq![]);
    } else {
        let (w, x) = (v.drop_last(), v.last());
        assert(encs(v).drop_last() =~= encs(w));
        assert(encs(v).last() == x.enc());
        let (a, b) = (all(encs(w))->Some_0, x.enc()->Some_0);
        assert(s =~= a + (b + t));
        lemma_many(w, b + t);
        assert(s.skip(a.len() as int) =~= b + t);
        x.round_trip(t);
        assert(outs(v) =~= outs(w).push(x.out()));
    }
}
proof fn lemma_many_more<T: Codec>(count: nat, s: Seq<u8>, t: Seq<u8>)
    requires many::<T>(count, s) is Some
    ensures many::<T>(count, s + t) == many::<T>(count, s), many::<T>(count, s)->Some_0.1 <= s.len()
    decreases count
{
    if count > 0 {
        lemma_many_more::<T>((count - 1) as nat, s, t);
        let n = many::<T>((count - 1) as nat, s)->Some_0.1;
        T::more(s.skip(n as int), t);
        assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
    }
}
impl<T: Codec> Codec for Vec<T> {
    open spec fn good(self) -> bool { self@.len() <= u64::MAX && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).good() }
    proof fn round_trip(self, t: Seq<u8>) {
        broadcast use group_varint;
        let (c, e) = (vu64(self@.len() as u64), all(encs(self@))->Some_0);
        assert(self.enc()->Some_0 + t =~= c + (e + t));
        lemma_vu64(self@.len() as u64, e + t);
        assert((c + (e + t)).skip(c.len() as int) =~= e + t);
        lemma_many(self@, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) {
        broadcast use group_varint;
        lemma_du_more(s, 9, t);
        let (c, n) = du64(s)->Some_0;
        lemma_many_more::<T>(c as nat, s.skip(n as int), t);
        assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
    }
    proof fn written(self) { lemma_written(self@); }
}
proof fn lemma_two<A: Codec, B: Codec>(a: A, b: B, t: Seq<u8>)
    requires a.good(), b.good(), a.enc() is Some, b.enc() is Some
    ensures two::<A, B>(both(a.enc(), b.enc())->Some_0 + t) == Some(((a.out(), b.out()), both(a.enc(), b.enc())->Some_0.len()))
{
    let (x, y) = (a.enc()->Some_0, b.enc()->Some_0);
    assert(x + y + t =~= x + (y + t));
    a.round_trip(y + t);
    assert((x + (y + t)).skip(x.len() as int) =~= y + t);
    b.round_trip(t);
}
proof fn lemma_two_more<A: Codec, B: Codec>(s: Seq<u8>, t: Seq<u8>)
    requires two::<A, B>(s) is Some
    ensures two::<A, B>(s + t) == two::<A, B>(s), two::<A, B>(s)->Some_0.1 <= s.len()
{
    A::more(s, t);
    let n = A::parse(s)->Some_0.1;
    B::more(s.skip(n as int), t);
    assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
}
impl<A: Codec, B: Codec> Codec for (A, B) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() }
    proof fn round_trip(self, t: Seq<u8>) { lemma_two(self.0, self.1, t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<A, B>(s, t); }
    proof fn written(self) { self.0.written(); self.1.written(); }
}
pub proof fn lemma_one(a: Option<Seq<u8>>)
    ensures all(seq![a]) == a
{
    assert(seq![a].drop_last() =~= seq![]);
    reveal_with_fuel(all, 2);
    if a is Some { assert(seq![] + a->Some_0 =~= a->Some_0); }
}
pub proof fn lemma_pair(a: Option<Seq<u8>>, b: Option<Seq<u8>>)
    ensures all(seq![a, b]) == both(a, b)
{
    lemma_one(a);
    assert(seq![a, b].drop_last() =~= seq![a]);
}
//@include codec_tuples.rs
impl<A: Codec, B: Codec> Codec for Two<A, B> {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() }
    proof fn round_trip(self, t: Seq<u8>) { lemma_two(self.0, self.1, t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<A, B>(s, t); }
    proof fn written(self) { self.0.written(); self.1.written(); }
}
impl<A: Codec, B: Codec> Codec for Named<A, B> {
    open spec fn good(self) -> bool { self.a.good() && self.b.good() }
    proof fn round_trip(self, t: Seq<u8>) { lemma_two(self.a, self.b, t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<A, B>(s, t); }
    proof fn written(self) { self.a.written(); self.b.written(); }
}
impl Codec for Nothing {
    open spec fn good(self) -> bool { true }
    proof fn round_trip(self, t: Seq<u8>) {}
    proof fn more(s: Seq<u8>, t: Seq<u8>) {}
    proof fn written(self) {}
}
impl<A: Codec> Codec for Wrap<A> {
    open spec fn good(self) -> bool { self.0.good() }
    proof fn round_trip(self, t: Seq<u8>) { self.0.round_trip(t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { A::more(s, t); }
    proof fn written(self) { self.0.written(); }
}
impl<A: Codec, B: Codec> Codec for Choice<A, B> {
    open spec fn good(self) -> bool {
        match self { Choice::Nothing => true, Choice::Wrap(a) => a.good(), Choice::Two(a, b) => a.good() && b.good(), Choice::Named { a, b } => a.good() && b.good() }
    }
    proof fn round_trip(self, t: Seq<u8>) {
        let i = match self { Choice::Nothing => 0u32, Choice::Wrap(_) => 1, Choice::Two(..) => 2, Choice::Named { .. } => 3 };
        let e = match self {
            Choice::Nothing => Some(seq![]), Choice::Wrap(a) => a.enc(),
            Choice::Two(a, b) => both(a.enc(), b.enc()), Choice::Named { a, b } => both(a.enc(), b.enc()),
        };
        let x = e->Some_0;
        let c = vu32(i);
        assert(self.enc()->Some_0 =~= c + x);
        assert(self.enc()->Some_0 + t =~= c + (x + t));
        lemma_vu32(i, x + t);
        assert((c + (x + t)).skip(c.len() as int) =~= x + t);
        match self {
            Choice::Nothing => {}
            Choice::Wrap(a) => { a.round_trip(t); }
            Choice::Two(a, b) => { lemma_two(a, b, t); }
            Choice::Named { a, b } => { lemma_two(a, b, t); }
        }
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) {
        broadcast use group_varint;
        lemma_du_more(s, 5, t);
        let (i, n) = du32(s)->Some_0;
        let r = s.skip(n as int);
        assert((s + t).skip(n as int) =~= r + t);
        if i == 1 { A::more(r, t); } else if i >= 2 { lemma_two_more::<A, B>(r, t); }
    }
    proof fn written(self) {
        match self {
            Choice::Nothing => {}
            Choice::Wrap(a) => { a.written(); }
            Choice::Two(a, b) => { a.written(); b.written(); }
            Choice::Named { a, b } => { a.written(); b.written(); }
        }
    }
}
pub proof fn lemma_pairs_written<V: Codec>(v: Seq<(String, V)>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1.good()
    ensures all(pairs(v)) is Some
    decreases v.len()
{
    if v.len() > 0 {
        lemma_pairs_written(v.drop_last());
        lemma_pairs_step(v);
        v.last().1.written();
    }
}
/// The bytes of the last entry come last.
proof fn lemma_pairs_step<V: Codec>(v: Seq<(String, V)>)
    requires v.len() > 0
    ensures
        all(pairs(v)) is Some <==> all(pairs(v.drop_last())) is Some && v.last().1.enc() is Some,
        all(pairs(v)) is Some ==> all(pairs(v))->Some_0 == all(pairs(v.drop_last()))->Some_0 + lb(L::Str(v.last().0@)) + v.last().1.enc()->Some_0,
{
    let p = pairs(v);
    let q = p.drop_last();
    let n = v.len() as int;
    assert((2 * n - 1) % 2 == 1 && (2 * n - 1) / 2 == n - 1 && (2 * n - 2) % 2 == 0 && (2 * n - 2) / 2 == n - 1);
    assert(p.last() == p[2 * n - 1]); assert(p[2 * n - 1] == v[n - 1].1.enc());
    assert(q.last() == p[2 * n - 2]); assert(p[2 * n - 2] == key_enc(v[n - 1].0));
    assert(q.drop_last() =~= pairs(v.drop_last()));
    let w = pairs(v.drop_last());
    assert(all(q) == match all(w) { Some(a) => Some(a + lb(L::Str(v.last().0@))), None => None });
    assert(all(p) == match (all(q), v.last().1.enc()) { (Some(a), Some(b)) => Some(a + b), _ => None });
}
/// The last entry, put into those before it, comes last.
proof fn lemma_last_put<V: Codec>(v: Seq<(String, V)>)
    requires good_entries(v), v.len() > 0
    ensures ({ let w = out_entries(v.drop_last()); let k = v.last().0@; put(w, firsts(w), k, (k, v.last().1.out())) == out_entries(v) })
{
    let (w, k, x) = (v.drop_last(), v.last().0, v.last().1);
    let keys = firsts(out_entries(w));
    assert(place(keys, k@) == w.len()) by {
        if w.len() > 0 { assert(less(v[w.len() - 1].0@, v[w.len() as int].0@)); assert(keys.last() == v[w.len() - 1].0@); }
    }
    assert(put(out_entries(w), keys, k@, (k@, x.out())) =~= out_entries(v));
}
proof fn lemma_entries<V: Codec>(v: Seq<(String, V)>, t: Seq<u8>)
    requires good_entries(v), all(pairs(v)) is Some
    ensures entries::<V>(v.len(), all(pairs(v))->Some_0 + t) == Some((out_entries(v), all(pairs(v))->Some_0.len()))
    decreases v.len()
{
    hide(entries); hide(lp); hide(put); hide(lb);
    let s = all(pairs(v))->Some_0 + t;
    if v.len() == 0 {
        lemma_no_entries::<V>(s);
        assert(out_entries(v) =~= seq![]);
    } else {
        let (w, (k, x)) = (v.drop_last(), v.last());
        lemma_pairs_step(v);
        let (a, kb, b) = (all(pairs(w))->Some_0, lb(L::Str(k@)), x.enc()->Some_0);
        assert(s =~= a + (kb + (b + t)));
        lemma_entries(w, kb + (b + t));
        lemma_entry::<V>(w.len(), s);
        assert(s.skip(a.len() as int) =~= kb + (b + t));
        theorem_leaf_round_trip(L::Str(k@), b + t);
        assert(s.skip((a.len() + kb.len()) as int) =~= b + t);
        x.round_trip(t);
        lemma_last_put(v);
    }
}
proof fn lemma_entries_more<V: Codec>(count: nat, s: Seq<u8>, t: Seq<u8>)
    requires entries::<V>(count, s) is Some
    ensures entries::<V>(count, s + t) == entries::<V>(count, s), entries::<V>(count, s)->Some_0.1 <= s.len()
    decreases count
{
    hide(lp);
    if count > 0 {
        lemma_entries_more::<V>((count - 1) as nat, s, t);
        let n = entries::<V>((count - 1) as nat, s)->Some_0.1;
        let r = s.skip(n as int);
        lemma_lp(H::Str, r);
        lemma_lp_more(H::Str, r, t);
        assert((s + t).skip(n as int) =~= r + t);
        let m = lp(H::Str, r)->Some_0.1;
        V::more(s.skip((n + m) as int), t);
        assert((s + t).skip((n + m) as int) =~= s.skip((n + m) as int) + t);
    }
}
pub open spec fn good_entries<V: Codec>(v: Seq<(String, V)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> wl(L::Str((#[trigger] v[i]).0@)) && v[i].1.good()
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> less((#[trigger] v[i]).0@, (#[trigger] v[j]).0@)
}
impl<V: Codec> Codec for BTreeMap<String, V> {
    open spec fn good(self) -> bool { self.entries@.len() <= u64::MAX && good_entries(self.entries@) }
    proof fn round_trip(self, t: Seq<u8>) {
        let v = self.entries@;
        let (c, e) = (vu64(v.len() as u64), all(pairs(v))->Some_0);
        assert(self.enc()->Some_0 + t =~= c + (e + t));
        lemma_vu64(v.len() as u64, e + t);
        assert((c + (e + t)).skip(c.len() as int) =~= e + t);
        lemma_entries(v, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) {
        broadcast use group_varint;
        lemma_du_more(s, 9, t);
        let (c, n) = du64(s)->Some_0;
        lemma_entries_more::<V>(c as nat, s.skip(n as int), t);
        assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
    }
    proof fn written(self) { lemma_pairs_written(self.entries@); }
}
/// A hash map: it decodes to what it holds, in whatever order its entries were written.
proof fn lemma_hash_entries<V: Codec>(v: Seq<(String, V)>, t: Seq<u8>)
    requires good_hashed(v), all(pairs(v)) is Some
    ensures hashed::<V>(v.len(), all(pairs(v))->Some_0 + t) == Some((out_held(v), all(pairs(v))->Some_0.len()))
    decreases v.len()
{
    hide(hashed); hide(lp); hide(lb);
    let s = all(pairs(v))->Some_0 + t;
    if v.len() == 0 {
        lemma_hashed::<V>(0, s);
        assert(out_held(v) =~= Map::empty());
    } else {
        let (w, (k, x)) = (v.drop_last(), v.last());
        lemma_pairs_step(v);
        let (a, kb, b) = (all(pairs(w))->Some_0, lb(L::Str(k@)), x.enc()->Some_0);
        assert(s =~= a + (kb + (b + t)));
        lemma_hash_entries(w, kb + (b + t));
        lemma_hashed::<V>(w.len(), s);
        assert(s.skip(a.len() as int) =~= kb + (b + t));
        theorem_leaf_round_trip(L::Str(k@), b + t);
        assert(s.skip((a.len() + kb.len()) as int) =~= b + t);
        x.round_trip(t);
        assert(out_held(v) =~= out_held(w).insert(k@, x.out()));
    }
}
proof fn lemma_hashed_more<V: Codec>(count: nat, s: Seq<u8>, t: Seq<u8>)
    requires hashed::<V>(count, s) is Some
    ensures hashed::<V>(count, s + t) == hashed::<V>(count, s), hashed::<V>(count, s)->Some_0.1 <= s.len()
    decreases count
{
    hide(lp);
    if count > 0 {
        lemma_hashed_more::<V>((count - 1) as nat, s, t);
        let n = hashed::<V>((count - 1) as nat, s)->Some_0.1;
        let r = s.skip(n as int);
        lemma_lp(H::Str, r);
        lemma_lp_more(H::Str, r, t);
        assert((s + t).skip(n as int) =~= r + t);
        let m = lp(H::Str, r)->Some_0.1;
        V::more(s.skip((n + m) as int), t);
        assert((s + t).skip((n + m) as int) =~= s.skip((n + m) as int) + t);
    }
}
pub open spec fn good_hashed<V: Codec>(v: Seq<(String, V)>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> wl(L::Str((#[trigger] v[i]).0@)) && v[i].1.good()
}
impl<V: Codec> Codec for HashMap<String, V> {
    open spec fn good(self) -> bool { self.entries@.len() <= u64::MAX && good_hashed(self.entries@) }
    proof fn round_trip(self, t: Seq<u8>) {
        let v = self.entries@;
        let (c, e) = (vu64(v.len() as u64), all(pairs(v))->Some_0);
        assert(self.enc()->Some_0 + t =~= c + (e + t));
        lemma_vu64(v.len() as u64, e + t);
        assert((c + (e + t)).skip(c.len() as int) =~= e + t);
        lemma_hash_entries(v, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) {
        broadcast use group_varint;
        lemma_du_more(s, 9, t);
        let (c, n) = du64(s)->Some_0;
        lemma_hashed_more::<V>(c as nat, s.skip(n as int), t);
        assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
    }
    proof fn written(self) { lemma_pairs_written(self.entries@); }
}
}
