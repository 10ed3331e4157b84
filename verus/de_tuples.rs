pub mod tuples {
use super::*;
use super::super::de::{Deserializer, SeqDeserializer, Error};
use super::super::de_spec::*;
use super::super::serde::de::{Deserialize, Deserializer as _, Visitor};
use std::io::Read;
use std::marker::PhantomData;
/// After n parts: e is what they are, o what they make.
#[verifier::opaque]
pub open spec fn at<O>(e: Option<(O, nat)>, s: Seq<u8>, n: nat, count: nat, o: O, left: nat, rest: Seq<u8>) -> bool {
    left + n == count && match e { Some((a, k)) => a == o && moved(s, rest, k), None => false }
}
proof fn lemma_first<T: Deserialize>(s: Seq<u8>, count: nat, o: T::Out, left: nat, rest: Seq<u8>)
    requires left + 1 == count, T::parse(s) matches Some((b, m)) && b == o && moved(s, rest, m)
    ensures at(T::parse(s), s, 1, count, o, left, rest)
{ reveal(at); }
/// Why the next part fails.
proof fn lemma_will<P: Deserialize, T: Deserialize>(s: Seq<u8>, n: nat, count: nat, o: P::Out, left: nat, rest: Seq<u8>)
    requires at(P::parse(s), s, n, count, o, left, rest)
    ensures left == 0 ==> count == n, T::parse(rest) is None ==> two::<P, T>(s) is None
{ reveal(at); }
proof fn lemma_at<P: Deserialize, T: Deserialize>(s: Seq<u8>, n: nat, count: nat, o: P::Out, left: nat, rest: Seq<u8>, o2: T::Out, left2: nat, rest2: Seq<u8>)
    requires at(P::parse(s), s, n, count, o, left, rest), left2 + 1 == left, T::parse(rest) matches Some((b, m)) && b == o2 && moved(rest, rest2, m)
    ensures at(two::<P, T>(s), s, n + 1, count, (o, o2), left2, rest2)
{ broadcast use group_skip; reveal(at); }
proof fn lemma_done<O>(e: Option<(O, nat)>, s: Seq<u8>, n: nat, count: nat, o: O, left: nat, rest: Seq<u8>)
    requires at(e, s, n, count, o, left, rest)
    ensures count >= n, e matches Some((a, k)) && a == o && moved(s, rest, k)
{ reveal(at); }
/// What fails with its first part fails.
proof fn lemma_fails<P: Deserialize, T: Deserialize>(s: Seq<u8>)
    ensures P::parse(s) is None ==> two::<P, T>(s) is None
{}
//@expand @serde_core/src/de/impls.rs :: tuple_impls
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@hoist T1 @serde_core/src/de/impls.rs :: impl<'de, T> Deserialize<'de> for (T,) where T: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T1TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T: Deserialize<'de>> Visitor<'de> for T1TupleVisitor<T,>
//@inject
    type Out = T::Out;
    open spec fn out(v: (T,)) -> T::Out { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(T::Out, nat)> { if count < 1 { None } else { T::parse(s) } }
//@only
//@fn visit_seq
//@start
    let mut seq = seq;
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T> Deserialize<'de> for (T,) where T: Deserialize<'de>,
//@inject
    type Out = T::Out;
    open spec fn out(self) -> T::Out { self.0.out() }
    open spec fn parse(s: Seq<u8>) -> Option<(T::Out, nat)> { T::parse(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<T0, T1>(s), s, 2, count, o1, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T2 @serde_core/src/de/impls.rs :: impl<'de, T0, T1> Deserialize<'de> for (T0, T1,) where T0: Deserialize<'de>, T1: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T2TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>> Visitor<'de> for T2TupleVisitor<T0, T1,>
//@inject
    type Out = (T0::Out, T1::Out);
    open spec fn out(v: (T0, T1,)) -> (T0::Out, T1::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((T0::Out, T1::Out), nat)> { if count < 2 { None } else { two::<T0, T1>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1> Deserialize<'de> for (T0, T1,) where T0: Deserialize<'de>, T1: Deserialize<'de>,
//@inject
    type Out = (T0::Out, T1::Out);
    open spec fn out(self) -> (T0::Out, T1::Out) { (self.0.out(), self.1.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((T0::Out, T1::Out), nat)> { two::<T0, T1>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1), T2>(s), s, 3, count, o2, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T3 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2> Deserialize<'de> for (T0, T1, T2,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T3TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>> Visitor<'de> for T3TupleVisitor<T0, T1, T2,>
//@inject
    type Out = ((T0::Out, T1::Out), T2::Out);
    open spec fn out(v: (T0, T1, T2,)) -> ((T0::Out, T1::Out), T2::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(((T0::Out, T1::Out), T2::Out), nat)> { if count < 3 { None } else { two::<(T0, T1), T2>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2> Deserialize<'de> for (T0, T1, T2,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>,
//@inject
    type Out = ((T0::Out, T1::Out), T2::Out);
    open spec fn out(self) -> ((T0::Out, T1::Out), T2::Out) { ((self.0.out(), self.1.out()), self.2.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<(((T0::Out, T1::Out), T2::Out), nat)> { two::<(T0, T1), T2>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2), T3>(s), s, 4, count, o3, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T4 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3> Deserialize<'de> for (T0, T1, T2, T3,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T4TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>> Visitor<'de> for T4TupleVisitor<T0, T1, T2, T3,>
//@inject
    type Out = (((T0::Out, T1::Out), T2::Out), T3::Out);
    open spec fn out(v: (T0, T1, T2, T3,)) -> (((T0::Out, T1::Out), T2::Out), T3::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((((T0::Out, T1::Out), T2::Out), T3::Out), nat)> { if count < 4 { None } else { two::<(T0, T1, T2), T3>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3> Deserialize<'de> for (T0, T1, T2, T3,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>,
//@inject
    type Out = (((T0::Out, T1::Out), T2::Out), T3::Out);
    open spec fn out(self) -> (((T0::Out, T1::Out), T2::Out), T3::Out) { (((self.0.out(), self.1.out()), self.2.out()), self.3.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((((T0::Out, T1::Out), T2::Out), T3::Out), nat)> { two::<(T0, T1, T2), T3>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3), T4>(s), s, 5, count, o4, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T5 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4> Deserialize<'de> for (T0, T1, T2, T3, T4,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T5TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>> Visitor<'de> for T5TupleVisitor<T0, T1, T2, T3, T4,>
//@inject
    type Out = ((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4,)) -> ((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), nat)> { if count < 5 { None } else { two::<(T0, T1, T2, T3), T4>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4> Deserialize<'de> for (T0, T1, T2, T3, T4,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>,
//@inject
    type Out = ((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out);
    open spec fn out(self) -> ((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out) { ((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<(((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), nat)> { two::<(T0, T1, T2, T3), T4>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4), T5>(s), s, 6, count, o5, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T6 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5> Deserialize<'de> for (T0, T1, T2, T3, T4, T5,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T6TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>> Visitor<'de> for T6TupleVisitor<T0, T1, T2, T3, T4, T5,>
//@inject
    type Out = (((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5,)) -> (((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), nat)> { if count < 6 { None } else { two::<(T0, T1, T2, T3, T4), T5>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5> Deserialize<'de> for (T0, T1, T2, T3, T4, T5,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>,
//@inject
    type Out = (((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out);
    open spec fn out(self) -> (((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out) { (((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), nat)> { two::<(T0, T1, T2, T3, T4), T5>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5), T6>(s), s, 7, count, o6, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T7 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T7TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>> Visitor<'de> for T7TupleVisitor<T0, T1, T2, T3, T4, T5, T6,>
//@inject
    type Out = ((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6,)) -> ((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), nat)> { if count < 7 { None } else { two::<(T0, T1, T2, T3, T4, T5), T6>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>,
//@inject
    type Out = ((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out);
    open spec fn out(self) -> ((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out) { ((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<(((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5), T6>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6), T7>(s), s, 8, count, o7, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T8 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T8TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>> Visitor<'de> for T8TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7,>
//@inject
    type Out = (((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7,)) -> (((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), nat)> { if count < 8 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6), T7>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>,
//@inject
    type Out = (((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out);
    open spec fn out(self) -> (((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out) { (((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6), T7>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T8 = match $e? { $arms }; => let ghost left8 = seq.count as nat; let ghost rest8 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8); } let T8: T8 = match $e? { $arms }; let ghost o8 = (o7, T8.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8, T8.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s), s, 9, count, o8, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T9 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T9TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>> Visitor<'de> for T9TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7, T8,>
//@inject
    type Out = ((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7, T8,)) -> ((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), nat)> { if count < 9 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>,
//@inject
    type Out = ((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out);
    open spec fn out(self) -> ((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out) { ((((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()), self.8.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<(((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T8 = match $e? { $arms }; => let ghost left8 = seq.count as nat; let ghost rest8 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8); } let T8: T8 = match $e? { $arms }; let ghost o8 = (o7, T8.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8, T8.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T9 = match $e? { $arms }; => let ghost left9 = seq.count as nat; let ghost rest9 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9); } let T9: T9 = match $e? { $arms }; let ghost o9 = (o8, T9.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9, T9.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s), s, 10, count, o9, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T10 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T10TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>> Visitor<'de> for T10TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,>
//@inject
    type Out = (((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)) -> (((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), nat)> { if count < 10 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>,
//@inject
    type Out = (((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out);
    open spec fn out(self) -> (((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out) { (((((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()), self.8.out()), self.9.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T8 = match $e? { $arms }; => let ghost left8 = seq.count as nat; let ghost rest8 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8); } let T8: T8 = match $e? { $arms }; let ghost o8 = (o7, T8.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8, T8.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T9 = match $e? { $arms }; => let ghost left9 = seq.count as nat; let ghost rest9 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9); } let T9: T9 = match $e? { $arms }; let ghost o9 = (o8, T9.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9, T9.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T10 = match $e? { $arms }; => let ghost left10 = seq.count as nat; let ghost rest10 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10); } let T10: T10 = match $e? { $arms }; let ghost o10 = (o9, T10.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10, T10.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s), s, 11, count, o10, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T11 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T11TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>> Visitor<'de> for T11TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,>
//@inject
    type Out = ((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)) -> ((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), nat)> { if count < 11 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>,
//@inject
    type Out = ((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out);
    open spec fn out(self) -> ((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out) { ((((((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()), self.8.out()), self.9.out()), self.10.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<(((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T8 = match $e? { $arms }; => let ghost left8 = seq.count as nat; let ghost rest8 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8); } let T8: T8 = match $e? { $arms }; let ghost o8 = (o7, T8.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8, T8.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T9 = match $e? { $arms }; => let ghost left9 = seq.count as nat; let ghost rest9 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9); } let T9: T9 = match $e? { $arms }; let ghost o9 = (o8, T9.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9, T9.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T10 = match $e? { $arms }; => let ghost left10 = seq.count as nat; let ghost rest10 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10); } let T10: T10 = match $e? { $arms }; let ghost o10 = (o9, T10.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10, T10.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T11 = match $e? { $arms }; => let ghost left11 = seq.count as nat; let ghost rest11 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11); } let T11: T11 = match $e? { $arms }; let ghost o11 = (o10, T11.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11, T11.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s), s, 12, count, o11, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T12 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T12TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>> Visitor<'de> for T12TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,>
//@inject
    type Out = (((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)) -> (((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), nat)> { if count < 12 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>,
//@inject
    type Out = (((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out);
    open spec fn out(self) -> (((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out) { (((((((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()), self.8.out()), self.9.out()), self.10.out()), self.11.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T8 = match $e? { $arms }; => let ghost left8 = seq.count as nat; let ghost rest8 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8); } let T8: T8 = match $e? { $arms }; let ghost o8 = (o7, T8.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8, T8.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T9 = match $e? { $arms }; => let ghost left9 = seq.count as nat; let ghost rest9 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9); } let T9: T9 = match $e? { $arms }; let ghost o9 = (o8, T9.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9, T9.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T10 = match $e? { $arms }; => let ghost left10 = seq.count as nat; let ghost rest10 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10); } let T10: T10 = match $e? { $arms }; let ghost o10 = (o9, T10.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10, T10.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T11 = match $e? { $arms }; => let ghost left11 = seq.count as nat; let ghost rest11 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11); } let T11: T11 = match $e? { $arms }; let ghost o11 = (o10, T11.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11, T11.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T12 = match $e? { $arms }; => let ghost left12 = seq.count as nat; let ghost rest12 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, 12, count, o11, left12, rest12); } let T12: T12 = match $e? { $arms }; let ghost o12 = (o11, T12.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, 12, count, o11, left12, rest12, T12.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s), s, 13, count, o12, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T13 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T13TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>> Visitor<'de> for T13TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,>
//@inject
    type Out = ((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,)) -> ((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), nat)> { if count < 13 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>,
//@inject
    type Out = ((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out);
    open spec fn out(self) -> ((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out) { ((((((((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()), self.8.out()), self.9.out()), self.10.out()), self.11.out()), self.12.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<(((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T8 = match $e? { $arms }; => let ghost left8 = seq.count as nat; let ghost rest8 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8); } let T8: T8 = match $e? { $arms }; let ghost o8 = (o7, T8.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8, T8.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T9 = match $e? { $arms }; => let ghost left9 = seq.count as nat; let ghost rest9 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9); } let T9: T9 = match $e? { $arms }; let ghost o9 = (o8, T9.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9, T9.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T10 = match $e? { $arms }; => let ghost left10 = seq.count as nat; let ghost rest10 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10); } let T10: T10 = match $e? { $arms }; let ghost o10 = (o9, T10.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10, T10.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T11 = match $e? { $arms }; => let ghost left11 = seq.count as nat; let ghost rest11 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11); } let T11: T11 = match $e? { $arms }; let ghost o11 = (o10, T11.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11, T11.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T12 = match $e? { $arms }; => let ghost left12 = seq.count as nat; let ghost rest12 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, 12, count, o11, left12, rest12); } let T12: T12 = match $e? { $arms }; let ghost o12 = (o11, T12.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, 12, count, o11, left12, rest12, T12.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T13 = match $e? { $arms }; => let ghost left13 = seq.count as nat; let ghost rest13 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s, 13, count, o12, left13, rest13); } let T13: T13 = match $e? { $arms }; let ghost o13 = (o12, T13.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s, 13, count, o12, left13, rest13, T13.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s), s, 14, count, o13, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T14 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T14TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>> Visitor<'de> for T14TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,>
//@inject
    type Out = (((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,)) -> (((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), nat)> { if count < 14 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>,
//@inject
    type Out = (((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out);
    open spec fn out(self) -> (((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out) { (((((((((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()), self.8.out()), self.9.out()), self.10.out()), self.11.out()), self.12.out()), self.13.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T8 = match $e? { $arms }; => let ghost left8 = seq.count as nat; let ghost rest8 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8); } let T8: T8 = match $e? { $arms }; let ghost o8 = (o7, T8.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8, T8.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T9 = match $e? { $arms }; => let ghost left9 = seq.count as nat; let ghost rest9 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9); } let T9: T9 = match $e? { $arms }; let ghost o9 = (o8, T9.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9, T9.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T10 = match $e? { $arms }; => let ghost left10 = seq.count as nat; let ghost rest10 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10); } let T10: T10 = match $e? { $arms }; let ghost o10 = (o9, T10.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10, T10.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T11 = match $e? { $arms }; => let ghost left11 = seq.count as nat; let ghost rest11 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11); } let T11: T11 = match $e? { $arms }; let ghost o11 = (o10, T11.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11, T11.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T12 = match $e? { $arms }; => let ghost left12 = seq.count as nat; let ghost rest12 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, 12, count, o11, left12, rest12); } let T12: T12 = match $e? { $arms }; let ghost o12 = (o11, T12.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, 12, count, o11, left12, rest12, T12.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T13 = match $e? { $arms }; => let ghost left13 = seq.count as nat; let ghost rest13 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s, 13, count, o12, left13, rest13); } let T13: T13 = match $e? { $arms }; let ghost o13 = (o12, T13.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s, 13, count, o12, left13, rest13, T13.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T14 = match $e? { $arms }; => let ghost left14 = seq.count as nat; let ghost rest14 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s, 14, count, o13, left14, rest14); } let T14: T14 = match $e? { $arms }; let ghost o14 = (o13, T14.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s, 14, count, o13, left14, rest14, T14.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s), s, 15, count, o14, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T15 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>, T14: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T15TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>, T14: Deserialize<'de>> Visitor<'de> for T15TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,>
//@inject
    type Out = ((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,)) -> ((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<(((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out), nat)> { if count < 15 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>, T14: Deserialize<'de>,
//@inject
    type Out = ((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out);
    open spec fn out(self) -> ((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out) { ((((((((((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()), self.8.out()), self.9.out()), self.10.out()), self.11.out()), self.12.out()), self.13.out()), self.14.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<(((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
//@include serde_de.rs
//@rewrite impl<'de, $p> Deserialize for => impl<$p> Deserialize for
//@rewrite let T0 = match $e? { $arms }; => let T0: T0 = match $e? { $arms }; let ghost o0 = T0.out(); proof { lemma_first::<T0>(s, count, o0, seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T1 = match $e? { $arms }; => let ghost left1 = seq.count as nat; let ghost rest1 = (*seq.deserializer).rest(); proof { lemma_will::<T0, T1>(s, 1, count, o0, left1, rest1); } let T1: T1 = match $e? { $arms }; let ghost o1 = (o0, T1.out()); proof { lemma_at::<T0, T1>(s, 1, count, o0, left1, rest1, T1.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T2 = match $e? { $arms }; => let ghost left2 = seq.count as nat; let ghost rest2 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1), T2>(s, 2, count, o1, left2, rest2); } let T2: T2 = match $e? { $arms }; let ghost o2 = (o1, T2.out()); proof { lemma_at::<(T0, T1), T2>(s, 2, count, o1, left2, rest2, T2.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T3 = match $e? { $arms }; => let ghost left3 = seq.count as nat; let ghost rest3 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3); } let T3: T3 = match $e? { $arms }; let ghost o3 = (o2, T3.out()); proof { lemma_at::<(T0, T1, T2), T3>(s, 3, count, o2, left3, rest3, T3.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T4 = match $e? { $arms }; => let ghost left4 = seq.count as nat; let ghost rest4 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4); } let T4: T4 = match $e? { $arms }; let ghost o4 = (o3, T4.out()); proof { lemma_at::<(T0, T1, T2, T3), T4>(s, 4, count, o3, left4, rest4, T4.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T5 = match $e? { $arms }; => let ghost left5 = seq.count as nat; let ghost rest5 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5); } let T5: T5 = match $e? { $arms }; let ghost o5 = (o4, T5.out()); proof { lemma_at::<(T0, T1, T2, T3, T4), T5>(s, 5, count, o4, left5, rest5, T5.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T6 = match $e? { $arms }; => let ghost left6 = seq.count as nat; let ghost rest6 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6); } let T6: T6 = match $e? { $arms }; let ghost o6 = (o5, T6.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5), T6>(s, 6, count, o5, left6, rest6, T6.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T7 = match $e? { $arms }; => let ghost left7 = seq.count as nat; let ghost rest7 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7); } let T7: T7 = match $e? { $arms }; let ghost o7 = (o6, T7.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, 7, count, o6, left7, rest7, T7.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T8 = match $e? { $arms }; => let ghost left8 = seq.count as nat; let ghost rest8 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8); } let T8: T8 = match $e? { $arms }; let ghost o8 = (o7, T8.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, 8, count, o7, left8, rest8, T8.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T9 = match $e? { $arms }; => let ghost left9 = seq.count as nat; let ghost rest9 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9); } let T9: T9 = match $e? { $arms }; let ghost o9 = (o8, T9.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, 9, count, o8, left9, rest9, T9.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T10 = match $e? { $arms }; => let ghost left10 = seq.count as nat; let ghost rest10 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10); } let T10: T10 = match $e? { $arms }; let ghost o10 = (o9, T10.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, 10, count, o9, left10, rest10, T10.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T11 = match $e? { $arms }; => let ghost left11 = seq.count as nat; let ghost rest11 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11); } let T11: T11 = match $e? { $arms }; let ghost o11 = (o10, T11.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, 11, count, o10, left11, rest11, T11.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T12 = match $e? { $arms }; => let ghost left12 = seq.count as nat; let ghost rest12 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, 12, count, o11, left12, rest12); } let T12: T12 = match $e? { $arms }; let ghost o12 = (o11, T12.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, 12, count, o11, left12, rest12, T12.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T13 = match $e? { $arms }; => let ghost left13 = seq.count as nat; let ghost rest13 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s, 13, count, o12, left13, rest13); } let T13: T13 = match $e? { $arms }; let ghost o13 = (o12, T13.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s, 13, count, o12, left13, rest13, T13.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T14 = match $e? { $arms }; => let ghost left14 = seq.count as nat; let ghost rest14 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s, 14, count, o13, left14, rest14); } let T14: T14 = match $e? { $arms }; let ghost o14 = (o13, T14.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s, 14, count, o13, left14, rest14, T14.out(), seq.count as nat, (*seq.deserializer).rest()); }
//@rewrite let T15 = match $e? { $arms }; => let ghost left15 = seq.count as nat; let ghost rest15 = (*seq.deserializer).rest(); proof { lemma_will::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14), T15>(s, 15, count, o14, left15, rest15); } let T15: T15 = match $e? { $arms }; let ghost o15 = (o14, T15.out()); proof { lemma_at::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14), T15>(s, 15, count, o14, left15, rest15, T15.out(), seq.count as nat, (*seq.deserializer).rest()); } proof { lemma_done(two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14), T15>(s), s, 16, count, o15, seq.count as nat, (*seq.deserializer).rest()); }
//@hoist T16 @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>, T14: Deserialize<'de>, T15: Deserialize<'de>,
//@private_item @serde_core/src/de/impls.rs :: struct T16TupleVisitor
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>, T14: Deserialize<'de>, T15: Deserialize<'de>> Visitor<'de> for T16TupleVisitor<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,>
//@inject
    type Out = (((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out), T15::Out);
    open spec fn out(v: (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,)) -> (((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out), T15::Out) { v.out() }
    open spec fn on_seq(self, count: nat, s: Seq<u8>) -> Option<((((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out), T15::Out), nat)> { if count < 16 { None } else { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14), T15>(s) } }
//@only
//@fn visit_seq
//@start
    hide(two);
    let mut seq = seq;
    let ghost s = (*seq.deserializer).rest();
    let ghost count = seq.count as nat;
    proof { lemma_fails::<T0, T1>(s); lemma_fails::<(T0, T1), T2>(s); lemma_fails::<(T0, T1, T2), T3>(s); lemma_fails::<(T0, T1, T2, T3), T4>(s); lemma_fails::<(T0, T1, T2, T3, T4), T5>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5), T6>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6), T7>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s); lemma_fails::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14), T15>(s); }
//@end
//@impl @serde_core/src/de/impls.rs :: impl<'de, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> Deserialize<'de> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) where T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>, T3: Deserialize<'de>, T4: Deserialize<'de>, T5: Deserialize<'de>, T6: Deserialize<'de>, T7: Deserialize<'de>, T8: Deserialize<'de>, T9: Deserialize<'de>, T10: Deserialize<'de>, T11: Deserialize<'de>, T12: Deserialize<'de>, T13: Deserialize<'de>, T14: Deserialize<'de>, T15: Deserialize<'de>,
//@inject
    type Out = (((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out), T15::Out);
    open spec fn out(self) -> (((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out), T15::Out) { (((((((((((((((self.0.out(), self.1.out()), self.2.out()), self.3.out()), self.4.out()), self.5.out()), self.6.out()), self.7.out()), self.8.out()), self.9.out()), self.10.out()), self.11.out()), self.12.out()), self.13.out()), self.14.out()), self.15.out()) }
    open spec fn parse(s: Seq<u8>) -> Option<((((((((((((((((T0::Out, T1::Out), T2::Out), T3::Out), T4::Out), T5::Out), T6::Out), T7::Out), T8::Out), T9::Out), T10::Out), T11::Out), T12::Out), T13::Out), T14::Out), T15::Out), nat)> { two::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14), T15>(s) }
//@only
//@fn deserialize
//@end
//@norewrites
}
