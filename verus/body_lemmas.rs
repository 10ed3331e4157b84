// What the format of values guarantees, for all headers, values and bytes.
pub mod body_lemmas {
use super::*;
use super::varint::*;
use super::header_spec::*;
use super::value_spec::*;

/// The byte before an optional value.
proof fn lemma_flag(b: bool, t: Seq<u8>)
    ensures lp(H::Bool, seq![if b { 1u8 } else { 0u8 }] + t) == Some((L::Bool(b), 1nat))
{}
/// C09: a value of the shape of the header decodes back to itself and uses up its own bytes, whatever follows.
#[verifier::rlimit(60)]
pub proof fn theorem_body_round_trip(h: H, b: B, t: Seq<u8>)
    requires wb(b), valid(h, b)
    ensures pb(h, bb(b) + t) == Some((b, bb(b).len()))
    decreases b, 1nat
{
    hide(lp); hide(lb);
    let s = bb(b) + t;
    match b {
        B::Unit => {}
        B::None => { lemma_flag(false, t); }
        B::Some(x) => {
            theorem_body_round_trip(*h->Opt_0, *x, t);
            assert(s =~= seq![1u8] + (bb(*x) + t));
            lemma_flag(true, bb(*x) + t);
            assert(s.skip(1) =~= bb(*x) + t);
        }
        B::Leaf(l) => {
            theorem_leaf_round_trip(l, t);
            assert(!(h is Unit || h is Opt || h is Arr || h is Tup || h is Map || h is Enum));
        }
        B::Arr(v) => {
            let c = vu64(v.len() as u64);
            assert(s =~= c + (bbs(v) + t));
            assert(s.skip(c.len() as int) =~= bbs(v) + t);
            lemma_vu64(v.len() as u64, bbs(v) + t);
            lemma_rt_arr(*h->Arr_0, v, s, c.len(), t);
        }
        B::Tup(v) => {
            lemma_rt_tup(h->Tup_0, v, t);
        }
        B::Map(m) => {
            let c = vu64(m.len() as u64);
            assert(s =~= c + (bms(m) + t));
            assert(s.skip(c.len() as int) =~= bms(m) + t);
            lemma_vu64(m.len() as u64, bms(m) + t);
            lemma_rt_map(*h->Map_0, m, s, c.len(), t);
        }
        B::Enum(i, x) => {
            let c = vu32(i);
            theorem_body_round_trip(h->Enum_0[i as int], *x, t);
            assert(s =~= c + (bb(*x) + t));
            lemma_vu32(i, bb(*x) + t);
            assert(s.skip(c.len() as int) =~= bb(*x) + t);
        }
    }
}
proof fn lemma_rt_arr(h: H, v: Seq<B>, s: Seq<u8>, at: nat, t: Seq<u8>)
    requires wbs(v), valid_all(h, v), at <= s.len(), s.skip(at as int) == bbs(v) + t
    ensures pbs(h, s, at, v.len()) == Some((v, at + bbs(v).len()))
    decreases v, 0nat
{
    if v.len() == 0 {
        assert(v =~= seq![]);
    } else {
        let (w, b) = (v.drop_last(), v.last());
        assert(bbs(v) + t =~= bbs(w) + (bb(b) + t));
        lemma_rt_arr(h, w, s, at, bb(b) + t);
        assert(s.skip((at + bbs(w).len()) as int) =~= s.skip(at as int).skip(bbs(w).len() as int));
        assert(s.skip((at + bbs(w).len()) as int) =~= bb(b) + t);
        theorem_body_round_trip(h, b, t);
        assert(w.push(b) =~= v);
    }
}
proof fn lemma_rt_tup(hs: Seq<H>, v: Seq<B>, t: Seq<u8>)
    requires wbs(v), hs.len() == v.len(), valid_each(hs, v)
    ensures pts(hs, bbs(v) + t) == Some((v, bbs(v).len()))
    decreases v, 0nat
{
    let s = bbs(v) + t;
    if v.len() == 0 {
        assert(v =~= seq![]);
    } else {
        let (w, b) = (v.drop_last(), v.last());
        assert(s =~= bbs(w) + (bb(b) + t));
        lemma_rt_tup(hs.drop_last(), w, bb(b) + t);
        assert(s.skip(bbs(w).len() as int) =~= bb(b) + t);
        theorem_body_round_trip(hs.last(), b, t);
        assert(w.push(b) =~= v);
    }
}
#[verifier::rlimit(60)]
proof fn lemma_rt_map(h: H, m: Seq<(Seq<char>, B)>, s: Seq<u8>, at: nat, t: Seq<u8>)
    requires wms(m), valid_values(h, m), at <= s.len(), s.skip(at as int) == bms(m) + t,
        forall|i: int, j: int| 0 <= i < j < m.len() ==> less(#[trigger] m[i].0, #[trigger] m[j].0),
    ensures pms(h, s, at, m.len()) == Some((m, at + bms(m).len()))
    decreases m, 0nat
{
    hide(lp); hide(lb); hide(put);
    if m.len() == 0 {
        assert(m =~= seq![]);
    } else {
        let (w, (k, b)) = (m.drop_last(), m.last());
        let kb = lb(L::Str(k));
        assert(bms(m) + t =~= bms(w) + (kb + (bb(b) + t)));
        lemma_rt_map(h, w, s, at, kb + (bb(b) + t));
        let n = at + bms(w).len();
        assert(s.skip(n as int) =~= s.skip(at as int).skip(bms(w).len() as int));
        assert(s.skip(n as int) =~= kb + (bb(b) + t));
        theorem_leaf_round_trip(L::Str(k), bb(b) + t);
        assert(s.skip((n + kb.len()) as int) =~= s.skip(n as int).skip(kb.len() as int));
        assert(s.skip((n + kb.len()) as int) =~= bb(b) + t);
        theorem_body_round_trip(h, b, t);
        lemma_last_comes_last(m);
    }
}
/// An entry with the highest key, put into the others, comes last.
proof fn lemma_last_comes_last(m: Seq<(Seq<char>, B)>)
    requires m.len() > 0, forall|i: int, j: int| 0 <= i < j < m.len() ==> less(#[trigger] m[i].0, #[trigger] m[j].0),
    ensures put(m.drop_last(), keys_of(m.drop_last()), m.last().0, m.last()) == m
{
    let (w, (k, b)) = (m.drop_last(), m.last());
    let keys = keys_of(w);
    assert(place(keys, k) == w.len()) by {
        if w.len() > 0 { assert(less(m[w.len() - 1].0, m[w.len() as int].0)); assert(keys.last() == m[w.len() - 1].0); }
    }
    assert(put(w, keys, k, (k, b)) =~= m);
}

/// C10: what is decoded has the shape of the header, and is made of bytes that are there.
pub proof fn theorem_decoded_body_is_valid(h: H, s: Seq<u8>)
    ensures pb(h, s) is Some ==> valid(h, pb(h, s)->Some_0.0) && pb(h, s)->Some_0.1 <= s.len()
    decreases h, 0nat
{
    broadcast use group_varint;
    match h {
        H::Unit => {}
        H::Opt(x) => { lemma_lp(H::Bool, s); theorem_decoded_body_is_valid(*x, s.skip(1)); }
        H::Arr(x) => { if let Some((c, k)) = du64(s) { lemma_valid_arr(*x, s, k, c as nat); } }
        H::Tup(hs) => { lemma_valid_tup(hs, s); }
        H::Map(x) => { if let Some((c, k)) = du64(s) { lemma_valid_map(*x, s, k, c as nat); } }
        H::Enum(hs) => { if let Some((i, k)) = du32(s) { if i < hs.len() { theorem_decoded_body_is_valid(hs[i as int], s.skip(k as int)); } } }
        _ => { lemma_lp(h, s); }
    }
}
pub proof fn lemma_valid_arr(h: H, s: Seq<u8>, at: nat, count: nat)
    requires at <= s.len()
    ensures pbs(h, s, at, count) is Some ==> {
        let (v, n) = pbs(h, s, at, count)->Some_0;
        valid_all(h, v) && v.len() == count && at <= n <= s.len()
    }
    decreases h, count + 1
{
    if count > 0 {
        lemma_valid_arr(h, s, at, (count - 1) as nat);
        if let Some((v, n)) = pbs(h, s, at, (count - 1) as nat) {
            theorem_decoded_body_is_valid(h, s.skip(n as int));
            if let Some((b, m)) = pb(h, s.skip(n as int)) { assert(v.push(b).drop_last() =~= v); }
        }
    }
}
pub proof fn lemma_valid_tup(hs: Seq<H>, s: Seq<u8>)
    ensures pts(hs, s) is Some ==> {
        let (v, n) = pts(hs, s)->Some_0;
        valid_each(hs, v) && v.len() == hs.len() && n <= s.len()
    }
    decreases hs, hs.len()
{
    if hs.len() > 0 {
        lemma_valid_tup(hs.drop_last(), s);
        if let Some((v, n)) = pts(hs.drop_last(), s) {
            theorem_decoded_body_is_valid(hs.last(), s.skip(n as int));
            if let Some((b, m)) = pb(hs.last(), s.skip(n as int)) { assert(v.push(b).drop_last() =~= v); }
        }
    }
}
pub proof fn lemma_place(keys: Seq<Seq<char>>, k: Seq<char>)
    ensures place(keys, k) <= keys.len()
    decreases keys.len()
{ if keys.len() > 0 { lemma_place(keys.drop_last(), k); } }
/// All values of a map have a shape if and only if each of them has.
proof fn lemma_values(h: H, m: Seq<(Seq<char>, B)>)
    ensures valid_values(h, m) <==> forall|i: int| 0 <= i < m.len() ==> valid(h, #[trigger] m[i].1)
    decreases m.len()
{
    if m.len() > 0 {
        lemma_values(h, m.drop_last());
        assert(forall|i: int| 0 <= i < m.len() - 1 ==> m.drop_last()[i] == #[trigger] m[i]);
        if valid_values(h, m) {
            assert forall|i: int| 0 <= i < m.len() implies valid(h, #[trigger] m[i].1) by {
                if i < m.len() - 1 { assert(m.drop_last()[i] == m[i]); }
            }
        } else if valid(h, m.last().1) {
            let i = choose|i: int| 0 <= i < m.drop_last().len() && !valid(h, #[trigger] m.drop_last()[i].1);
            assert(m.drop_last()[i] == m[i]);
        }
    }
}
pub proof fn lemma_valid_map(h: H, s: Seq<u8>, at: nat, count: nat)
    requires at <= s.len()
    ensures pms(h, s, at, count) is Some ==> {
        let (m, n) = pms(h, s, at, count)->Some_0;
        valid_values(h, m) && at <= n <= s.len()
    }
    decreases h, count + 1
{
    if count > 0 {
        lemma_valid_map(h, s, at, (count - 1) as nat);
        if let Some((e, n)) = pms(h, s, at, (count - 1) as nat) {
            lemma_lp(H::Str, s.skip(n as int));
            if let Some((L::Str(k), m)) = lp(H::Str, s.skip(n as int)) {
                theorem_decoded_body_is_valid(h, s.skip((n + m) as int));
                if let Some((b, j)) = pb(h, s.skip((n + m) as int)) {
                    lemma_place(keys_of(e), k);
                    let r = put(e, keys_of(e), k, (k, b));
                    lemma_values(h, e);
                    lemma_values(h, r);
                }
            }
        }
    }
}

/// The order of the keys is strict and total.
proof fn lemma_less(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures !less(a, a), less(a, b) && less(b, c) ==> less(a, c), a != b ==> less(a, b) || less(b, a)
    decreases a.len() + b.len() + c.len()
{
    reveal(less);
    if a.len() > 0 { lemma_less(a.skip(1), seq![], seq![]); }
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { lemma_less(a.skip(1), b.skip(1), c.skip(1)); }
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_less(a.skip(1), b.skip(1), seq![]);
        if a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    }
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub open spec fn in_order(keys: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < keys.len() ==> less(#[trigger] keys[i], #[trigger] keys[j]) }
/// The keys before the place of one are less, and those after it are not.
proof fn lemma_place_order(keys: Seq<Seq<char>>, k: Seq<char>)
    requires in_order(keys)
    ensures place(keys, k) <= keys.len(),
        forall|i: int| 0 <= i < place(keys, k) ==> less(#[trigger] keys[i], k),
        forall|i: int| place(keys, k) <= i < keys.len() ==> !less(#[trigger] keys[i], k),
    decreases keys.len()
{
    if keys.len() > 0 {
        if less(keys.last(), k) {
            assert forall|i: int| 0 <= i < keys.len() implies less(#[trigger] keys[i], k) by {
                if i < keys.len() - 1 { assert(less(keys[i], keys[keys.len() - 1])); lemma_less(keys[i], keys.last(), k); }
            }
        } else {
            let w = keys.drop_last();
            lemma_place_order(w, k);
            assert forall|i: int| 0 <= i < place(keys, k) implies less(#[trigger] keys[i], k) by { assert(less(w[i], k)); }
            assert forall|i: int| place(keys, k) <= i < keys.len() implies !less(#[trigger] keys[i], k) by { if i < w.len() { assert(!less(w[i], k)); } }
        }
    }
}
/// A map stays in order.
pub proof fn lemma_put_order(m: Seq<(Seq<char>, B)>, k: Seq<char>, b: B)
    requires in_order(keys_of(m))
    ensures in_order(keys_of(put(m, keys_of(m), k, (k, b)))), put(m, keys_of(m), k, (k, b)).len() <= m.len() + 1
{
    let keys = keys_of(m);
    let p = place(keys, k) as int;
    lemma_place_order(keys, k);
    if p < keys.len() && keys[p] == k {
        assert(keys_of(m.update(p, (k, b))) =~= keys);
    } else {
        let r = keys.insert(p, k);
        assert(keys_of(m.insert(p, (k, b))) =~= r);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies less(#[trigger] r[i], #[trigger] r[j]) by {
            if i == p {
                assert(r[j] == keys[j - 1]);
                lemma_less(keys[j - 1], k, k);
                if j - 1 > p { assert(!less(keys[p], k)); lemma_less(keys[p], k, keys[j - 1]); assert(less(keys[p], keys[j - 1])); lemma_less(k, keys[p], keys[j - 1]); }
            } else if j == p {
                assert(r[i] == keys[i]);
            } else {
                let (x, y) = (if i < p { i } else { i - 1 }, if j < p { j } else { j - 1 });
                assert(r[i] == keys[x] && r[j] == keys[y]);
            }
        }
    }
}
/// Members of a map fit if and only if each of them does.
proof fn lemma_wms(m: Seq<(Seq<char>, B)>)
    ensures wms(m) <==> forall|i: int| 0 <= i < m.len() ==> wl(L::Str((#[trigger] m[i]).0)) && wb(m[i].1)
    decreases m.len()
{
    if m.len() > 0 {
        lemma_wms(m.drop_last());
        assert(forall|i: int| 0 <= i < m.len() - 1 ==> m.drop_last()[i] == #[trigger] m[i]);
        if wms(m) {
            assert forall|i: int| 0 <= i < m.len() implies wl(L::Str((#[trigger] m[i]).0)) && wb(m[i].1) by {
                if i < m.len() - 1 { assert(m.drop_last()[i] == m[i]); }
            }
        } else if wl(L::Str(m.last().0)) && wb(m.last().1) {
            let i = choose|i: int| 0 <= i < m.drop_last().len() && !(wl(L::Str((#[trigger] m.drop_last()[i]).0)) && wb(m.drop_last()[i].1));
            assert(m.drop_last()[i] == m[i]);
        }
    }
}
/// C10: what is decoded is a value that can be written again, with the keys of its maps in order.
pub proof fn theorem_decoded_body_is_good(h: H, s: Seq<u8>)
    ensures pb(h, s) is Some ==> wb(pb(h, s)->Some_0.0)
    decreases h, 0nat
{
    broadcast use group_varint;
    match h {
        H::Unit => {}
        H::Opt(x) => { lemma_lp(H::Bool, s); theorem_decoded_body_is_good(*x, s.skip(1)); }
        H::Arr(x) => { if let Some((c, k)) = du64(s) { lemma_valid_arr(*x, s, k, c as nat); lemma_good_arr(*x, s, k, c as nat); } }
        H::Tup(hs) => { lemma_good_tup(hs, s); }
        H::Map(x) => {
            if let Some((c, k)) = du64(s) {
                lemma_good_map(*x, s, k, c as nat);
                if let Some((m, n)) = pms(*x, s, k, c as nat) {
                    assert forall|i: int, j: int| 0 <= i < j < m.len() implies less(#[trigger] m[i].0, #[trigger] m[j].0) by { assert(less(keys_of(m)[i], keys_of(m)[j])); }
                }
            }
        }
        H::Enum(hs) => { if let Some((i, k)) = du32(s) { if i < hs.len() { theorem_decoded_body_is_good(hs[i as int], s.skip(k as int)); } } }
        _ => { lemma_lp(h, s); }
    }
}
proof fn lemma_good_arr(h: H, s: Seq<u8>, at: nat, count: nat)
    ensures pbs(h, s, at, count) is Some ==> wbs(pbs(h, s, at, count)->Some_0.0)
    decreases h, count + 1
{
    if count > 0 {
        lemma_good_arr(h, s, at, (count - 1) as nat);
        if let Some((v, n)) = pbs(h, s, at, (count - 1) as nat) {
            theorem_decoded_body_is_good(h, s.skip(n as int));
            if let Some((b, m)) = pb(h, s.skip(n as int)) { assert(v.push(b).drop_last() =~= v); }
        }
    }
}
proof fn lemma_good_tup(hs: Seq<H>, s: Seq<u8>)
    ensures pts(hs, s) is Some ==> wbs(pts(hs, s)->Some_0.0)
    decreases hs, hs.len()
{
    if hs.len() > 0 {
        lemma_good_tup(hs.drop_last(), s);
        if let Some((v, n)) = pts(hs.drop_last(), s) {
            theorem_decoded_body_is_good(hs.last(), s.skip(n as int));
            if let Some((b, m)) = pb(hs.last(), s.skip(n as int)) { assert(v.push(b).drop_last() =~= v); }
        }
    }
}
proof fn lemma_good_map(h: H, s: Seq<u8>, at: nat, count: nat)
    ensures pms(h, s, at, count) is Some ==> {
        let m = pms(h, s, at, count)->Some_0.0;
        wms(m) && in_order(keys_of(m)) && m.len() <= count
    }
    decreases h, count + 1
{
    if count > 0 {
        lemma_good_map(h, s, at, (count - 1) as nat);
        if let Some((e, n)) = pms(h, s, at, (count - 1) as nat) {
            lemma_lp(H::Str, s.skip(n as int));
            if let Some((L::Str(k), m)) = lp(H::Str, s.skip(n as int)) {
                theorem_decoded_body_is_good(h, s.skip((n + m) as int));
                if let Some((b, j)) = pb(h, s.skip((n + m) as int)) {
                    lemma_place(keys_of(e), k);
                    lemma_put_order(e, k, b);
                    lemma_wms(e);
                    lemma_wms(put(e, keys_of(e), k, (k, b)));
                }
            }
        }
    }
}
/// C10: what is decoded decodes to itself again when it is written.
pub proof fn theorem_decoded_body_again(h: H, s: Seq<u8>, t: Seq<u8>)
    requires pb(h, s) is Some
    ensures ({ let b = pb(h, s)->Some_0.0; pb(h, bb(b) + t) == Some((b, bb(b).len())) })
{
    theorem_decoded_body_is_valid(h, s);
    theorem_decoded_body_is_good(h, s);
    theorem_body_round_trip(h, pb(h, s)->Some_0.0, t);
}

/// More input after it changes nothing.
pub proof fn lemma_pb_more(h: H, s: Seq<u8>, t: Seq<u8>)
    requires pb(h, s) is Some
    ensures pb(h, s + t) == pb(h, s)
    decreases h, 0nat
{
    broadcast use group_varint;
    match h {
        H::Unit => {}
        H::Opt(x) => {
            lemma_lp(H::Bool, s); lemma_lp_more(H::Bool, s, t);
            assert((s + t).skip(1) =~= s.skip(1) + t);
            if s[0] == 1 { lemma_pb_more(*x, s.skip(1), t); }
        }
        H::Arr(x) => { lemma_du_more(s, 9, t); let (c, k) = du64(s)->Some_0; lemma_pbs_more(*x, s, k, c as nat, t); }
        H::Tup(hs) => { lemma_pts_more(hs, s, t); }
        H::Map(x) => { lemma_du_more(s, 9, t); let (c, k) = du64(s)->Some_0; lemma_pms_more(*x, s, k, c as nat, t); }
        H::Enum(hs) => {
            lemma_du_more(s, 5, t);
            let (i, k) = du32(s)->Some_0;
            assert((s + t).skip(k as int) =~= s.skip(k as int) + t);
            lemma_pb_more(hs[i as int], s.skip(k as int), t);
        }
        _ => { lemma_lp_more(h, s, t); }
    }
}
proof fn lemma_pbs_more(h: H, s: Seq<u8>, at: nat, count: nat, t: Seq<u8>)
    requires at <= s.len(), pbs(h, s, at, count) is Some
    ensures pbs(h, s + t, at, count) == pbs(h, s, at, count)
    decreases h, count + 1
{
    if count > 0 {
        lemma_pbs_more(h, s, at, (count - 1) as nat, t);
        lemma_valid_arr(h, s, at, (count - 1) as nat);
        let (v, n) = pbs(h, s, at, (count - 1) as nat)->Some_0;
        lemma_pb_more(h, s.skip(n as int), t);
        assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
    }
}
proof fn lemma_pts_more(hs: Seq<H>, s: Seq<u8>, t: Seq<u8>)
    requires pts(hs, s) is Some
    ensures pts(hs, s + t) == pts(hs, s)
    decreases hs, hs.len()
{
    if hs.len() > 0 {
        lemma_pts_more(hs.drop_last(), s, t);
        lemma_valid_tup(hs.drop_last(), s);
        let (v, n) = pts(hs.drop_last(), s)->Some_0;
        lemma_pb_more(hs.last(), s.skip(n as int), t);
        assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
    }
}
proof fn lemma_pms_more(h: H, s: Seq<u8>, at: nat, count: nat, t: Seq<u8>)
    requires at <= s.len(), pms(h, s, at, count) is Some
    ensures pms(h, s + t, at, count) == pms(h, s, at, count)
    decreases h, count + 1
{
    if count > 0 {
        lemma_pms_more(h, s, at, (count - 1) as nat, t);
        lemma_valid_map(h, s, at, (count - 1) as nat);
        let (e, n) = pms(h, s, at, (count - 1) as nat)->Some_0;
        lemma_lp_more(H::Str, s.skip(n as int), t);
        lemma_lp(H::Str, s.skip(n as int));
        assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
        let m = lp(H::Str, s.skip(n as int))->Some_0.1;
        lemma_pb_more(h, s.skip((n + m) as int), t);
        assert((s + t).skip((n + m) as int) =~= s.skip((n + m) as int) + t);
    }
}
/// C10, C15: no proper prefix of the bytes of a value is one: decoding fails on it.
pub proof fn theorem_body_prefix_fails(h: H, b: B, n: nat)
    requires wb(b), valid(h, b), n < bb(b).len()
    ensures pb(h, bb(b).take(n as int)) is None
{
    let s = bb(b).take(n as int);
    theorem_body_round_trip(h, b, seq![]);
    assert(bb(b) + seq![] =~= bb(b));
    if pb(h, s) is Some {
        lemma_pb_more(h, s, bb(b).skip(n as int));
        theorem_decoded_body_is_valid(h, s);
        assert(s + bb(b).skip(n as int) =~= bb(b));
    }
}
/// Once one of several elements cannot be decoded, they cannot.
pub proof fn lemma_pbs_none(h: H, s: Seq<u8>, at: nat, i: nat, count: nat)
    requires i <= count, pbs(h, s, at, i) is None
    ensures pbs(h, s, at, count) is None
    decreases count
{ if i < count { lemma_pbs_none(h, s, at, i, (count - 1) as nat); } }
pub proof fn lemma_pms_none(h: H, s: Seq<u8>, at: nat, i: nat, count: nat)
    requires i <= count, pms(h, s, at, i) is None
    ensures pms(h, s, at, count) is None
    decreases count
{ if i < count { lemma_pms_none(h, s, at, i, (count - 1) as nat); } }
pub proof fn lemma_pts_none(hs: Seq<H>, s: Seq<u8>, i: nat)
    requires i <= hs.len(), pts(hs.take(i as int), s) is None
    ensures pts(hs, s) is None
    decreases hs.len()
{
    if i < hs.len() {
        assert(hs.take(i as int) =~= hs.drop_last().take(i as int));
        lemma_pts_none(hs.drop_last(), s, i);
    } else {
        assert(hs.take(i as int) =~= hs);
    }
}

pub open spec fn is_leaf(h: H) -> bool { !(h is Unit || h is Opt || h is Arr || h is Tup || h is Map || h is Enum) }
/// One step of pb, for the proofs of functions that hide it.
pub proof fn lemma_pb_step(h: H, s: Seq<u8>)
    ensures
        h is Unit ==> pb(h, s) == Some((B::Unit, 0nat)),
        is_leaf(h) ==> pb(h, s) == (match lp(h, s) { Some((l, n)) => Some((B::Leaf(l), n)), None => None }),
        h matches H::Opt(x) ==> {
            &&& lp(H::Bool, s) is None ==> pb(h, s) is None
            &&& lp(H::Bool, s) matches Some((L::Bool(v), n)) ==> n == 1 && pb(h, s) == (if !v { Some((B::None, 1nat)) } else {
                    match pb(*x, s.skip(1)) { Some((b, m)) => Some((B::Some(Box::new(b)), 1 + m)), None => None } })
        },
        h matches H::Enum(hs) ==> match lp(H::U32, s) {
            Some((l, k)) => l is U32 && pb(h, s) == (if l->U32_0 < hs.len() {
                match pb(hs[l->U32_0 as int], s.skip(k as int)) { Some((b, m)) => Some((B::Enum(l->U32_0, Box::new(b)), k + m)), None => None }
            } else { None }),
            None => pb(h, s) is None,
        },
        (h is Arr || h is Map) && lp(H::U64, s) is None ==> pb(h, s) is None,
        match lp(H::U64, s) { Some((l, k)) => l is U64 && du64(s) == Some((l->U64_0, k)), None => du64(s) is None },
        lp(H::Bool, s) is Some ==> lp(H::Bool, s)->Some_0.0 is Bool && lp(H::Bool, s)->Some_0.1 == 1,
        lp(H::Str, s) is Some ==> lp(H::Str, s)->Some_0.0 is Str,
        pb(h, s) is Some ==> pb(h, s)->Some_0.1 <= s.len(),
        forall|x: H| #[trigger] is_leaf(x) && lp(x, s) is Some ==> 1 <= lp(x, s)->Some_0.1 <= s.len(),
{
    lemma_lp(H::Bool, s);
    lemma_lp(H::Str, s);
    theorem_decoded_body_is_valid(h, s);
    assert forall|x: H| #[trigger] is_leaf(x) && lp(x, s) is Some implies 1 <= lp(x, s)->Some_0.1 <= s.len() by { lemma_lp(x, s); }
}
/// One step of valid.
pub proof fn lemma_valid_step(h: H, b: B)
    ensures
        h is Unit && b is Unit ==> valid(h, b),
        h is Unit && !(b is Unit) ==> !valid(h, b),
        h matches H::Opt(x) ==> valid(h, b) == (b is None || b is Some && valid(*x, *b->Some_0)),
        h matches H::Arr(x) ==> valid(h, b) == (b is Arr && valid_all(*x, b->Arr_0)),
        h matches H::Tup(hs) ==> valid(h, b) == (b is Tup && hs.len() == b->Tup_0.len() && valid_each(hs, b->Tup_0)),
        h matches H::Map(x) ==> valid(h, b) == (b is Map && valid_values(*x, b->Map_0)),
        h matches H::Enum(hs) ==> valid(h, b) == (b is Enum && b->Enum_0 < hs.len() && valid(hs[b->Enum_0 as int], *b->Enum_1)),
        is_leaf(h) ==> valid(h, b) == (b is Leaf && kind(b->Leaf_0) == h),
{}
/// One more element, field, value.
pub proof fn lemma_valid_all_step(h: H, v: Seq<B>, i: int)
    requires 0 <= i < v.len()
    ensures valid_all(h, v.take(i + 1)) == (valid_all(h, v.take(i)) && valid(h, v[i]))
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
pub proof fn lemma_valid_each_step(hs: Seq<H>, v: Seq<B>, i: int)
    requires 0 <= i < v.len(), hs.len() == v.len()
    ensures valid_each(hs.take(i + 1), v.take(i + 1)) == (valid_each(hs.take(i), v.take(i)) && valid(hs[i], v[i]))
{ assert(hs.take(i + 1).drop_last() =~= hs.take(i)); assert(v.take(i + 1).drop_last() =~= v.take(i)); }
pub proof fn lemma_valid_values_step(h: H, m: Seq<(Seq<char>, B)>, i: int)
    requires 0 <= i < m.len()
    ensures valid_values(h, m.take(i + 1)) == (valid_values(h, m.take(i)) && valid(h, m[i].1))
{ assert(m.take(i + 1).drop_last() =~= m.take(i)); }
pub proof fn lemma_valid_none(h: H, hs: Seq<H>, v: Seq<B>, m: Seq<(Seq<char>, B)>)
    ensures valid_all(h, v.take(0)), valid_each(hs.take(0), v.take(0)), valid_values(h, m.take(0)),
        v.take(v.len() as int) == v, hs.take(hs.len() as int) == hs, m.take(m.len() as int) == m,
{ assert(v.take(v.len() as int) =~= v); assert(hs.take(hs.len() as int) =~= hs); assert(m.take(m.len() as int) =~= m); }
}
