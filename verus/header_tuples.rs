pub proof fn lemma_hbs_push(v: Seq<H>, h: H)
    ensures hbs(v.push(h)) == hbs(v) + hb(h)
{ assert(v.push(h).drop_last() =~= v); }
pub proof fn lemma_hbs_prefix(v: Seq<H>, k: nat)
    requires k <= v.len()
    ensures hbs(v.take(k as int)).len() <= hbs(v).len()
    decreases v.len()
{
    if k < v.len() {
        lemma_hbs_prefix(v.drop_last(), k);
        assert(v.drop_last().take(k as int) =~= v.take(k as int));
        assert(v =~= v.drop_last().push(v.last()));
        lemma_hbs_push(v.drop_last(), v.last());
    } else {
        assert(v.take(k as int) =~= v);
    }
}

pub proof fn lemma_wfs_at(v: Seq<H>, k: nat)
    requires k < v.len()
    ensures wfs(v) ==> wf(v[k as int])
    decreases v.len()
{
    if k < v.len() - 1 { lemma_wfs_at(v.drop_last(), k); }
}
pub proof fn lemma_wfs_next(v: Seq<H>, k: nat)
    requires k < v.len()
    ensures wfs(v.take(k as int)) && wf(v[k as int]) ==> wfs(v.take((k + 1) as int))
{
    assert(v.take((k + 1) as int).drop_last() =~= v.take(k as int));
}

/// The code, the count and the first k of the members all are written.
#[verifier::opaque]
pub open spec fn so_far(code: u8, all: Seq<H>, k: nat, room0: Option<nat>, out0: Seq<u8>, room: Option<nat>, out: Seq<u8>) -> bool {
    let b = seq![code] + vu16(all.len() as u16) + hbs(all.take(k as int));
    &&& k <= all.len() <= 65535
    &&& fits(room0, b.len())
    &&& out == out0 + b
    &&& room == minus(room0, b.len())
}
pub open spec fn node(code: u8, all: Seq<H>) -> H { if code == 21 { H::Tup(all) } else { H::Enum(all) } }
pub proof fn so_far_first(code: u8, all: Seq<H>, room0: Option<nat>, out0: Seq<u8>, room: Option<nat>, out: Seq<u8>)
    requires all.len() <= 65535, fits(room0, 1 + vu16(all.len() as u16).len()), room == minus(room0, 1 + vu16(all.len() as u16).len()),
        out =~= out0 + seq![code] + vu16(all.len() as u16)
    ensures so_far(code, all, 0, room0, out0, room, out)
{
    reveal(so_far);
    assert(all.take(0) =~= seq![]);
    assert(hbs(all.take(0)) =~= seq![]);
    assert(out =~= out0 + (seq![code] + vu16(all.len() as u16) + hbs(all.take(0))));
}
pub proof fn so_far_here(code: u8, all: Seq<H>, k: nat, room0: Option<nat>, out0: Seq<u8>, room: Option<nat>, out: Seq<u8>)
    requires so_far(code, all, k, room0, out0, room, out), k < all.len(), code == 21 || code == 24
    ensures !fits(room, hb(all[k as int]).len()) ==> !fits(room0, hb(node(code, all)).len()),
        !wf(all[k as int]) ==> !wf(node(code, all)),
{
    reveal(so_far);
    lemma_wfs_at(all, k);
    lemma_hbs_prefix(all, k + 1);
    lemma_hbs_push(all.take(k as int), all[k as int]);
    assert(all.take(k as int).push(all[k as int]) =~= all.take((k + 1) as int));
}
pub proof fn so_far_next(code: u8, all: Seq<H>, k: nat, room0: Option<nat>, out0: Seq<u8>, room: Option<nat>, out: Seq<u8>, room2: Option<nat>, out2: Seq<u8>)
    requires so_far(code, all, k, room0, out0, room, out), k < all.len(), fits(room, hb(all[k as int]).len()),
        out2 == out + hb(all[k as int]), room2 == minus(room, hb(all[k as int]).len())
    ensures so_far(code, all, k + 1, room0, out0, room2, out2)
{
    reveal(so_far);
    lemma_hbs_push(all.take(k as int), all[k as int]);
    assert(all.take(k as int).push(all[k as int]) =~= all.take((k + 1) as int));
    assert(out2 =~= out0 + (seq![code] + vu16(all.len() as u16) + hbs(all.take((k + 1) as int))));
}
pub proof fn so_far_all(code: u8, all: Seq<H>, room0: Option<nat>, out0: Seq<u8>, room: Option<nat>, out: Seq<u8>)
    requires so_far(code, all, all.len(), room0, out0, room, out), code == 21 || code == 24
    ensures fits(room0, hb(node(code, all)).len()), out == out0 + hb(node(code, all)), room == minus(room0, hb(node(code, all)).len()),
        wfs(all.take(all.len() as int)) ==> wf(node(code, all)),
{
    reveal(so_far);
    assert(all.take(all.len() as int) =~= all);
}

