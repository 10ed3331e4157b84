/// What the derived header of a definition is.
pub mod derive_spec {
use super::*;
use super::varint::*;
use super::header_spec::*;
use super::syn::*;
use super::quoting::*;
/// The header of a type: what its SerializeHeader writes.
pub uninterp spec fn header_of(t: Type) -> H;
pub open spec fn header(t: Ty) -> H { match t { Ty::Of(t) => header_of(t), Ty::Unit => H::Unit } }

pub open spec fn names(n: NestedMeta, what: Seq<char>) -> bool { n is Meta && n->Meta_0.path_().ident() == Some(what) }
/// #[serde(..., what, ...)]
pub open spec fn says(a: Attribute, what: Seq<char>) -> bool {
    &&& a.path.ident() == Some("serde"@)
    &&& a.meta() is Some && a.meta()->Some_0 is List
    &&& exists|i: int| 0 <= i < a.meta()->Some_0->List_0.nested@.len() && names(#[trigger] a.meta()->Some_0->List_0.nested@[i], what)
}
/// Left out of what is serialized.
pub open spec fn skips(a: Attribute) -> bool { says(a, "skip"@) || says(a, "skip_serializing"@) }
pub open spec fn skipped(attrs: Seq<Attribute>) -> bool { exists|i: int| 0 <= i < attrs.len() && skips(#[trigger] attrs[i]) }
/// Left out of what is serialized depending on the value.
pub open spec fn sometimes(attrs: Seq<Attribute>) -> bool { exists|i: int| 0 <= i < attrs.len() && says(#[trigger] attrs[i], "skip_serializing_if"@) }
pub open spec fn any_sometimes(f: Seq<Field>) -> bool { exists|i: int| 0 <= i < f.len() && sometimes((#[trigger] f[i]).attrs@) }
pub open spec fn variant_sometimes(v: Variant) -> bool { sometimes(v.attrs@) || any_sometimes(v.fields.all()) }
pub open spec fn some_variant_sometimes(v: Seq<Variant>) -> bool { exists|i: int| 0 <= i < v.len() && variant_sometimes(#[trigger] v[i]) }
/// No header describes it.
pub open spec fn unsupported(d: Data) -> bool {
    match d {
        Data::Struct(s) => any_sometimes(s.fields.all()),
        Data::Enum(e) => some_variant_sometimes(e.variants@),
        Data::Union(_) => true,
    }
}
/// The types of the fields that are serialized, in order.
pub open spec fn kept(f: Seq<Field>) -> Seq<Ty>
    decreases f.len()
{
    if f.len() == 0 { seq![] } else if skipped(f.last().attrs@) { kept(f.drop_last()) } else { kept(f.drop_last()).push(Ty::Of(f.last().ty)) }
}
pub open spec fn headers(t: Seq<Ty>) -> Seq<H> { t.map_values(|t: Ty| header(t)) }
/// What a variant carries: nothing, a value, or several.
pub open spec fn variant_header(f: Seq<Field>) -> H {
    let t = kept(f);
    if t.len() == 0 { H::Unit } else if t.len() == 1 { header(t[0]) } else { H::Tup(headers(t)) }
}
pub open spec fn variant_headers(v: Seq<Variant>) -> Seq<H>
    decreases v.len()
{
    if v.len() == 0 { seq![] } else if skipped(v.last().attrs@) { variant_headers(v.drop_last()) }
    else { variant_headers(v.drop_last()).push(variant_header(v.last().fields.all())) }
}
pub open spec fn definition_header(d: Data) -> H {
    match d {
        Data::Struct(s) => H::Tup(headers(kept(s.fields.all()))),
        Data::Enum(e) => H::Enum(variant_headers(e.variants@)),
        Data::Union(_) => arbitrary(),
    }
}
/// As many fields and variants as a header can express.
pub open spec fn expressible(d: Data) -> bool {
    match d {
        Data::Struct(s) => s.fields.all().len() <= 65535,
        Data::Enum(e) => e.variants@.len() <= 65535 && forall|i: int| 0 <= i < e.variants@.len() ==> (#[trigger] e.variants@[i]).fields.all().len() <= 65535,
        Data::Union(_) => true,
    }
}
/// What the generated statements write, given that the header of a type writes the bytes of it.
pub open spec fn out(s: Seq<Stmt>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { out(s.drop_last()) + match s.last() { Stmt::Write(b) => b, Stmt::Header(t) => hb(header(t)) } }
}
pub broadcast proof fn lemma_out_add(a: Seq<Stmt>, b: Seq<Stmt>)
    ensures #[trigger] out(a + b) == out(a) + out(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(out(a) + out(b) =~= out(a)); } else {
        lemma_out_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(out(a + b) =~= out(a) + out(b));
    }
}
pub broadcast proof fn lemma_out_write(b: Seq<u8>)
    ensures #[trigger] out(seq![Stmt::Write(b)]) == b
{
    let s = seq![Stmt::Write(b)];
    assert(s.drop_last() =~= seq![]);
    assert(out(s.drop_last()) == Seq::<u8>::empty());
    assert(out(s) =~= b);
}
pub broadcast proof fn lemma_out_header(t: Ty)
    ensures #[trigger] out(seq![Stmt::Header(t)]) == hb(header(t))
{
    let s = seq![Stmt::Header(t)];
    assert(s.drop_last() =~= seq![]);
    assert(out(s.drop_last()) == Seq::<u8>::empty());
    assert(out(s) =~= hb(header(t)));
}
/// The bytes of a list of tokens.
pub proof fn lemma_rep_bytes(n: nat, f: spec_fn(int) -> Seq<u8>, b: Seq<u8>)
    requires n == b.len(), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == seq![b[i]]
    ensures rep_n(n, f) == b
    decreases n
{
    if n > 0 {
        lemma_rep_bytes((n - 1) as nat, f, b.drop_last());
        assert(b.drop_last() + seq![b.last()] =~= b);
    } else { assert(b =~= seq![]); }
}
/// The headers of a list of types.
pub proof fn lemma_rep_headers(n: nat, f: spec_fn(int) -> Seq<Stmt>, t: Seq<Ty>)
    requires n == t.len(), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == seq![Stmt::Header(t[i])]
    ensures out(rep_n(n, f)) == hbs(headers(t))
    decreases n
{
    if n > 0 {
        lemma_rep_headers((n - 1) as nat, f, t.drop_last());
        lemma_out_add(rep_n((n - 1) as nat, f), f(n - 1));
        lemma_out_header(t.last());
        assert(headers(t).drop_last() =~= headers(t.drop_last()));
        assert(headers(t).last() == header(t.last()));
    } else { assert(headers(t) =~= seq![]); }
}
/// The headers of a list of variants.
pub proof fn lemma_rep_variants(n: nat, f: spec_fn(int) -> Seq<Stmt>, h: Seq<H>)
    requires n == h.len(), forall|i: int| 0 <= i < n ==> out(#[trigger] f(i)) == hb(h[i])
    ensures out(rep_n(n, f)) == hbs(h)
    decreases n
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies out(#[trigger] f(i)) == hb(h.drop_last()[i]) by {}
        lemma_rep_variants((n - 1) as nat, f, h.drop_last());
        lemma_out_add(rep_n((n - 1) as nat, f), f(n - 1));
        assert(out(f(n - 1)) == hb(h.last()));
    }
}
pub proof fn lemma_kept_len(f: Seq<Field>)
    ensures kept(f).len() <= f.len()
    decreases f.len()
{ if f.len() > 0 { lemma_kept_len(f.drop_last()); } }
pub proof fn lemma_variants_len(v: Seq<Variant>)
    ensures variant_headers(v).len() <= v.len()
    decreases v.len()
{ if v.len() > 0 { lemma_variants_len(v.drop_last()); } }
pub broadcast proof fn lemma_vec(s: Seq<u8>, v: nat)
    requires #[trigger] super::prefix_varint::written(s, s.len(), v, 3), v < 0x1_0000
    ensures s == vu16(v as u16)
{
    super::prefix_varint::lemma_written(s, s.len(), v as u64, 3);
    assert(s.subrange(0, s.len() as int) =~= s);
}
/// The types that tokens are.
pub open spec fn types_of(v: Seq<super::proc_macro2::TokenStream>) -> Seq<Ty> { v.map_values(|x: super::proc_macro2::TokenStream| x.ty_()) }
/// What is written for a variant.
pub open spec fn carries(o: super::proc_macro2::TokenStream, inner: Seq<super::proc_macro2::TokenStream>, h: H) -> bool {
    o.array_() + hbs(headers(types_of(inner))) == hb(h)
}
pub open spec fn all_carry(o: Seq<super::proc_macro2::TokenStream>, inner: Seq<Vec<super::proc_macro2::TokenStream>>, h: Seq<H>) -> bool {
    o.len() == h.len() && inner.len() == h.len() && forall|i: int| 0 <= i < h.len() ==> carries(#[trigger] o[i], inner[i]@, h[i])
}
pub proof fn lemma_carries(o: super::proc_macro2::TokenStream, inner: Seq<super::proc_macro2::TokenStream>, f: Seq<Field>)
    requires
        kept(f).len() == 0 ==> types_of(inner) =~= seq![Ty::Unit],
        kept(f).len() > 0 ==> types_of(inner) == kept(f),
        o.array_() =~= if kept(f).len() <= 1 { seq![] } else { seq![21u8] + vu16(kept(f).len() as u16) },
        f.len() <= 65535,
    ensures carries(o, inner, variant_header(f))
{
    let t = types_of(inner);
    let h = headers(t);
    reveal_with_fuel(hbs, 3);
    if kept(f).len() <= 1 {
        assert(h.drop_last() =~= seq![]);
        assert(h.last() == header(t[0]));
        assert(o.array_() + hbs(h) =~= hb(header(t[0])));
    } else {
        lemma_kept_len(f);
        assert(o.array_() + hbs(h) =~= hb(H::Tup(h)));
    }
}
pub proof fn lemma_kept_step(f: Seq<Field>, i: int)
    requires 0 <= i < f.len()
    ensures
        kept(f.take(i + 1)) == (if skipped(f[i].attrs@) { kept(f.take(i)) } else { kept(f.take(i)).push(Ty::Of(f[i].ty)) }),
        any_sometimes(f.take(i + 1)) <==> any_sometimes(f.take(i)) || sometimes(f[i].attrs@),
        any_sometimes(f.take(i + 1)) ==> any_sometimes(f),
{
    let g = f.take(i + 1);
    assert(g.drop_last() =~= f.take(i));
    if any_sometimes(f.take(i)) {
        let k = choose|k: int| 0 <= k < i && sometimes((#[trigger] f.take(i)[k]).attrs@);
        assert(sometimes(g[k].attrs@));
    }
    if sometimes(f[i].attrs@) { assert(sometimes(g[i].attrs@)); }
    if any_sometimes(g) {
        let k = choose|k: int| 0 <= k < i + 1 && sometimes((#[trigger] g[k]).attrs@);
        assert(sometimes(f[k].attrs@));
        if k < i { assert(sometimes(f.take(i)[k].attrs@)); }
    }
}
pub proof fn lemma_variants_step(v: Seq<Variant>, i: int)
    requires 0 <= i < v.len()
    ensures
        variant_headers(v.take(i + 1)) == (if skipped(v[i].attrs@) { variant_headers(v.take(i)) } else { variant_headers(v.take(i)).push(variant_header(v[i].fields.all())) }),
        some_variant_sometimes(v.take(i + 1)) <==> some_variant_sometimes(v.take(i)) || variant_sometimes(v[i]),
        some_variant_sometimes(v.take(i + 1)) ==> some_variant_sometimes(v),
{
    let g = v.take(i + 1);
    assert(g.drop_last() =~= v.take(i));
    if some_variant_sometimes(v.take(i)) {
        let k = choose|k: int| 0 <= k < i && variant_sometimes(#[trigger] v.take(i)[k]);
        assert(variant_sometimes(g[k]));
    }
    if variant_sometimes(v[i]) { assert(variant_sometimes(g[i])); }
    if some_variant_sometimes(g) {
        let k = choose|k: int| 0 <= k < i + 1 && variant_sometimes(#[trigger] g[k]);
        assert(variant_sometimes(v[k]));
        if k < i { assert(variant_sometimes(v.take(i)[k])); }
    }
}
/// .filter(f).map(g).collect() of the fields that are kept
pub trait KeptFields<'a>: Sized {
    #[verifier::prophetic]
    spec fn obeys_(self) -> bool;
    #[verifier::prophetic]
    spec fn goes_through(self, f: Seq<Field>) -> bool;
    fn kept_<F: Fn(&&'a Field) -> bool, G: Fn(&'a Field) -> super::proc_macro2::TokenStream>(self, f: F, g: G) -> (r: Vec<super::proc_macro2::TokenStream>)
        requires
            self.obeys_(),
            forall|x: &'a Field| f.requires((&x,)), forall|x: &'a Field| g.requires((x,)),
            forall|x: &'a Field, b: bool| f.ensures((&x,), b) ==> b == !skipped(x.attrs@),
            forall|x: &'a Field, t: super::proc_macro2::TokenStream| g.ensures((x,), t) ==> t@ == Tok::Type(Ty::Of(x.ty)),
        ensures forall|f: Seq<Field>| self.goes_through(f) ==> types_of(r@) == #[trigger] kept(f);
}
impl<'a> KeptFields<'a> for std::slice::Iter<'a, Field> {
    #[verifier::prophetic]
    open spec fn obeys_(self) -> bool { obeys(self) }
    #[verifier::prophetic]
    open spec fn goes_through(self, f: Seq<Field>) -> bool {
        left(self).len() == f.len() && forall|i: int| #![trigger left(self)[i]] #![trigger f[i]] 0 <= i < f.len() ==> *left(self)[i] == f[i]
    }
    fn kept_<F: Fn(&&'a Field) -> bool, G: Fn(&'a Field) -> super::proc_macro2::TokenStream>(self, f: F, g: G) -> Vec<super::proc_macro2::TokenStream> {
        let mut v = Vec::new();
        let ghost all = Seq::new(left(self).len(), |i: int| *left(self)[i]);
        proof { assert(all.take(0) =~= seq![]); }
        for x in it_: self
            invariant
                forall|x: &'a Field| f.requires((&x,)), forall|x: &'a Field| g.requires((x,)),
                forall|x: &'a Field, b: bool| f.ensures((&x,), b) ==> b == !skipped(x.attrs@),
                forall|x: &'a Field, t: super::proc_macro2::TokenStream| g.ensures((x,), t) ==> t@ == Tok::Type(Ty::Of(x.ty)),
                it_.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> *(#[trigger] it_.seq()[i]) == all[i],
                types_of(v@) =~= kept(all.take(it_.index())),
        {
            proof { lemma_kept_step(all, it_.index() as int); }
            if f(&x) { v.push(g(x)); }
        }
        proof {
            assert(all.take(all.len() as int) =~= all);
            assert forall|f: Seq<Field>| self.goes_through(f) implies types_of(v@) == #[trigger] kept(f) by { assert(all =~= f); }
        }
        v
    }
}
pub broadcast proof fn lemma_quoted_bytes(n: nat, f: spec_fn(int) -> Seq<u8>, v: u16)
    requires n == vu16(v).len(), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == seq![vu16(v)[i]]
    ensures #![trigger rep_n(n, f), vu16(v)] rep_n(n, f) == vu16(v)
{ lemma_rep_bytes(n, f, vu16(v)); }
pub broadcast proof fn lemma_quoted_headers(n: nat, f: spec_fn(int) -> Seq<Stmt>, t: Seq<Ty>)
    requires n == t.len(), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == seq![Stmt::Header(t[i])]
    ensures #![trigger out(rep_n(n, f)), headers(t)] out(rep_n(n, f)) == hbs(headers(t))
{ lemma_rep_headers(n, f, t); }
pub broadcast proof fn lemma_quoted_variants(n: nat, f: spec_fn(int) -> Seq<Stmt>, v: Seq<Variant>)
    requires n == variant_headers(v).len(), forall|i: int| 0 <= i < n ==> out(#[trigger] f(i)) == hb(variant_headers(v)[i])
    ensures #![trigger out(rep_n(n, f)), variant_headers(v)] out(rep_n(n, f)) == hbs(variant_headers(v))
{ lemma_rep_variants(n, f, variant_headers(v)); }
pub broadcast group group_quoted { lemma_vec, lemma_out_add, lemma_out_write, lemma_out_header, lemma_quoted_bytes, lemma_quoted_headers, lemma_quoted_variants }
/// C12: without skipped variants the header lists them all, at the index that serde writes.
pub proof fn theorem_variant_index(v: Seq<Variant>, i: int)
    requires 0 <= i < v.len(), forall|k: int| 0 <= k < v.len() ==> !skipped((#[trigger] v[k]).attrs@)
    ensures variant_headers(v).len() == v.len(), variant_headers(v)[i] == variant_header(v[i].fields.all())
    decreases v.len()
{
    assert(!skipped(v[v.len() - 1].attrs@));
    let w = v.drop_last();
    assert forall|k: int| 0 <= k < w.len() implies !skipped((#[trigger] w[k]).attrs@) by { assert(!skipped(v[k].attrs@)); }
    if w.len() > 0 { theorem_variant_index(w, if i < w.len() { i } else { 0 }); }
}
proof fn lemma_wf_headers(t: Seq<Ty>)
    requires forall|x: Type| wf(#[trigger] header_of(x))
    ensures wfs(headers(t))
    decreases t.len()
{
    if t.len() > 0 {
        lemma_wf_headers(t.drop_last());
        assert(headers(t).drop_last() =~= headers(t.drop_last()));
        assert(wf(header(t.last())));
    }
}
proof fn lemma_wf_variants(v: Seq<Variant>)
    requires forall|x: Type| wf(#[trigger] header_of(x)), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).fields.all().len() <= 65535
    ensures wfs(variant_headers(v))
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).fields.all().len() <= 65535 by { assert(v[i].fields.all().len() <= 65535); }
        lemma_wf_variants(w);
        let f = v.last().fields.all();
        assert(v[v.len() - 1].fields.all().len() <= 65535);
        lemma_kept_len(f);
        lemma_wf_headers(kept(f));
        if kept(f).len() == 1 { assert(wf(header(kept(f)[0]))); }
        if !skipped(v.last().attrs@) {
            assert(variant_headers(v).drop_last() =~= variant_headers(w));
            assert(headers(kept(f)).len() == kept(f).len());
            assert(wf(variant_header(f)));
        }
    }
}
/// C12: a derived header is one that the format can express, if those of the fields are; it decodes to itself (theorem_header_round_trip).
pub proof fn theorem_derived_header(d: Data, t: Seq<u8>)
    requires expressible(d), !unsupported(d), forall|x: Type| wf(#[trigger] header_of(x))
    ensures wf(definition_header(d)), ph(hb(definition_header(d)) + t) == Some((definition_header(d), hb(definition_header(d)).len()))
{
    match d {
        Data::Struct(s) => { lemma_kept_len(s.fields.all()); lemma_wf_headers(kept(s.fields.all())); }
        Data::Enum(e) => { lemma_variants_len(e.variants@); lemma_wf_variants(e.variants@); }
        Data::Union(_) => {}
    }
    theorem_header_round_trip(definition_header(d), t);
}
}
