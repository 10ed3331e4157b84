pub mod derive_code {
use super::*;
use super::varint::*;
use super::header_spec::*;
use super::derive_spec::*;
use super::quoting::*;
use super::proc_macro2::{Delimiter, Group, Span, TokenStream};
use super::to_tokens::ToTokens;
use super::syn::{Attribute, DeriveInput, Field, Meta, NestedMeta, Variant};
use super::prefix_varint::PrefixVarint;
use std::slice::Iter;
use super::syn::{left, obeys};
//@consts dlhn_derive/src/lib.rs
//@quotes
//@rewrite parse_macro_input!(input as DeriveInput) => input
//@rewrite .get_ident().map(ToString::to_string) => .ident_string()
//@rewrite == Some($c:ident.to_string()) => .is_text($c)
//@rewrite format!("{:?}", $x) => debug_text(&$x)
//@rewrite todo!() => unreached()
//@rewrite for $x:ident in $e.iter() { => for $x in it_: $e.iter() {
//@rewrite .filter($f).map($g).collect::<Vec<_>>() => .kept_($f, $g)
//@fns dlhn_derive/src/lib.rs
//@fn derive_serialize_header
//@sig (input: TokenStream) => (input: DeriveInput)
    requires expressible($1.data)
    ensures
        unsupported($1.data) ==> r@ == Tok::CompileError,
        !unsupported($1.data) ==> r@ is Impl && r@->Impl_0 == $1.ident && out(r@->Impl_1) == hb(definition_header($1.data)),
//@attr #[verifier::loop_isolation(false)]
//@start
    broadcast use group_quoted;
    let ghost data0 = $1.data;
//@closure 1
    |$1: &Field| -> (b: bool) ensures b == sometimes($1.attrs@)
//@closure 2
    |$1: &&Field| -> (b: bool) ensures b == !skipped($1.attrs@)
//@closure 3
    |$1: &Field| -> (t: TokenStream) ensures t@ == Tok::Type(Ty::Of($1.ty))
//@before 1
    let ghost fs = data0->Struct_0.fields.all();
    proof { assert(fs.take(0) =~= seq![]); }
//@loop 1
    invariant
        fs == data0->Struct_0.fields.all(), data0 is Struct, it_.seq().len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] it_.seq()[i]) == fs[i],
        !any_sometimes(fs.take(it_.index())), types_of(types@) =~= kept(fs.take(it_.index())),
//@loopbody 1
    proof { lemma_kept_step(fs, it_.index() as int); }
//@after 1
    proof { assert(fs.take(fs.len() as int) =~= fs); lemma_kept_len(fs); }
//@before 2
    let ghost vs = data0->Enum_0.variants@;
    proof { assert(vs.take(0) =~= seq![]); }
//@loop 2
    invariant
        vs == data0->Enum_0.variants@, data0 is Enum, it_.seq().len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> *(#[trigger] it_.seq()[i]) == vs[i],
        !some_variant_sometimes(vs.take(it_.index())), all_carry(outers@, inners@, variant_headers(vs.take(it_.index()))),
//@loopbody 2
    let ghost n2 = it_.index() as int;
    proof { lemma_variants_step(vs, n2); lemma_kept_len(vs[n2].fields.all()); }
//@after 2
    proof { assert(vs.take(vs.len() as int) =~= vs); lemma_variants_len(vs); }
//@loopend 2
    proof {
        if !skipped(vs[n2].attrs@) { lemma_carries(outers@.last(), inners@.last()@, vs[n2].fields.all()); }
    }
//@fn is_skip_field
    requires obeys($1)
    ensures r == exists|i: int| 0 <= i < left($1).len() && skips(*(#[trigger] left($1)[i]))
//@closure 1
    |$1: &Attribute| -> (b: bool) ensures b == skips(*$1)
//@closure 2
    |$1: &NestedMeta| -> (b: bool) ensures b == (names(*$1, "skip"@) || names(*$1, "skip_serializing"@))
//@fn has_skip_serializing_if
    requires obeys($1)
    ensures r == exists|i: int| 0 <= i < left($1).len() && says(*(#[trigger] left($1)[i]), "skip_serializing_if"@)
//@closure 1
    |$1: &Attribute| -> (b: bool) ensures b == says(*$1, "skip_serializing_if"@)
//@closure 2
    |$1: &NestedMeta| -> (b: bool) ensures b == names(*$1, "skip_serializing_if"@)
//@end
}
