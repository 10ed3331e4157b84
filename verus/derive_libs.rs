// Stand-ins for what the derive macro uses of syn, proc_macro2 and quote, and what each of them does.
pub mod syn {
use super::*;
use super::proc_macro2::{Span, TokenStream};
/// Punctuated<T, ...>, or a Vec<T> that is gone through.
pub struct List<T> { pub v: Vec<T> }
impl<T> View for List<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> List<T> {
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn iter(&self) -> (r: std::slice::Iter<'_, T>)
        ensures
            obeys(r), left(r).len() == self@.len(),
            forall|i: int| #![trigger left(r)[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *left(r)[i] == self@[i],
    { self.v.iter() }
}
#[verifier::prophetic]
pub open spec fn left<'a, T>(r: std::slice::Iter<'a, T>) -> Seq<&'a T> { vstd::std_specs::iter::IteratorSpec::remaining(&r) }
pub open spec fn obeys<T>(r: std::slice::Iter<'_, T>) -> bool {
    vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r) && vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some
}
/// A type as it is written.
#[verifier::external_body]
pub struct Type { p: () }
#[verifier::external_body]
pub struct Ident { p: () }
#[verifier::external_body]
pub struct Path { p: () }
impl Path {
    /// The one identifier that the path is.
    pub uninterp spec fn ident(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn is_ident(&self, s: &str) -> (r: bool)
        ensures r == (self.ident() == Some(s@))
    { unimplemented!() }
    /// path.get_ident().map(ToString::to_string)
    #[verifier::external_body]
    pub fn ident_string(&self) -> (r: Option<String>)
        ensures r is Some <==> self.ident() is Some, r is Some ==> r->Some_0@ == self.ident()->Some_0
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Lit { p: () }
pub struct MetaList { pub path: Path, pub nested: List<NestedMeta> }
pub struct MetaNameValue { pub path: Path, pub lit: Lit }
pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
pub enum NestedMeta { Meta(Meta), Lit(Lit) }
impl Meta {
    pub open spec fn path_(self) -> Path {
        match self { Meta::Path(p) => p, Meta::List(l) => l.path, Meta::NameValue(n) => n.path }
    }
    pub fn path(&self) -> (r: &Path)
        ensures *r == self.path_()
    { match self { Meta::Path(p) => p, Meta::List(l) => &l.path, Meta::NameValue(n) => &n.path } }
}
pub struct Attribute { pub path: Path }
impl Attribute {
    /// The attribute as path, path(...) or path = literal, if it is one.
    pub uninterp spec fn meta(&self) -> Option<Meta>;
    #[verifier::external_body]
    pub fn parse_meta(&self) -> (r: Result<Meta, Error>)
        ensures r is Ok <==> self.meta() is Some, r is Ok ==> r->Ok_0 == self.meta()->Some_0
    { unimplemented!() }
}
pub struct Field { pub attrs: List<Attribute>, pub ident: Option<Ident>, pub ty: Type }
pub struct FieldsNamed { pub named: Vec<Field> }
pub struct FieldsUnnamed { pub unnamed: Vec<Field> }
pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
impl Fields {
    pub fn len(&self) -> (r: usize) ensures r == self.all().len()
    { match self { Fields::Named(f) => f.named.len(), Fields::Unnamed(f) => f.unnamed.len(), Fields::Unit => 0 } }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.all().len() == 0) { self.len() == 0 }
    pub open spec fn all(&self) -> Seq<Field> {
        match *self { Fields::Named(f) => f.named@, Fields::Unnamed(f) => f.unnamed@, Fields::Unit => seq![] }
    }
    pub fn iter(&self) -> (r: std::slice::Iter<'_, Field>)
        ensures
            obeys(r), left(r).len() == self.all().len(),
            forall|i: int| #![trigger left(r)[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> *left(r)[i] == self.all()[i],
    { match self { Fields::Named(f) => f.named.iter(), Fields::Unnamed(f) => f.unnamed.iter(), Fields::Unit => [].iter() } }
}
pub struct Variant { pub attrs: List<Attribute>, pub ident: Ident, pub fields: Fields }
pub struct DataStruct { pub fields: Fields }
pub struct DataEnum { pub variants: List<Variant> }
pub struct DataUnion { pub fields: FieldsNamed }
pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
pub struct DeriveInput { pub attrs: List<Attribute>, pub ident: Ident, pub data: Data }
#[verifier::external_body]
pub struct Error { p: () }
impl Error {
    #[verifier::external_body]
    pub fn new(span: Span, message: &str) -> Error { unimplemented!() }
    /// compile_error!(...)
    #[verifier::external_body]
    pub fn to_compile_error(&self) -> (r: TokenStream)
        ensures r@ == super::quoting::Tok::CompileError
    { unimplemented!() }
}
}
pub mod quoting {
use super::*;
use super::syn::{Ident, Type};
/// A type that is interpolated: one from the definition, or ().
pub enum Ty { Of(Type), Unit }
/// What a line of the generated function does.
pub enum Stmt { Write(Seq<u8>), Header(Ty) }
/// What tokens say.
pub enum Tok {
    Empty,
    Type(Ty),
    Array(Seq<u8>),
    Byte(u8),
    /// impl dlhn::header::ser::SerializeHeader for the identifier, whose serialize_header runs the statements.
    Impl(Ident, Seq<Stmt>),
    CompileError,
}
/// What #x stands for where x is interpolated.
pub trait Piece: Sized {
    spec fn bytes_(self) -> Seq<u8>;
    spec fn array_(self) -> Seq<u8>;
    spec fn ty_(self) -> Ty;
}
impl Piece for u8 {
    open spec fn bytes_(self) -> Seq<u8> { seq![self] }
    open spec fn array_(self) -> Seq<u8> { arbitrary() }
    open spec fn ty_(self) -> Ty { arbitrary() }
}
impl Piece for super::proc_macro2::TokenStream {
    open spec fn bytes_(self) -> Seq<u8> { match self@ { Tok::Byte(b) => seq![b], _ => arbitrary() } }
    open spec fn array_(self) -> Seq<u8> { match self@ { Tok::Array(b) => b, _ => arbitrary() } }
    open spec fn ty_(self) -> Ty { match self@ { Tok::Type(t) => t, _ => arbitrary() } }
}
/// What #(#x)* goes through.
pub trait Pieces: Sized {
    type Of;
    spec fn count_(self) -> Option<nat>;
    spec fn at_(self, i: int) -> Self::Of;
}
impl<T> Pieces for Vec<T> {
    type Of = T;
    open spec fn count_(self) -> Option<nat> { Some(self@.len()) }
    open spec fn at_(self, i: int) -> T { self@[i] }
}
impl Pieces for u8 {
    type Of = u8;
    open spec fn count_(self) -> Option<nat> { None }
    open spec fn at_(self, i: int) -> u8 { self }
}
pub open spec fn least(a: Option<nat>, b: Option<nat>) -> Option<nat> {
    match (a, b) { (Some(x), Some(y)) => if x < y { a } else { b }, (None, _) => b, _ => a }
}
/// One after the other, for each index.
pub open spec fn rep_n<T>(n: nat, f: spec_fn(int) -> Seq<T>) -> Seq<T>
    decreases n
{ if n == 0 { seq![] } else { rep_n((n - 1) as nat, f) + f(n - 1) } }
pub open spec fn rep<T>(n: Option<nat>, f: spec_fn(int) -> Seq<T>) -> Seq<T> { rep_n(n->Some_0, f) }
/// ... == Some(c.to_string())
pub trait IsText { spec fn text(&self) -> Option<Seq<char>>; fn is_text(&self, c: &str) -> (r: bool) ensures r == (self.text() == Some(c@)); }
impl IsText for Option<String> {
    open spec fn text(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } }
    #[verifier::external_body]
    fn is_text(&self, c: &str) -> bool { *self == Some(c.to_string()) }
}
/// quote! { }
#[verifier::external_body]
pub fn quoted(t: Ghost<Tok>) -> (r: super::proc_macro2::TokenStream)
    ensures r@ == t@
{ unimplemented!() }
/// What format!("{:?}", ...) gives for a Vec<u8>: [1, 2, 3]
#[verifier::external_body]
pub struct Text { p: () }
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Text {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &Text) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn debug_text(b: &Vec<u8>) -> (r: Text) ensures r@ == b@ { unimplemented!() }
}
pub mod proc_macro2 {
use super::*;
use super::quoting::*;
#[verifier::external_body]
pub struct TokenStream { p: () }
impl View for TokenStream { type V = Tok; uninterp spec fn view(&self) -> Tok; }
#[derive(Clone, Copy)]
pub struct Span;
impl Span { pub fn call_site() -> Span { Span } }
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
#[derive(Debug)]
pub struct LexError;
impl TokenStream {
    #[verifier::external_body]
    pub fn new() -> (r: TokenStream) ensures r@ == Tok::Empty { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &Text) -> (r: Result<TokenStream, LexError>) ensures r is Ok, r->Ok_0@ == Tok::Array(s@) { unimplemented!() }
    /// proc_macro2::TokenStream into proc_macro::TokenStream
    pub fn into(self) -> (r: TokenStream) ensures r == self { self }
}
#[verifier::external_body]
pub struct Group { p: () }
impl View for Group { type V = Tok; uninterp spec fn view(&self) -> Tok; }
impl Group {
    /// The empty array, or the type ().
    #[verifier::external_body]
    pub fn new(d: Delimiter, t: TokenStream) -> (r: Group)
        ensures
            d is Bracket && t@ == Tok::Empty ==> r@ == Tok::Array(seq![]),
            d is Parenthesis && t@ == Tok::Empty ==> r@ == Tok::Type(Ty::Unit),
    { unimplemented!() }
}
}
pub mod to_tokens {
use super::*;
use super::quoting::*;
use super::proc_macro2::{Group, TokenStream};
pub trait ToTokens {
    spec fn tokens(&self) -> Tok;
    fn to_token_stream(&self) -> (r: TokenStream) ensures r@ == self.tokens();
    fn into_token_stream(self) -> (r: TokenStream) where Self: Sized ensures r@ == self.tokens();
}
impl ToTokens for super::syn::Type {
    open spec fn tokens(&self) -> Tok { Tok::Type(Ty::Of(*self)) }
    #[verifier::external_body] fn to_token_stream(&self) -> TokenStream { unimplemented!() }
    #[verifier::external_body] fn into_token_stream(self) -> TokenStream { unimplemented!() }
}
impl ToTokens for Group {
    open spec fn tokens(&self) -> Tok { self@ }
    #[verifier::external_body] fn to_token_stream(&self) -> TokenStream { unimplemented!() }
    #[verifier::external_body] fn into_token_stream(self) -> TokenStream { unimplemented!() }
}
impl ToTokens for u8 {
    open spec fn tokens(&self) -> Tok { Tok::Byte(*self) }
    #[verifier::external_body] fn to_token_stream(&self) -> TokenStream { unimplemented!() }
    #[verifier::external_body] fn into_token_stream(self) -> TokenStream { unimplemented!() }
}
}
