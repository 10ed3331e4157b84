pub open spec fn hv(h: Header) -> H
    decreases h
{
    match h {
        Header::Unit => H::Unit, Header::Optional(x) => H::Opt(Box::new(hv(*x))), Header::Boolean => H::Bool,
        Header::UInt8 => H::U8, Header::UInt16 => H::U16, Header::UInt32 => H::U32, Header::UInt64 => H::U64,
        Header::Int8 => H::I8, Header::Int16 => H::I16, Header::Int32 => H::I32, Header::Int64 => H::I64,
        Header::Float32 => H::F32, Header::Float64 => H::F64, Header::BigUInt => H::BigUint, Header::BigInt => H::BigInt,
        Header::BigDecimal => H::BigDecimal, Header::String => H::Str, Header::Binary => H::Bin,
        Header::Array(x) => H::Arr(Box::new(hv(*x))), Header::Tuple(v) => H::Tup(hvs(v)), Header::Map(x) => H::Map(Box::new(hv(*x))),
        Header::Enum(v) => H::Enum(hvs(v)), Header::Date => H::Date, Header::DateTime => H::DateTime,
    }
}
pub open spec fn hvs(v: Vec<Header>) -> Seq<H>
    decreases v
{
    Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { hv(v@[i]) } else { H::Unit })
}
pub proof fn lemma_hvs(v: Vec<Header>)
    ensures hvs(v).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] hvs(v)[i] == hv(v@[i])
{}
pub proof fn lemma_hv(h: Header)
    ensures
        h matches Header::Enum(v) ==> hv(h) == H::Enum(hvs(v)) && hvs(v).len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] hvs(v)[i] == hv(v@[i]),
        h matches Header::Tuple(v) ==> hv(h) == H::Tup(hvs(v)) && hvs(v).len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] hvs(v)[i] == hv(v@[i]),
{ match h { Header::Enum(v) => { lemma_hvs(v); } Header::Tuple(v) => { lemma_hvs(v); } _ => {} } }
