//@item dlhn/src/body/mod.rs :: enum Body

pub open spec fn bv(b: Body) -> B
    decreases b
{
    match b {
        Body::Unit => B::Unit,
        Body::Optional(None) => B::None,
        Body::Optional(Some(x)) => B::Some(Box::new(bv(*x))),
        Body::Boolean(v) => B::Leaf(v.leaf()), Body::UInt8(v) => B::Leaf(v.leaf()), Body::UInt16(v) => B::Leaf(v.leaf()),
        Body::UInt32(v) => B::Leaf(v.leaf()), Body::UInt64(v) => B::Leaf(v.leaf()), Body::Int8(v) => B::Leaf(v.leaf()),
        Body::Int16(v) => B::Leaf(v.leaf()), Body::Int32(v) => B::Leaf(v.leaf()), Body::Int64(v) => B::Leaf(v.leaf()),
        Body::Float32(v) => B::Leaf(v.leaf()), Body::Float64(v) => B::Leaf(v.leaf()), Body::BigUInt(v) => B::Leaf(v.leaf()),
        Body::BigInt(v) => B::Leaf(v.leaf()), Body::BigDecimal(v) => B::Leaf(v.leaf()), Body::String(v) => B::Leaf(v.leaf()),
        Body::Binary(v) => B::Leaf(v.leaf()), Body::Date(v) => B::Leaf(v.leaf()), Body::DateTime(v) => B::Leaf(v.leaf()),
        Body::Array(v) => B::Arr(bvs(v)),
        Body::Tuple(v) => B::Tup(bvs(v)),
        Body::Map(m) => B::Map(Seq::new(m.entries@.len(), |i: int| if 0 <= i < m.entries@.len() { (m.entries@[i].0@, bv(m.entries@[i].1)) } else { (seq![], B::Unit) })),
        Body::Enum(i, x) => B::Enum(i, Box::new(bv(*x))),
    }
}
pub open spec fn bvs(v: Vec<Body>) -> Seq<B>
    decreases v
{ Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { bv(v@[i]) } else { B::Unit }) }
pub open spec fn bvm(m: BTreeMap<String, Body>) -> Seq<(Seq<char>, B)> { bv(Body::Map(m))->Map_0 }
