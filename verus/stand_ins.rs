/// What stands for types that derive Serialize and Deserialize: one of each shape, of any parts.
pub mod stand_ins {
use super::*;
pub struct Nothing;
pub struct Wrap<A>(pub A);
pub struct Two<A, B>(pub A, pub B);
pub struct Named<A, B> { pub a: A, pub b: B }
pub enum Choice<A, B> { Nothing, Wrap(A), Two(A, B), Named { a: A, b: B } }
}
