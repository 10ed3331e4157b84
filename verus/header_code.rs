pub mod header {
use super::*;
use super::header_spec::*;
//@consts dlhn/src/header/mod.rs
//@item dlhn/src/header/mod.rs :: enum Header

//@include header_view.rs

pub mod de {
use super::super::*;
use super::super::io_spec::*;
use super::super::varint::*;
use super::super::header_spec::*;
use super::*;
use std::io::{ErrorKind, Read, Result};
//@rewrite std::io::Error::new($a) => error()
//@rewrite Vec::with_capacity($n) => bounded_vec($n)
//@rewrite String::with_capacity($n) => bounded_string($n)
//@rewrite $v:ident.reserve($n) => $v.bounded_reserve($n)
//@rewrite $v:ident.reserve_exact($n) => $v.bounded_reserve($n)
//@rewrite for _ in 0..$n { => for i_ in 0..$n {
//@rewrite (self)? => (&mut *self)?
pub trait DeserializeHeader<R: Read>: Read {
    fn deserialize_header(&mut self) -> (r: Result<Header>)
        ensures
            match ph((*old(self)).rest()) {
                Some((h, n)) => r is Ok && hv(r->Ok_0) == h && (*final(self)).rest() == (*old(self)).rest().skip(n as int),
                None => r is Err,
            };
}
broadcast use {group_varint, vstd::seq_lib::lemma_seq_skip_of_skip};

/// The first n of the headers that s0 announces are v, and rest is what follows them.
#[verifier::opaque]
pub open spec fn elems(s0: Seq<u8>, code: u8, size: u16, n: nat, v: Vec<Header>, rest: Seq<u8>) -> bool {
    let s1 = s0.skip(1);
    &&& s0.len() > 0 && s0[0] == code
    &&& du16(s1) is Some && du16(s1)->Some_0.0 == size
    &&& v@.len() == n
    &&& phs(s1, du16(s1)->Some_0.1, n) is Some
    &&& phs(s1, du16(s1)->Some_0.1, n)->Some_0.0 =~= hvs(v)
    &&& rest == s1.skip(phs(s1, du16(s1)->Some_0.1, n)->Some_0.1 as int)
}
pub proof fn elems_first(s0: Seq<u8>, code: u8, size: u16, v: Vec<Header>, rest: Seq<u8>)
    requires s0.len() > 0, s0[0] == code, du16(s0.skip(1)) is Some, du16(s0.skip(1))->Some_0.0 == size, v@.len() == 0,
        rest == s0.skip(1).skip(du16(s0.skip(1))->Some_0.1 as int),
    ensures elems(s0, code, size, 0, v, rest)
{ reveal(elems); }
pub proof fn elems_here(s0: Seq<u8>, code: u8, size: u16, n: nat, v: Vec<Header>, rest: Seq<u8>)
    requires elems(s0, code, size, n, v, rest), n < size, code == 21 || code == 24
    ensures rest.len() < s0.len(), ph(rest) is None ==> ph(s0) is None
{
    reveal(elems);
    let s1 = s0.skip(1);
    let k = du16(s1)->Some_0.1;
    lemma_phs_len(s1, k, n);
    if ph(rest) is None {
        assert(phs(s1, k, n + 1) is None);
        lemma_phs_none(s1, k, n + 1, size as nat);
    }
}
pub proof fn elems_next(s0: Seq<u8>, code: u8, size: u16, n: nat, v: Vec<Header>, rest: Seq<u8>, v2: Vec<Header>, rest2: Seq<u8>)
    requires elems(s0, code, size, n, v, rest), v2@.len() == v@.len() + 1, v2@.drop_last() == v@,
        ph(rest) is Some, ph(rest)->Some_0.0 == hv(v2@.last()), rest2 == rest.skip(ph(rest)->Some_0.1 as int),
    ensures elems(s0, code, size, n + 1, v2, rest2)
{
    reveal(elems);
    let s1 = s0.skip(1);
    let k = du16(s1)->Some_0.1;
    lemma_phs_len(s1, k, n);
    lemma_ph_len(rest);
    assert(rest2 =~= s1.skip(phs(s1, k, n + 1)->Some_0.1 as int));
    assert(forall|i: int| 0 <= i < v@.len() ==> #[trigger] v2@[i] == v2@.drop_last()[i]);
    assert(hvs(v2) =~= hvs(v).push(hv(v2@.last())));
}
pub proof fn elems_all(s0: Seq<u8>, code: u8, size: u16, v: Vec<Header>, rest: Seq<u8>)
    requires elems(s0, code, size, size as nat, v, rest), code == 21 || code == 24
    ensures ph(s0) is Some, ph(s0)->Some_0.0 == (if code == 21 { H::Tup(hvs(v)) } else { H::Enum(hvs(v)) }),
        rest == s0.skip(ph(s0)->Some_0.1 as int),
{ 
    reveal(elems);
    let s1 = s0.skip(1);
    lemma_phs_len(s1, du16(s1)->Some_0.1, size as nat);
}

//@impl dlhn/src/header/de.rs :: impl<R: Read> DeserializeHeader<R> for R
//@fn deserialize_header
    decreases (*old(self)).rest().len()
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost s0 = (*self).rest();
    proof { lemma_ph_len(s0.skip(1)); }
//@before 1
    proof { elems_first(s0, 21, size as u16, vec, (*self).rest()); }
//@loop 1
    invariant elems(s0, 21, size as u16, vec@.len(), vec, (*self).rest()), vec@.len() <= size <= 65535,
    @for    i_ as nat == vec@.len(),
    @while    $w as nat == vec@.len(),
    @while decreases size - vec@.len(),
//@loopbody 1
    let ghost (v1, r1) = (vec, (*self).rest());
    proof { elems_here(s0, 21, size as u16, v1@.len(), v1, r1); }
//@loopend 1
    proof { assert(vec@.drop_last() =~= v1@); elems_next(s0, 21, size as u16, v1@.len(), v1, r1, vec, (*self).rest()); }
//@after 1
    proof { elems_all(s0, 21, size as u16, vec, (*self).rest()); }
//@before 2
    proof { elems_first(s0, 24, size as u16, buf, (*self).rest()); }
//@loop 2
    invariant elems(s0, 24, size as u16, buf@.len(), buf, (*self).rest()), buf@.len() <= size <= 65535,
    @for    i_ as nat == buf@.len(),
    @while    $w as nat == buf@.len(),
    @while decreases size - buf@.len(),
//@loopbody 2
    let ghost (v1, r1) = (buf, (*self).rest());
    proof { elems_here(s0, 24, size as u16, v1@.len(), v1, r1); }
//@loopend 2
    proof { assert(buf@.drop_last() =~= v1@); elems_next(s0, 24, size as u16, v1@.len(), v1, r1, buf, (*self).rest()); }
//@after 2
    proof { elems_all(s0, 24, size as u16, buf, (*self).rest()); }
//@end
//@norewrites
}
//@include header_types.rs
//@include header_ser.rs
}
