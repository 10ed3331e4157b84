pub mod ser {
use super::super::*;
use super::super::io_spec::*;
use super::super::varint::*;
use super::super::header_spec::*;
use super::*;
use super::types::*;
use std::io::{ErrorKind, Result, Write};
//@value U16_BUF dlhn/src/prefix_varint.rs :: impl PrefixVarint<3> for u16 :: PREFIX_VARINT_BUF_SIZE
//@rewrite Error::new($a) => error()
//@rewrite AsRef<str> => AsRefStr
//@rewrite u16::PREFIX_VARINT_BUF_SIZE => U16_BUF
broadcast use {group_varint, vstd::seq_lib::lemma_seq_skip_of_skip};
//@include header_tuples.rs

pub trait SerializeHeader {
    /// The header of the type.
    spec fn hdr() -> H;
    fn serialize_header<W: Write>(writer: &mut W) -> (r: Result<()>)
        ensures
            r is Ok <==> fits((*old(writer)).room(), hb(Self::hdr()).len()),
            r is Ok ==> (*final(writer)).out() == (*old(writer)).out() + hb(Self::hdr())
                && (*final(writer)).room() == minus((*old(writer)).room(), hb(Self::hdr()).len());
}
//@include header_impls.rs
//@norewrites
//@rewrite Error::new($a) => error()
//@rewrite u16::PREFIX_VARINT_BUF_SIZE => U16_BUF
//@rewrite for $v:ident in $e { => for $v in it_: $e {

/// serialize_inner_box and the like: a node is written if and only if the format can express it and there is room.
pub open spec fn node_written(h: H, room0: Option<nat>, out0: Seq<u8>, room1: Option<nat>, out1: Seq<u8>, ok: bool) -> bool {
    &&& ok <==> wf(h) && fits(room0, hb(h).len())
    &&& ok ==> out1 =~= out0 + hb(h) && room1 == minus(room0, hb(h).len())
}

//@impl dlhn/src/header/ser.rs :: impl Header
//@fn serialize
    ensures node_written(hv(*self), (*old(writer)).room(), (*old(writer)).out(), (*final(writer)).room(), (*final(writer)).out(), r is Ok)
    decreases *self, 1nat
//@fn serialize_inner_box
    ensures
        code == 1 ==> node_written(H::Opt(Box::new(hv(*inner))), (*old(writer)).room(), (*old(writer)).out(), (*final(writer)).room(), (*final(writer)).out(), r is Ok),
        code == 20 ==> node_written(H::Arr(Box::new(hv(*inner))), (*old(writer)).room(), (*old(writer)).out(), (*final(writer)).room(), (*final(writer)).out(), r is Ok),
        code == 23 ==> node_written(H::Map(Box::new(hv(*inner))), (*old(writer)).room(), (*old(writer)).out(), (*final(writer)).room(), (*final(writer)).out(), r is Ok),
    decreases *inner, 2nat
//@fn serialize_inner_vec
    ensures
        code == 21 ==> node_written(H::Tup(hvs(*inner)), (*old(writer)).room(), (*old(writer)).out(), (*final(writer)).room(), (*final(writer)).out(), r is Ok),
        code == 24 ==> node_written(H::Enum(hvs(*inner)), (*old(writer)).room(), (*old(writer)).out(), (*final(writer)).room(), (*final(writer)).out(), r is Ok),
    decreases *inner, 2nat
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost (out0, room0, all) = ((*writer).out(), (*writer).room(), hvs(*inner));
    assert(forall|i: int| 0 <= i < inner@.len() ==> #[trigger] all[i] == hv(inner@[i]));
    let ghost mut o_ = (*writer).out();
    let ghost mut r_ = (*writer).room();
//@before 1
    proof { so_far_first(code, all, room0, out0, (*writer).room(), (*writer).out()); }
//@loop 1
    invariant
        so_far(code, all, it_.index() as nat, room0, out0, (*writer).room(), (*writer).out()),
        wfs(all.take(it_.index() as int)), inner@.len() <= 65535,
        it_.seq().len() == inner@.len(), forall|i: int| 0 <= i < inner@.len() ==> *(#[trigger] it_.seq()[i]) == inner@[i],
//@loopbody 1
    proof { if code == 21 || code == 24 { so_far_here(code, all, it_.index() as nat, room0, out0, (*writer).room(), (*writer).out()); } o_ = (*writer).out(); r_ = (*writer).room(); }
//@loopend 1
    proof { lemma_wfs_next(all, it_.index() as nat); so_far_next(code, all, it_.index() as nat, room0, out0, r_, o_, (*writer).room(), (*writer).out()); }
//@after 1
    proof { if code == 21 || code == 24 { so_far_all(code, all, room0, out0, (*writer).room(), (*writer).out()); } }
//@end
//@norewrites
}
