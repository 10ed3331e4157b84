// The format of a header, stated independently of the code.
pub mod header_spec {
use super::*;
use super::varint::*;

/// A header as a mathematical tree.
pub enum H {
    Unit, Opt(Box<H>), Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, BigUint, BigInt, BigDecimal, Str, Bin,
    Arr(Box<H>), Tup(Seq<H>), Map(Box<H>), Enum(Seq<H>), Date, DateTime,
}

/// The one-byte code of a kind without parts.
pub open spec fn leaf(c: u8) -> Option<H> {
    match c {
        0 => Some(H::Unit), 2 => Some(H::Bool), 3 => Some(H::U8), 4 => Some(H::U16), 5 => Some(H::U32), 6 => Some(H::U64),
        8 => Some(H::I8), 9 => Some(H::I16), 10 => Some(H::I32), 11 => Some(H::I64), 13 => Some(H::F32), 14 => Some(H::F64),
        15 => Some(H::BigUint), 16 => Some(H::BigInt), 17 => Some(H::BigDecimal), 18 => Some(H::Str), 19 => Some(H::Bin),
        25 => Some(H::Date), 26 => Some(H::DateTime),
        _ => None,
    }
}

pub open spec fn code(h: H) -> u8 {
    match h {
        H::Unit => 0, H::Opt(_) => 1, H::Bool => 2, H::U8 => 3, H::U16 => 4, H::U32 => 5, H::U64 => 6, H::I8 => 8,
        H::I16 => 9, H::I32 => 10, H::I64 => 11, H::F32 => 13, H::F64 => 14, H::BigUint => 15, H::BigInt => 16,
        H::BigDecimal => 17, H::Str => 18, H::Bin => 19, H::Arr(_) => 20, H::Tup(_) => 21, H::Map(_) => 23,
        H::Enum(_) => 24, H::Date => 25, H::DateTime => 26,
    }
}

/// Whether the format can express it.
pub open spec fn wf(h: H) -> bool
    decreases h
{
    match h {
        H::Opt(x) | H::Arr(x) | H::Map(x) => wf(*x),
        H::Tup(v) | H::Enum(v) => v.len() <= 65535 && wfs(v),
        _ => true,
    }
}

pub open spec fn wfs(v: Seq<H>) -> bool
    decreases v
{
    v.len() == 0 || wfs(v.drop_last()) && wf(v.last())
}

/// The bytes of a header.
pub open spec fn hb(h: H) -> Seq<u8>
    decreases h
{
    match h {
        H::Opt(x) | H::Arr(x) | H::Map(x) => seq![code(h)] + hb(*x),
        H::Tup(v) | H::Enum(v) => seq![code(h)] + vu16(v.len() as u16) + hbs(v),
        _ => seq![code(h)],
    }
}

pub open spec fn hbs(v: Seq<H>) -> Seq<u8>
    decreases v
{
    if v.len() == 0 { seq![] } else { hbs(v.drop_last()) + hb(v.last()) }
}

/// What the bytes s describe, and how many of them it takes.
pub open spec fn ph(s: Seq<u8>) -> Option<(H, nat)>
    decreases s.len(), 0nat
{
    if s.len() == 0 {
        None
    } else if s[0] == 1 || s[0] == 20 || s[0] == 23 {
        match ph(s.skip(1)) {
            Some((h, n)) => Some((if s[0] == 1 { H::Opt(Box::new(h)) } else if s[0] == 20 { H::Arr(Box::new(h)) } else { H::Map(Box::new(h)) }, n + 1)),
            None => None,
        }
    } else if s[0] == 21 || s[0] == 24 {
        match du16(s.skip(1)) {
            Some((c, k)) => match phs(s.skip(1), k, c as nat) {
                Some((v, n)) => Some((if s[0] == 21 { H::Tup(v) } else { H::Enum(v) }, 1 + n)),
                None => None,
            },
            None => None,
        }
    } else {
        match leaf(s[0]) { Some(h) => Some((h, 1)), None => None }
    }
}

/// count headers in s from offset at on, and the offset after them.
pub open spec fn phs(s: Seq<u8>, at: nat, count: nat) -> Option<(Seq<H>, nat)>
    decreases s.len(), count + 1
{
    if count == 0 {
        Some((seq![], at))
    } else {
        match phs(s, at, (count - 1) as nat) {
            Some((v, n)) => if n > s.len() { None } else {
                match ph(s.skip(n as int)) {
                    Some((h, m)) => Some((v.push(h), n + m)),
                    None => None,
                }
            },
            None => None,
        }
    }
}

pub proof fn lemma_ph_len(s: Seq<u8>)
    ensures ph(s) is Some ==> 1 <= ph(s)->Some_0.1 <= s.len()
    decreases s.len(), 0nat
{
    broadcast use group_varint;
    if s.len() > 0 {
        lemma_ph_len(s.skip(1));
        if let Some((c, k)) = du16(s.skip(1)) {
            lemma_phs_len(s.skip(1), k, c as nat);
        }
    }
}

pub proof fn lemma_phs_len(s: Seq<u8>, at: nat, count: nat)
    requires at <= s.len()
    ensures phs(s, at, count) is Some ==> at <= phs(s, at, count)->Some_0.1 <= s.len() && phs(s, at, count)->Some_0.0.len() == count
    decreases s.len(), count + 1
{
    if count > 0 {
        lemma_phs_len(s, at, (count - 1) as nat);
        if let Some((v, n)) = phs(s, at, (count - 1) as nat) {
            lemma_ph_len(s.skip(n as int));
        }
    }
}

/// Once one of several headers cannot be decoded, they cannot.
pub proof fn lemma_phs_none(s: Seq<u8>, at: nat, i: nat, count: nat)
    requires i <= count, phs(s, at, i) is None
    ensures phs(s, at, count) is None
    decreases count
{
    if i < count { lemma_phs_none(s, at, i, (count - 1) as nat); }
}

/// C08: decoding the bytes of a header gives the header, whatever follows them.
pub proof fn theorem_header_round_trip(h: H, t: Seq<u8>)
    requires wf(h)
    ensures ph(hb(h) + t) == Some((h, hb(h).len()))
    decreases h, 1nat
{
    broadcast use group_varint;
    let s = hb(h) + t;
    match h {
        H::Opt(x) | H::Arr(x) | H::Map(x) => {
            theorem_header_round_trip(*x, t);
            assert(s.skip(1) =~= hb(*x) + t);
        }
        H::Tup(v) | H::Enum(v) => {
            let c = vu16(v.len() as u16);
            assert(s.skip(1) =~= c + (hbs(v) + t));
            assert(s.skip(1).skip(c.len() as int) =~= hbs(v) + t);
            lemma_rt_hs(v, s.skip(1), c.len(), t);
        }
        _ => {}
    }
}
pub proof fn lemma_rt_hs(v: Seq<H>, s: Seq<u8>, at: nat, t: Seq<u8>)
    requires wfs(v), at <= s.len(), s.skip(at as int) == hbs(v) + t
    ensures phs(s, at, v.len()) == Some((v, at + hbs(v).len()))
    decreases v, 0nat
{
    if v.len() == 0 {
        assert(v =~= seq![]);
    } else {
        let (w, h) = (v.drop_last(), v.last());
        assert(hbs(v) + t =~= hbs(w) + (hb(h) + t));
        lemma_rt_hs(w, s, at, hb(h) + t);
        assert(s.skip((at + hbs(w).len()) as int) =~= s.skip(at as int).skip(hbs(w).len() as int));
        assert(s.skip((at + hbs(w).len()) as int) =~= hb(h) + t);
        theorem_header_round_trip(h, t);
        assert(w.push(h) =~= v);
    }
}

/// C07: what is decoded can be expressed, so it can be encoded again.
pub proof fn theorem_decoded_header_is_wf(s: Seq<u8>)
    requires ph(s) is Some
    ensures wf(ph(s)->Some_0.0)
    decreases s.len(), 0nat
{
    broadcast use group_varint;
    if s[0] == 1 || s[0] == 20 || s[0] == 23 {
        theorem_decoded_header_is_wf(s.skip(1));
    } else if s[0] == 21 || s[0] == 24 {
        let (c, k) = du16(s.skip(1))->Some_0;
        lemma_phs_wf(s.skip(1), k, c as nat);
        lemma_phs_len(s.skip(1), k, c as nat);
    }
}
pub proof fn lemma_phs_wf(s: Seq<u8>, at: nat, count: nat)
    requires at <= s.len(), phs(s, at, count) is Some
    ensures wfs(phs(s, at, count)->Some_0.0)
    decreases s.len(), count + 1
{
    if count > 0 {
        lemma_phs_wf(s, at, (count - 1) as nat);
        lemma_phs_len(s, at, (count - 1) as nat);
        let (v, n) = phs(s, at, (count - 1) as nat)->Some_0;
        theorem_decoded_header_is_wf(s.skip(n as int));
        let h = ph(s.skip(n as int))->Some_0.0;
        assert(v.push(h).drop_last() =~= v);
    }
}

/// C08, C15: no proper prefix of the bytes of a header is a header: decoding fails on it.
pub proof fn theorem_header_prefix_fails(h: H, n: nat)
    requires wf(h), n < hb(h).len()
    ensures ph(hb(h).take(n as int)) is None
{
    let s = hb(h).take(n as int);
    theorem_header_round_trip(h, seq![]);
    assert(hb(h) + seq![] =~= hb(h));
    if ph(s) is Some {
        lemma_ph_more(s, hb(h).skip(n as int));
        lemma_ph_len(s);
        assert(s + hb(h).skip(n as int) =~= hb(h));
    }
}
/// More input after it changes nothing.
pub proof fn lemma_ph_more(s: Seq<u8>, t: Seq<u8>)
    requires ph(s) is Some
    ensures ph(s + t) == ph(s)
    decreases s.len(), 0nat
{
    broadcast use group_varint;
    if s[0] == 1 || s[0] == 20 || s[0] == 23 {
        lemma_ph_more(s.skip(1), t);
        assert((s + t).skip(1) =~= s.skip(1) + t);
    } else if s[0] == 21 || s[0] == 24 {
        let (c, k) = du16(s.skip(1))->Some_0;
        lemma_du_more(s.skip(1), 3, t);
        lemma_phs_more(s.skip(1), k, c as nat, t);
        assert((s + t).skip(1) =~= s.skip(1) + t);
    }
}
pub proof fn lemma_phs_more(s: Seq<u8>, at: nat, count: nat, t: Seq<u8>)
    requires at <= s.len(), phs(s, at, count) is Some
    ensures phs(s + t, at, count) == phs(s, at, count)
    decreases s.len(), count + 1
{
    if count > 0 {
        lemma_phs_more(s, at, (count - 1) as nat, t);
        lemma_phs_len(s, at, (count - 1) as nat);
        let (v, n) = phs(s, at, (count - 1) as nat)->Some_0;
        lemma_ph_more(s.skip(n as int), t);
        assert((s + t).skip(n as int) =~= s.skip(n as int) + t);
    }
}
}
