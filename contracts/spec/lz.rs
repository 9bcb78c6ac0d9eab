pub mod lz {
#[allow(unused_imports)] use vstd::prelude::*;
use crate::rfc::*;
verus! {

/// `len` bytes at `pos` equal the bytes `dist` before; RFC 1951 allows this as a back-reference.
pub open spec fn is_match(d: Seq<u8>, pos: int, len: int, dist: int) -> bool {
    1 <= dist <= 32768 && dist <= pos && len <= 258 && pos + len <= d.len()
    && forall|i: int| 0 <= i < len ==> #[trigger] d[pos + i] == d[pos + i - dist]
}

/// The tokens stand for the bytes `from..to` of `h`.
pub open spec fn covers(h: Seq<u8>, from: int, to: int, ts: Seq<Token>) -> bool decreases ts.len() {
    if ts.len() == 0 { from == to } else {
        match ts.last() {
            Token::Lit(b) => 1 <= to <= h.len() && h[to - 1] == b && covers(h, from, to - 1, ts.drop_last()),
            Token::Match(l, d) => 3 <= l && is_match(h, to - l, l, d) && covers(h, from, to - l, ts.drop_last()),
        }
    }
}

pub open spec fn no_match(ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]) is Lit }
pub open spec fn only_dist1(ts: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < ts.len() ==> match #[trigger] ts[i] { Token::Lit(_) => true, Token::Match(_, d) => d == 1 }
}

pub proof fn lemma_dist1_push(ts: Seq<Token>, t: Token)
    requires t is Lit || t->Match_1 == 1,
    ensures only_dist1(ts) ==> only_dist1(ts.push(t)),
{}
pub proof fn lemma_no_match_push(ts: Seq<Token>, b: u8)
    ensures no_match(ts) ==> no_match(ts.push(Token::Lit(b))),
{}

/// `d` is the end of `h`.
pub open spec fn tail_of(d: Seq<u8>, h: Seq<u8>) -> bool { d.len() <= h.len() && h.subrange(h.len() - d.len(), h.len() as int) == d }

pub proof fn lemma_tail_match(d: Seq<u8>, h: Seq<u8>, pos: int, len: int, dist: int)
    requires tail_of(d, h), is_match(d, pos, len, dist),
    ensures is_match(h, h.len() - d.len() + pos, len, dist),
{
    let b = h.len() - d.len();
    assert forall|i: int| 0 <= i < len implies #[trigger] h[b + pos + i] == h[b + pos + i - dist] by {
        assert(d[pos + i] == d[pos + i - dist]);
        assert(d[pos + i] == h.subrange(b, h.len() as int)[pos + i]);
        assert(d[pos + i - dist] == h.subrange(b, h.len() as int)[pos + i - dist]);
    }
}

pub proof fn lemma_tail_index(d: Seq<u8>, h: Seq<u8>, i: int)
    requires tail_of(d, h), 0 <= i < d.len(),
    ensures d[i] == h[h.len() - d.len() + i],
{ assert(d[i] == h.subrange(h.len() - d.len(), h.len() as int)[i]); }

pub proof fn lemma_covers_push(h: Seq<u8>, from: int, to: int, ts: Seq<Token>, t: Token)
    requires covers(h, from, to, ts),
    ensures
        t matches Token::Lit(b) ==> (0 <= to < h.len() && h[to] == b ==> covers(h, from, to + 1, ts.push(t))),
        t matches Token::Match(l, d) ==> (3 <= l && is_match(h, to, l, d) ==> covers(h, from, to + l, ts.push(t))),
{ assert(ts.push(t).drop_last() =~= ts); }

pub proof fn lemma_covers_len(h: Seq<u8>, from: int, to: int, ts: Seq<Token>)
    requires covers(h, from, to, ts),
    ensures from + ts.len() <= to, ts.len() > 0 ==> to <= h.len(),
    decreases ts.len()
{
    if ts.len() > 0 {
        match ts.last() {
            Token::Lit(b) => { lemma_covers_len(h, from, to - 1, ts.drop_last()); }
            Token::Match(l, d) => { lemma_covers_len(h, from, to - l, ts.drop_last()); }
        }
    }
}

/// More input does not change what the tokens stand for.
pub proof fn lemma_covers_mono(h: Seq<u8>, x: Seq<u8>, from: int, to: int, ts: Seq<Token>)
    requires covers(h, from, to, ts), from >= 0,
    ensures covers(h + x, from, to, ts),
    decreases ts.len()
{
    if ts.len() > 0 {
        match ts.last() {
            Token::Lit(b) => { lemma_covers_mono(h, x, from, to - 1, ts.drop_last()); }
            Token::Match(l, d) => {
                lemma_covers_mono(h, x, from, to - l, ts.drop_last());
                lemma_match_mono(h, x, to - l, l, d);
            }
        }
    }
}
pub proof fn lemma_match_mono(h: Seq<u8>, x: Seq<u8>, pos: int, len: int, dist: int)
    requires is_match(h, pos, len, dist),
    ensures is_match(h + x, pos, len, dist),
{
    assert forall|i: int| 0 <= i < len implies #[trigger] (h + x)[pos + i] == (h + x)[pos + i - dist] by {
        assert(h[pos + i] == h[pos + i - dist]);
    }
}

pub proof fn lemma_mod_sub(i: int, d: int)
    requires i >= d, d >= 1,
    ensures i % d == (i - d) % d,
{ vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(i, d); }

proof fn lemma_periodic(h: Seq<u8>, p: int, len: int, d: int, i: int)
    requires is_match(h, p, len, d), 0 <= i < len,
    ensures h[p + i] == h[p - d + i % d],
    decreases i
{
    assert(h[p + i] == h[p + i - d]);
    if i < d {
        vstd::arithmetic::div_mod::lemma_small_mod(i as nat, d as nat);
    } else {
        lemma_periodic(h, p, len, d, i - d);
        lemma_mod_sub(i, d);
    }
}

/// A decoder that has produced `h[..from]` and expands the tokens gets `h[..to]`.
pub proof fn lemma_covers_expand(h: Seq<u8>, from: int, to: int, ts: Seq<Token>)
    requires covers(h, from, to, ts), 0 <= from <= h.len(),
    ensures
        from <= to <= h.len(),
        expand(h.subrange(0, from), ts) == h.subrange(0, to),
        tokens_ok(h.subrange(0, from), ts),
    decreases ts.len()
{
    lemma_covers_len(h, from, to, ts);
    if ts.len() > 0 {
        match ts.last() {
            Token::Lit(b) => {
                lemma_covers_expand(h, from, to - 1, ts.drop_last());
                assert(h.subrange(0, to - 1).push(b) =~= h.subrange(0, to));
            }
            Token::Match(l, d) => {
                lemma_covers_expand(h, from, to - l, ts.drop_last());
                let p = to - l;
                let out = h.subrange(0, p);
                assert forall|i: int| 0 <= i < l implies h[p + i] == #[trigger] out[out.len() - d + i % d] by {
                    lemma_periodic(h, p, l, d, i);
                    assert(0 <= i % d < d) by (nonlinear_arith) requires d >= 1;
                }
                assert(expand_token(out, ts.last()) =~= h.subrange(0, to));
            }
        }
    }
}

} // verus!
}
