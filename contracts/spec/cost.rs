pub mod cost {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
use crate::rfc::*;
use crate::stream::*;
use crate::lem::*;
verus! {

// --- how many bits an encoding takes ---------------------------------------------

/// weighted cost: sum of f[i] * c[i] below n
pub open spec fn wc(f: Seq<int>, c: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { wc(f, c, n - 1) + f[n - 1] * c[n - 1] } }

pub open spec fn ints(f: Seq<u16>) -> Seq<int> { Seq::new(f.len(), |i: int| f[i] as int) }
/// code length plus extra bits, for each symbol
pub open spec fn costs(l: Seq<u8>, x: Seq<int>) -> Seq<int> { Seq::new(x.len(), |i: int| l[i] + x[i]) }
pub open spec fn ll_x() -> Seq<int> { Seq::new(286, |i: int| if i < 257 { 0 } else { len_extra(i - 257) }) }
pub open spec fn dd_x() -> Seq<int> { Seq::new(30, |i: int| dist_extra(i)) }
pub open spec fn cl_x1(i: int) -> int { if i == 16 { 2 } else if i == 17 { 3 } else if i == 18 { 7 } else { 0 } }
pub open spec fn cl_x() -> Seq<int> { Seq::new(19, |i: int| cl_x1(i)) }
pub open spec fn hist_ll(ts: Seq<Token>) -> Seq<int> { Seq::new(286, |i: int| freq_ll(ts, i)) }
pub open spec fn hist_dd(ts: Seq<Token>) -> Seq<int> { Seq::new(30, |i: int| freq_dd(ts, i)) }

pub proof fn lemma_wc_inc(f: Seq<int>, g: Seq<int>, c: Seq<int>, k: int, n: int)
    requires 0 <= n <= f.len(), n <= c.len(), g.len() == f.len(), forall|i: int| 0 <= i < n ==> #[trigger] g[i] == f[i] + if i == k { 1int } else { 0 },
    ensures wc(g, c, n) == wc(f, c, n) + if 0 <= k < n { c[k] } else { 0 },
    decreases n
{
    if n > 0 {
        lemma_wc_inc(f, g, c, k, n - 1);
        let x = f[n - 1]; let y = c[n - 1];
        assert(g[n - 1] == f[n - 1] + if n - 1 == k { 1int } else { 0 });
        if n - 1 == k { assert((x + 1) * y == x * y + y) by (nonlinear_arith); }
    }
}
pub proof fn lemma_wc_zeros(f: Seq<int>, c: Seq<int>, m: int, n: int)
    requires 0 <= m <= n <= f.len(), n <= c.len(), forall|i: int| m <= i < n ==> f[i] == 0,
    ensures wc(f, c, n) == wc(f, c, m),
    decreases n - m
{ if m < n { lemma_wc_zeros(f, c, m, n - 1); let y = c[n - 1]; assert(f[n - 1] == 0); assert(0 * y == 0) by (nonlinear_arith); } }
pub proof fn lemma_wc_ext(f: Seq<int>, g: Seq<int>, c: Seq<int>, d: Seq<int>, n: int)
    requires n <= f.len(), n <= g.len(), n <= c.len(), n <= d.len(), forall|i: int| 0 <= i < n ==> f[i] == g[i], forall|i: int| 0 <= i < n ==> c[i] == d[i],
    ensures wc(f, c, n) == wc(g, d, n),
    decreases n
{ if n > 0 { lemma_wc_ext(f, g, c, d, n - 1); } }
pub proof fn lemma_wc_one(f: Seq<int>, c: Seq<int>, k: int, n: int)
    requires 0 <= n <= f.len(), n <= c.len(), forall|i: int| 0 <= i < n ==> f[i] == if i == k { 1int } else { 0 },
    ensures wc(f, c, n) == if 0 <= k < n { c[k] } else { 0 },
    decreases n
{
    if n > 0 {
        lemma_wc_one(f, c, k, n - 1);
        let y = c[n - 1]; assert(1 * y == y && 0 * y == 0) by (nonlinear_arith);
    }
}
pub proof fn lemma_wc_nonneg(f: Seq<int>, c: Seq<int>, n: int)
    requires n <= f.len(), n <= c.len(), forall|i: int| 0 <= i < n ==> f[i] >= 0, forall|i: int| 0 <= i < n ==> c[i] >= 0,
    ensures wc(f, c, n) >= 0,
    decreases n
{ if n > 0 { lemma_wc_nonneg(f, c, n - 1); let x = f[n - 1]; let y = c[n - 1]; assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0; } }

/// the bits of the symbols of a block, counted symbol by symbol
pub open spec fn body_cost(ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>) -> int {
    wc(hist_ll(ts), costs(ll, ll_x()), 286) + wc(hist_dd(ts), costs(dd, dd_x()), 30)
}
pub proof fn lemma_syms(t: Token)
    requires token_range(t),
    ensures 0 <= ll_sym(t) < 286, dd_sym(t) < 30, t is Match ==> 0 <= len_sym(t->Match_0) <= 28 && 0 <= dist_sym(t->Match_1) <= 29 && dd_sym(t) >= 0,
        t is Match ==> len_extra(len_sym(t->Match_0)) >= 0 && dist_extra(dist_sym(t->Match_1)) >= 0,
{
    if let Token::Match(l, d) = t { lemma_find(l, 28); lemma_dfind(d, 29); }
}
proof fn lemma_find(l: int, c: int)
    requires 0 <= c <= 28,
    ensures 0 <= len_find(l, c) <= c,
    decreases c
{ if c > 0 && len_base(c) > l { lemma_find(l, c - 1); } }
proof fn lemma_dfind(d: int, c: int)
    requires 0 <= c <= 29,
    ensures 0 <= dist_find(d, c) <= c,
    decreases c
{ if c > 0 && dist_base(c) > d { lemma_dfind(d, c - 1); } }
pub proof fn lemma_body_cost(ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>)
    requires forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]), ll.len() >= 286, dd.len() >= 30,
    ensures enc_body(ts, ll, dd).len() == body_cost(ts, ll, dd), enc_tokens(ts, ll, dd).len() + ll[256] == body_cost(ts, ll, dd),
    decreases ts.len()
{
    let c = costs(ll, ll_x()); let d = costs(dd, dd_x());
    if ts.len() == 0 {
        lemma_wc_one(hist_ll(ts), c, 256, 286);
        lemma_wc_one(hist_dd(ts), d, -1, 30);
    } else {
        let t = ts.last(); let us = ts.drop_last();
        assert forall|i: int| 0 <= i < us.len() implies token_range(#[trigger] us[i]) by { assert(us[i] == ts[i]); }
        lemma_body_cost(us, ll, dd);
        assert(token_range(ts[ts.len() - 1])); lemma_syms(t);
        lemma_wc_inc(hist_ll(us), hist_ll(ts), c, ll_sym(t), 286);
        lemma_wc_inc(hist_dd(us), hist_dd(ts), d, dd_sym(t), 30);
    }
}

pub open spec fn cl_freq(ss: Seq<ClSym>, k: int) -> int decreases ss.len() {
    if ss.len() == 0 { 0 } else { cl_freq(ss.drop_last(), k) + if cl_num(ss.last()) == k { 1int } else { 0 } }
}
pub open spec fn cl_hist(ss: Seq<ClSym>) -> Seq<int> { Seq::new(19, |i: int| cl_freq(ss, i)) }
pub proof fn lemma_cl_cost(ss: Seq<ClSym>, cl: Seq<u8>)
    requires cl_ok(ss), cl.len() == 19,
    ensures enc_cl(ss, cl).len() == wc(cl_hist(ss), costs(cl, cl_x()), 19),
    decreases ss.len()
{
    let c = costs(cl, cl_x());
    if ss.len() == 0 { lemma_wc_one(cl_hist(ss), c, -1, 19); }
    else {
        lemma_cl_cost(ss.drop_last(), cl);
        lemma_wc_inc(cl_hist(ss.drop_last()), cl_hist(ss), c, cl_num(ss.last()), 19);
    }
}
pub proof fn lemma_cl_lens_cost(cl: Seq<u8>, n: int)
    requires 0 <= n,
    ensures enc_cl_lens(cl, n).len() == 3 * n,
    decreases n
{ if n > 0 { lemma_cl_lens_cost(cl, n - 1); } }

/// the bits of a dynamic block after its three first ones
pub open spec fn dynamic_cost(h: Header, ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>) -> int {
    14 + 3 * h.hclen + wc(cl_hist(h.syms), costs(h.cl, cl_x()), 19) + body_cost(ts, ll, dd)
}
pub proof fn lemma_dynamic_cost(h: Header, ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>)
    requires header_ok(h, ll, dd), forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]),
    ensures (enc_header(h) + enc_body(ts, ll, dd)).len() == dynamic_cost(h, ts, ll, dd),
{
    lemma_body_cost(ts, ll, dd); lemma_cl_cost(h.syms, h.cl); lemma_cl_lens_cost(h.cl, h.hclen);
}

/// the bits of n > 0 bytes in stored blocks after the first three ones, when `pending` bits of a byte precede them
pub open spec fn stored_cost(n: int, pending: int) -> int {
    let k = (n - 1) / 32767 + 1;
    8 * (n + 4 * k + (k - 1)) + (8 - (pending + 3) % 8) % 8
}

/// bits, rounded up to whole bytes
pub open spec fn up8(n: int) -> int { n + (8 - n % 8) % 8 }
/// so many stored blocks n bytes need
pub open spec fn stored_count(n: int) -> int { if n <= 0 { 1 } else { (n - 1) / 32767 + 1 } }
/// so many bits a stream of n bytes, ended or flushed k times, takes at most
pub open spec fn size_limit(n: int, k: int) -> int { 8 * n + 80 * (n / 31744) + 80 * k }
/// ... and a block of n bytes adds at most
pub open spec fn fits(before: int, after: int, n: int) -> bool { up8(after) <= up8(before) + 8 * n + 40 * stored_count(n) }

/// A block not longer than the stored one.
pub proof fn lemma_fits_stored(at: int, n: int, pending: int, c: int)
    requires at >= 0, n > 4, 0 <= pending < 8, at % 8 == pending, c <= stored_cost(n, pending),
    ensures fits(at, at + 3 + c, n),
{
    let q = at / 8; let k = (n - 1) / 32767 + 1;
    assert(at == 8 * q + pending);
    assert(at + 3 + stored_cost(n, pending) == 8 * (q + (if pending == 0 { 1int } else if pending < 6 { 1 } else { 2 }) + n + 5 * k - 1));
    let m = q + (if pending == 0 { 1int } else if pending < 6 { 1 } else { 2 }) + n + 5 * k - 1;
    assert(up8(at + 3 + c) <= 8 * m);
}
/// A small block with the fixed codes.
pub proof fn lemma_fits_small(at: int, n: int, c: int)
    requires at >= 0, 0 <= n <= 4, c <= 9 * n + 7,
    ensures fits(at, at + 3 + c, n),
{}
/// With the fixed codes no token takes more than nine bits for each of its bytes.
pub proof fn lemma_fixed_small(h: Seq<u8>, from: int, to: int, ts: Seq<Token>)
    requires crate::lz::covers(h, from, to, ts), forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]),
    ensures from <= to, enc_tokens(ts, fixed_ll(), fixed_dd()).len() <= 9 * (to - from), ts.len() <= to - from,
    decreases ts.len(),
{
    if ts.len() > 0 {
        let t = ts.last(); let us = ts.drop_last();
        assert(token_range(ts[ts.len() - 1])); lemma_syms(t);
        assert forall|i: int| 0 <= i < us.len() implies token_range(#[trigger] us[i]) by { assert(us[i] == ts[i]); }
        match t {
            Token::Lit(b) => { lemma_fixed_small(h, from, to - 1, us); }
            Token::Match(l, d) => {
                lemma_fixed_small(h, from, to - l, us);
                assert(dist_extra(dist_sym(d)) <= 13 && len_extra(len_sym(l)) <= 5);
                if l == 3 { assert(len_base(0) == 3); lemma_len3(28); }
            }
        }
    }
}
proof fn lemma_len3(c: int)
    requires 0 <= c <= 28,
    ensures len_find(3, c) == 0,
    decreases c
{
    if c > 0 {
        if c >= 8 && c < 28 { lemma_p2_pos(c / 4 - 1); let a = 4 + c % 4; let b = p2(c / 4 - 1); assert(a * b >= 4) by (nonlinear_arith) requires a >= 4, b >= 1; }
        assert(len_base(c) > 3);
        lemma_len3(c - 1);
    }
}
proof fn lemma_p2_pos(n: int) ensures p2(n) >= 1 decreases n { if n > 0 { lemma_p2_pos(n - 1); } }

/// A length that is not zero has been sent as such.
pub proof fn lemma_has_len(ss: Seq<ClSym>, i: int) -> (j: int)
    requires cl_ok(ss), 0 <= i < cl_expand(ss).len(), cl_expand(ss)[i] != 0,
    ensures 0 <= j < ss.len(), ss[j] is Len, 1 <= cl_num(ss[j]) <= 15,
    decreases ss.len()
{
    let us = ss.drop_last(); let o = cl_expand(us);
    if i < o.len() { lemma_has_len(us, i) }
    else {
        match ss.last() {
            ClSym::Len(l) => ss.len() - 1,
            ClSym::Copy(n) => { assert(cl_expand(ss)[i] == o.last()); lemma_has_len(us, o.len() - 1) }
            ClSym::Zero3(n) => { assert(cl_expand(ss)[i] == 0); 0 }
            ClSym::Zero7(n) => { assert(cl_expand(ss)[i] == 0); 0 }
        }
    }
}
/// where the length is sent
pub open spec fn cl_pos(l: int) -> int {
    if l == 8 { 4 } else if l > 8 { 2 * l - 12 } else { 19 - 2 * l }
}
pub proof fn lemma_cl_pos(l: int)
    requires 1 <= l <= 15,
    ensures 4 <= cl_pos(l) < 19, cl_order()[cl_pos(l)] == l,
{
}
/// Lengths that fit m bits fit m + k bits.
pub proof fn lemma_kraft_up(lens: Seq<u8>, m: int, k: int)
    requires kraft_ok(lens, m), m >= 1, k >= m,
    ensures kraft_ok(lens, k),
    decreases k - m
{
    if k > m {
        lemma_kraft_up(lens, m, k - 1);
        assert(first_code(lens, k) == 2 * (first_code(lens, k - 1) + if k >= 2 { cnt(lens, k - 1, lens.len() as int) } else { 0 }));
        crate::huff::lemma_cnt_zero(lens, k, lens.len() as int);
    }
}

} // verus!
}
