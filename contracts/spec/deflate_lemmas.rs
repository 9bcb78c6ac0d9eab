pub mod lem {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::rfc::*;
verus! {

pub proof fn lemma_p2_pos(n: int)
    ensures p2(n) >= 1,
    decreases n
{ if n > 0 { lemma_p2_pos(n - 1); } }

pub proof fn lemma_p2_mono(a: int, b: int)
    requires a <= b,
    ensures p2(a) <= p2(b),
    decreases b - a
{ lemma_p2_pos(b); if a < b { lemma_p2_mono(a, b - 1); lemma_p2_pos(b - 1); } }

pub proof fn lemma_cnt_bounds(lens: Seq<u8>, l: int, k: int)
    requires 0 <= k <= lens.len(),
    ensures 0 <= cnt(lens, l, k) <= k,
    decreases k
{ if k > 0 { lemma_cnt_bounds(lens, l, k - 1); } }

pub proof fn lemma_cnt_mono(lens: Seq<u8>, l: int, j: int, k: int)
    requires 0 <= j <= k <= lens.len(),
    ensures cnt(lens, l, j) <= cnt(lens, l, k),
    decreases k - j
{ if j < k { lemma_cnt_mono(lens, l, j, k - 1); } }

pub proof fn lemma_first_code_nonneg(lens: Seq<u8>, l: int)
    ensures first_code(lens, l) >= 0,
    decreases l
{ if l > 0 { lemma_first_code_nonneg(lens, l - 1); if l >= 2 { lemma_cnt_bounds(lens, l - 1, lens.len() as int); } } }

/// The codes of every length fit when those of the greatest length do.
pub proof fn lemma_kraft_level(lens: Seq<u8>, m: int, l: int)
    requires 1 <= l <= m, first_code(lens, m) + cnt(lens, m, lens.len() as int) <= p2(m),
    ensures first_code(lens, l) + cnt(lens, l, lens.len() as int) <= p2(l),
    decreases m - l
{
    if l < m {
        lemma_cnt_bounds(lens, m, lens.len() as int);
        lemma_kraft_level(lens, m - 1, l);
    }
}

pub proof fn lemma_canon_bound(lens: Seq<u8>, m: int, n: int)
    requires kraft_ok(lens, m), 0 <= n < lens.len(), lens[n] > 0,
    ensures 0 <= canon(lens, n) < p2(lens[n] as int),
{
    let l = lens[n] as int;
    lemma_kraft_level(lens, m, l);
    lemma_cnt_mono(lens, l, n + 1, lens.len() as int);
    lemma_cnt_bounds(lens, l, n);
    lemma_first_code_nonneg(lens, l);
}

pub proof fn lemma_dist_base_mono(a: int, b: int)
    requires 0 <= a < b <= 29,
    ensures dist_base(a) + p2(dist_extra(a)) <= dist_base(b),
    decreases b - a
{
    assert(chk_dist(30)) by (compute_only);
    lemma_chk_dist(30, b - 1);
    if a < b - 1 { lemma_dist_base_mono(a, b - 1); lemma_p2_pos(dist_extra(b - 1)); }
}
pub open spec fn chk_dist(n: int) -> bool decreases n {
    n <= 0 || ((n == 30 || dist_base(n - 1) + p2(dist_extra(n - 1)) == dist_base(n)) && chk_dist(n - 1))
}
pub proof fn lemma_chk_dist(n: int, i: int)
    requires chk_dist(n), 0 <= i < n,
    ensures i == 29 || dist_base(i) + p2(dist_extra(i)) == dist_base(i + 1),
    decreases n
{ if i < n - 1 { lemma_chk_dist(n - 1, i); } }

/// A symbol whose range contains the distance is the one the specification selects.
pub proof fn lemma_dist_sym(d: int, c: int)
    requires 0 <= c <= 29, dist_base(c) <= d < dist_base(c) + p2(dist_extra(c)),
    ensures dist_sym(d) == c,
{ lemma_dist_find(d, c, 29); }
proof fn lemma_dist_find(d: int, c: int, k: int)
    requires 0 <= c <= k <= 29, dist_base(c) <= d < dist_base(c) + p2(dist_extra(c)),
    ensures dist_find(d, k) == c,
    decreases k
{ if c < k { lemma_dist_base_mono(c, k); lemma_dist_find(d, c, k - 1); } }

pub proof fn lemma_len_base_mono(a: int, b: int)
    requires 0 <= a < b <= 28,
    ensures len_base(a) < len_base(b), b < 28 ==> len_base(a) + p2(len_extra(a)) <= len_base(b),
    decreases b - a
{
    assert(chk_len(28)) by (compute_only);
    lemma_chk_len(28, b - 1);
    if a < b - 1 { lemma_len_base_mono(a, b - 1); lemma_p2_pos(len_extra(b - 1)); }
}
pub open spec fn chk_len(n: int) -> bool decreases n {
    n <= 0 || (len_base(n - 1) < len_base(n) && (n == 28 || len_base(n - 1) + p2(len_extra(n - 1)) == len_base(n)) && chk_len(n - 1))
}
pub proof fn lemma_chk_len(n: int, i: int)
    requires chk_len(n), 0 <= i < n,
    ensures len_base(i) < len_base(i + 1), i < 27 ==> len_base(i) + p2(len_extra(i)) == len_base(i + 1),
    decreases n
{ if i < n - 1 { lemma_chk_len(n - 1, i); } }

pub proof fn lemma_len_sym(l: int, c: int)
    requires 0 <= c <= 28, len_base(c) <= l < len_base(c) + p2(len_extra(c)), c < 28 ==> l < 258,
    ensures len_sym(l) == c,
{ lemma_len_find(l, c, 28); }
proof fn lemma_len_find(l: int, c: int, k: int)
    requires 0 <= c <= k <= 28, len_base(c) <= l < len_base(c) + p2(len_extra(c)), c < 28 ==> l < 258,
    ensures len_find(l, k) == c,
    decreases k
{ if c < k { assert(len_base(28) == 258); lemma_len_base_mono(c, k); lemma_len_find(l, c, k - 1); } }

pub proof fn lemma_p2_shl(n: int)
    requires 0 <= n < 64,
    ensures p2(n) == 1u64 << (n as u64), p2(n) <= 0x8000_0000_0000_0000,
    decreases n
{
    if n == 0 { assert(1u64 << 0u64 == 1) by (bit_vector); }
    else {
        lemma_p2_shl(n - 1);
        let k = n as u64;
        assert(1 <= k < 64 ==> 1u64 << k == mul(2, 1u64 << ((k - 1) as u64)) && 1u64 << ((k - 1) as u64) <= 0x4000_0000_0000_0000u64) by (bit_vector);
    }
}
/// v < 2^n means no bit at or above n is set.
pub proof fn lemma_fits(v: u64, n: int)
    requires 0 <= n < 64, v < p2(n),
    ensures v >> (n as u64) == 0,
{
    lemma_p2_shl(n);
    let k = n as u64;
    assert(k < 64 && v < 1u64 << k ==> v >> k == 0) by (bit_vector);
}

} // verus!
}
