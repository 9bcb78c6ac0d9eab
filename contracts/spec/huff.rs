pub mod huff {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
use crate::rfc::*;
use crate::lem::*;
verus! {

// --- building the tree (step_1): p = parents, w = weights of the inner nodes, oldest first ---

pub open spec fn sum(s: Seq<int>, a: int, b: int) -> int decreases b - a { if a >= b { 0 } else { s[a] + sum(s, a + 1, b) } }

pub proof fn lemma_sum_push(s: Seq<int>, x: int, a: int, b: int)
    requires 0 <= a <= b == s.len(),
    ensures sum(s.push(x), a, b + 1) == sum(s, a, b) + x,
    decreases b - a
{
    if a < b { lemma_sum_push(s, x, a + 1, b); } else { assert(sum(s.push(x), a + 1, b + 1) == 0); }
}
pub proof fn lemma_sum_nonneg(s: Seq<int>, a: int, b: int)
    requires 0 <= a, b <= s.len(), forall|i: int| a <= i < b ==> s[i] >= 0,
    ensures sum(s, a, b) >= 0,
    decreases b - a
{ if a < b { lemma_sum_nonneg(s, a + 1, b); } }
pub proof fn lemma_sum_bound(s: Seq<int>, a: int, b: int, m: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> s[i] <= m,
    ensures sum(s, a, b) <= (b - a) * m,
    decreases b - a
{ if a < b { lemma_sum_bound(s, a + 1, b, m); assert((b - a) * m == (b - a - 1) * m + m) by (nonlinear_arith); } else { assert((b - a) * m == 0) by (nonlinear_arith) requires a == b; } }

/// r inner nodes have their parent, k inner nodes exist
pub open spec fn tree(p: Seq<int>, w: Seq<int>, r: int, k: int) -> bool {
    &&& 0 <= r <= k && w.len() == k && p.len() >= k
    &&& forall|t: int| 0 <= t < r ==> t < #[trigger] p[t] < k
    &&& forall|t: int| 0 <= t && t + 1 < r ==> #[trigger] p[t] <= p[t + 1]
    &&& forall|t: int| 0 <= t && t + 2 < r ==> #[trigger] p[t] < p[t + 2]
    &&& forall|t: int| 0 <= t < k ==> #[trigger] w[t] >= 2
    &&& forall|t: int| 0 <= t < r ==> w[#[trigger] p[t]] >= w[t] + 1
    &&& forall|t: int| 0 <= t < r && p[t] < r ==> w[p[#[trigger] p[t]]] >= w[p[t]] + w[t]
}

/// x1 and x2, the two smallest, are joined; r to q are those of them that are inner nodes
pub proof fn lemma_join(p: Seq<int>, w: Seq<int>, r: int, k: int, p2_: Seq<int>, q: int, x1: int, x2: int, m: int)
    requires
        tree(p, w, r, k), r <= q <= r + 2, q <= k < p2_.len(), p2_.len() == p.len(),
        forall|t: int| 0 <= t < r ==> p2_[t] == p[t],
        forall|t: int| r <= t < q ==> p2_[t] == k,
        forall|t: int| 0 <= t < r ==> w[t] <= m,
        m <= x1 <= x2, x1 >= 1,
        q >= r + 1 ==> w[r] == x1 || w[r] == x2,
        q >= r + 2 ==> w[r] == x1 && w[r + 1] == x2,
    ensures tree(p2_, w.push(x1 + x2), q, k + 1),
{
    let v = w.push(x1 + x2);
    assert forall|t: int| 0 <= t && t + 1 < q implies #[trigger] p2_[t] <= p2_[t + 1] by { if t + 1 < r { assert(p[t] <= p[t + 1]); } else if t < r { assert(p[t] < k); } }
    assert forall|t: int| 0 <= t && t + 2 < q implies #[trigger] p2_[t] < p2_[t + 2] by { if t + 2 < r { assert(p[t] < p[t + 2]); } else { assert(t < r); assert(p[t] < k); } }
    assert forall|t: int| 0 <= t < q implies v[#[trigger] p2_[t]] >= v[t] + 1 by { if t < r { assert(p[t] < k); assert(w[p[t]] >= w[t] + 1); } }
    assert forall|t: int| 0 <= t < q && p2_[t] < q implies v[p2_[#[trigger] p2_[t]]] >= v[p2_[t]] + v[t] by {
        assert(t < r);
        assert(t < p[t] < k);
        if p[t] < r { assert(p[p[t]] < k); assert(w[p[p[t]]] >= w[p[t]] + w[t]); } else { assert(p2_[p[t]] == k); }
    }
    assert forall|t: int| 0 <= t < q implies t < #[trigger] p2_[t] < k + 1 by { if t < r { assert(t < p[t]); } }
}

// --- depths (step_2) ---

pub open spec fn dep(p: Seq<int>, t: int, k: int) -> int decreases k - t {
    if t >= k - 1 || p[t] <= t || p[t] >= k { 0 } else { dep(p, p[t], k) + 1 }
}
pub open spec fn fib(n: int) -> int decreases n { if n <= 1 { if n <= 0 { 0 } else { 1 } } else { fib(n - 1) + fib(n - 2) } }

pub proof fn lemma_fib_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures 0 <= fib(a) <= fib(b),
    decreases b
{ if b > 0 { if b > 1 { lemma_fib_mono(0, b - 2); } if a < b { lemma_fib_mono(a, b - 1); } else if a > 1 { lemma_fib_mono(a - 1, a - 1); } } }

/// The weight of the root is at least a Fibonacci number of the depth.
pub proof fn lemma_deep(p: Seq<int>, w: Seq<int>, k: int, t: int, f: int)
    requires tree(p, w, k - 1, k), 0 <= t < k, f >= 3, w[t] >= fib(f), t < k - 1 ==> w[p[t]] >= fib(f + 1),
    ensures w[k - 1] >= fib(f + dep(p, t, k)), dep(p, t, k) >= 0,
    decreases k - t
{
    if t < k - 1 {
        let u = p[t];
        assert(t < u < k);
        if u < k - 1 {
            assert(w[p[p[t]]] >= w[p[t]] + w[t]);
            assert(fib(f + 2) == fib(f + 1) + fib(f));
        }
        lemma_deep(p, w, k, u, f + 1);
    }
}
pub proof fn lemma_depth(p: Seq<int>, w: Seq<int>, k: int, t: int)
    requires tree(p, w, k - 1, k), 0 <= t < k, w[k - 1] < 9227465,
    ensures 0 <= dep(p, t, k) <= 31,
{
    assert(fib(3) == 2 && fib(4) == 3) by (compute_only);
    assert(w[t] >= 2);
    if t < k - 1 { assert(w[p[t]] >= w[t] + 1); }
    lemma_deep(p, w, k, t, 3);
    if dep(p, t, k) >= 32 {
        assert(fib(35) == 9227465) by { lemma_fib35(); }
        lemma_fib_mono(35, 3 + dep(p, t, k));
    }
}
proof fn lemma_fib35()
    ensures fib(35) == 9227465,
{
    assert(fib(2) == 1 && fib(3) == 2 && fib(4) == 3 && fib(5) == 5 && fib(6) == 8 && fib(7) == 13 && fib(8) == 21 && fib(9) == 34 && fib(10) == 55 && fib(11) == 89) by (compute_only);
    assert(fib(12) == 144); assert(fib(13) == 233); assert(fib(14) == 377); assert(fib(15) == 610); assert(fib(16) == 987);
    assert(fib(17) == 1597); assert(fib(18) == 2584); assert(fib(19) == 4181); assert(fib(20) == 6765); assert(fib(21) == 10946);
    assert(fib(22) == 17711); assert(fib(23) == 28657); assert(fib(24) == 46368); assert(fib(25) == 75025); assert(fib(26) == 121393);
    assert(fib(27) == 196418); assert(fib(28) == 317811); assert(fib(29) == 514229); assert(fib(30) == 832040); assert(fib(31) == 1346269);
    assert(fib(32) == 2178309); assert(fib(33) == 3524578); assert(fib(34) == 5702887); assert(fib(35) == 9227465);
}
/// shape only: what step_2 relies on
pub open spec fn shape(p: Seq<int>, k: int) -> bool {
    &&& k >= 1 && p.len() >= k
    &&& forall|t: int| 0 <= t < k - 1 ==> t < #[trigger] p[t] < k
    &&& forall|t: int| 0 <= t && t + 1 < k - 1 ==> #[trigger] p[t] <= p[t + 1]
    &&& forall|t: int| 0 <= t && t + 2 < k - 1 ==> #[trigger] p[t] < p[t + 2]
}
pub proof fn lemma_dep_nonneg(p: Seq<int>, t: int, k: int)
    requires shape(p, k), 0 <= t < k,
    ensures dep(p, t, k) >= 0, t < k - 1 ==> dep(p, t, k) >= 1,
    decreases k - t
{ if t < k - 1 { lemma_dep_nonneg(p, p[t], k); } }
pub proof fn lemma_mono_p(p: Seq<int>, a: int, b: int, k: int)
    requires shape(p, k), 0 <= a <= b < k - 1,
    ensures p[a] <= p[b],
    decreases b - a
{ if a < b { lemma_mono_p(p, a, b - 1, k); assert(p[b - 1] <= p[b - 1 + 1]); } }
/// Older inner nodes lie at least as deep.
pub proof fn lemma_dep_mono(p: Seq<int>, a: int, b: int, k: int)
    requires shape(p, k), 0 <= a <= b < k,
    ensures dep(p, a, k) >= dep(p, b, k),
    decreases k - a
{
    lemma_dep_nonneg(p, a, k);
    if b < k - 1 { lemma_mono_p(p, a, b, k); lemma_dep_mono(p, p[a], p[b], k); }
}
pub proof fn lemma_step2(p: Seq<int>, b: int, j: int, k: int)
    requires shape(p, k), 0 <= j, 0 <= b - 2 * j, b < k - 1,
    ensures p[b - 2 * j] <= p[b] - j,
    decreases j
{ if j > 0 { lemma_step2(p, b, j - 1, k); assert(p[b - 2 * j] < p[b - 2 * j + 2]); } }
/// At most two inner nodes of a depth for each of the depth above: (a, b] and (b, c].
pub proof fn lemma_two_children(p: Seq<int>, a: int, b: int, c: int, d: int, k: int)
    requires
        shape(p, k), -1 <= a <= b <= c < k,
        forall|i: int| a < i <= b ==> #[trigger] dep(p, i, k) == d,
        forall|i: int| b < i <= c ==> #[trigger] dep(p, i, k) == d - 1,
        forall|i: int| c < i < k ==> #[trigger] dep(p, i, k) < d - 1,
        d >= 1,
    ensures b - a <= 2 * (c - b),
{
    if a < b {
        let j = (b - (a + 1)) / 2;
        lemma_dep_nonneg(p, b, k);
        assert(dep(p, b, k) == d);
        assert(b < k - 1);
        lemma_step2(p, b, j, k);
        assert(p[b] <= c) by { assert(dep(p, p[b], k) == d - 1); if p[b] > c { assert(dep(p, p[b], k) < d - 1); } }
        lemma_mono_p(p, a + 1, b - 2 * j, k);
        assert(dep(p, a + 1, k) == d);
        assert(dep(p, p[a + 1], k) == d - 1);
        assert(p[a + 1] > b) by { if p[a + 1] <= b { assert(dep(p, p[a + 1], k) == d); } }
    }
}

/// sum of 2^(m - v)
pub open spec fn ksum(s: Seq<int>, a: int, b: int, m: int) -> int decreases b - a { if a >= b { 0 } else { p2(m - s[a]) + ksum(s, a + 1, b, m) } }
pub proof fn lemma_ksum_ext(s: Seq<int>, t: Seq<int>, a: int, b: int, m: int)
    requires 0 <= a, b <= s.len(), b <= t.len(), forall|i: int| a <= i < b ==> s[i] == t[i],
    ensures ksum(s, a, b, m) == ksum(t, a, b, m),
    decreases b - a
{ if a < b { lemma_ksum_ext(s, t, a + 1, b, m); } }
pub proof fn lemma_ksum_push(s: Seq<int>, a: int, b: int, m: int)
    requires 0 <= a <= b < s.len(),
    ensures ksum(s, a, b + 1, m) == ksum(s, a, b, m) + p2(m - s[b]),
    decreases b - a
{ if a < b { lemma_ksum_push(s, a + 1, b, m); } else { assert(ksum(s, a + 1, b + 1, m) == 0); } }

/// Code lengths for the frequencies: symbols that occur have one, the others none, none is too
/// long, no two overlap, and if there are at least two they fill the code space.
pub open spec fn lengths_for(f: Seq<u16>, lens: Seq<u8>, m: int) -> bool {
    &&& f.len() <= lens.len()
    &&& forall|i: int| 0 <= i < lens.len() ==> (#[trigger] lens[i] > 0) == (i < f.len() && f[i] > 0)
    &&& kraft_ok(lens, m)
    &&& two_used(f) ==> kraft_full(lens, m)
}
pub open spec fn two_used(f: Seq<u16>) -> bool { exists|i: int, j: int| 0 <= i < j < f.len() && #[trigger] f[i] > 0 && #[trigger] f[j] > 0 }

/// No symbol, or a single one with a code of length 1.
pub proof fn lemma_one_code(lens: Seq<u8>, x: int, l: int)
    requires forall|i: int| 0 <= i < lens.len() && i != x ==> lens[i] == 0, 0 <= x < lens.len() ==> lens[x] == 1, l >= 1,
    ensures first_code(lens, l) + cnt(lens, l, lens.len() as int) <= p2(l - 1), kraft_ok(lens, l),
    decreases l
{
    let n = lens.len() as int;
    lemma_cnt_one(lens, x, l, n);
    lemma_p2_pos(l - 1);
    if l > 1 { lemma_one_code(lens, x, l - 1); } else { assert(first_code(lens, 0) == 0); assert(p2(0) == 1); }
    assert(p2(l) == 2 * p2(l - 1));
}
proof fn lemma_cnt_one(s: Seq<u8>, x: int, l: int, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() && i != x ==> s[i] == 0, 0 <= x < s.len() ==> s[x] == 1, l >= 1,
    ensures cnt(s, l, k) <= if x < k && l == 1 { 1int } else { 0 },
    decreases k
{ if k > 0 { lemma_cnt_one(s, x, l, k - 1); } }

// --- numbers of codes per length ---

pub open spec fn csum(a: Seq<u16>, lo: int, hi: int) -> int decreases hi - lo { if lo >= hi { 0 } else { csum(a, lo, hi - 1) + a[hi - 1] } }
pub open spec fn wsum(a: Seq<u16>, lo: int, hi: int, m: int) -> int decreases hi - lo { if lo >= hi { 0 } else { wsum(a, lo, hi - 1, m) + a[hi - 1] * p2(m - (hi - 1)) } }

pub proof fn lemma_csum_update(a: Seq<u16>, i: int, v: u16, lo: int, hi: int)
    requires 0 <= lo, hi <= a.len(), 0 <= i < a.len(),
    ensures csum(a.update(i, v), lo, hi) == csum(a, lo, hi) + if lo <= i < hi { v - a[i] } else { 0 },
    decreases hi - lo
{ if lo < hi { lemma_csum_update(a, i, v, lo, hi - 1); } }
pub proof fn lemma_wsum_update(a: Seq<u16>, i: int, v: u16, lo: int, hi: int, m: int)
    requires 0 <= lo, hi <= a.len(), 0 <= i < a.len(),
    ensures wsum(a.update(i, v), lo, hi, m) == wsum(a, lo, hi, m) + if lo <= i < hi { (v - a[i]) * p2(m - i) } else { 0 },
    decreases hi - lo
{
    if lo < hi {
        lemma_wsum_update(a, i, v, lo, hi - 1, m);
        if i == hi - 1 { let q = p2(m - i); assert((v - a[i]) * q == v * q - a[i] * q) by (nonlinear_arith); }
    }
}
pub proof fn lemma_csum_bounds(a: Seq<u16>, lo: int, hi: int)
    requires 0 <= lo, hi <= a.len(),
    ensures csum(a, lo, hi) >= 0, forall|i: int| lo <= i < hi ==> #[trigger] a[i] <= csum(a, lo, hi),
    decreases hi - lo
{ if lo < hi { lemma_csum_bounds(a, lo, hi - 1); } }
pub proof fn lemma_csum_split(a: Seq<u16>, lo: int, mid: int, hi: int)
    requires 0 <= lo <= mid <= hi <= a.len(),
    ensures csum(a, lo, hi) == csum(a, lo, mid) + csum(a, mid, hi),
    decreases hi - mid
{ if mid < hi { lemma_csum_split(a, lo, mid, hi - 1); } }
pub proof fn lemma_wsum_split(a: Seq<u16>, lo: int, mid: int, hi: int, m: int)
    requires 0 <= lo <= mid <= hi <= a.len(),
    ensures wsum(a, lo, hi, m) == wsum(a, lo, mid, m) + wsum(a, mid, hi, m),
    decreases hi - mid
{ if mid < hi { lemma_wsum_split(a, lo, mid, hi - 1, m); } }
pub proof fn lemma_p2_add(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures p2(a + b) == p2(a) * p2(b),
    decreases a
{ if a > 0 { lemma_p2_add(a - 1, b); let x = p2(a - 1); let y = p2(b); assert((2 * x) * y == 2 * (x * y)) by (nonlinear_arith); } }
pub proof fn lemma_wsum_scale(a: Seq<u16>, lo: int, hi: int, m: int, k: int)
    requires 0 <= lo, hi <= a.len(), k >= 0, hi - 1 <= m,
    ensures wsum(a, lo, hi, m + k) == wsum(a, lo, hi, m) * p2(k),
    decreases hi - lo
{
    if lo < hi {
        lemma_wsum_scale(a, lo, hi - 1, m, k);
        let x = m - (hi - 1);
        lemma_p2_add(x, k);
        let s = wsum(a, lo, hi - 1, m); let c = a[hi - 1] as int; let y = p2(x); let z = p2(k);
        assert((s + c * y) * z == s * z + c * (y * z)) by (nonlinear_arith);
    }
}
/// weights above max are at most those of max
pub proof fn lemma_wsum_above(a: Seq<u16>, lo: int, hi: int, m: int, w: int)
    requires 0 <= lo, hi <= a.len(), w == p2(m - lo + 1),
    ensures 0 <= wsum(a, lo, hi, m) <= csum(a, lo, hi) * w,
    decreases hi - lo
{
    if lo < hi {
        lemma_wsum_above(a, lo, hi - 1, m, w);
        let c = csum(a, lo, hi - 1); let x = a[hi - 1] as int; let y = p2(m - (hi - 1));
        lemma_p2_pos(m - (hi - 1));
        lemma_p2_mono(m - (hi - 1), m - lo + 1);
        assert((c + x) * w == c * w + x * w) by (nonlinear_arith);
        assert(0 <= x * y <= x * w) by (nonlinear_arith) requires x >= 0, 0 <= y <= w;
    }
}
/// Cutting the codes at max_len leaves too many by less than their number.
pub proof fn lemma_cut(a: Seq<u16>, max: int)
    requires a.len() == 33, 1 <= max <= 15, wsum(a, 1, 33, 32) == p2(32),
    ensures
        wsum(a, 1, max + 1, max) <= p2(max) <= wsum(a, 1, max + 1, max) + csum(a, max + 1, 33),
        csum(a, max + 1, 33) >= 0,
{
    lemma_wsum_split(a, 1, max + 1, 33, 32);
    lemma_wsum_scale(a, 1, max + 1, max, 32 - max);
    let q = p2(32 - max);
    lemma_wsum_above(a, max + 1, 33, 32, q);
    lemma_csum_bounds(a, max + 1, 33);
    lemma_p2_add(max, 32 - max);
    lemma_p2_pos(32 - max);
    let t = wsum(a, 1, max + 1, max); let m = p2(max); let c = csum(a, max + 1, 33);
    assert(t <= m <= t + c) by (nonlinear_arith) requires t * q <= m * q, m * q <= t * q + c * q, q >= 1;
}
pub proof fn lemma_shl32(n: int)
    requires 0 <= n <= 15,
    ensures 1u32 << (n as usize) == p2(n),
{
    lemma_p2_shl(n);
    let k = n as usize; let q = n as u64;
    assert(k <= 15 && q == k ==> (1u32 << k) as u64 == 1u64 << q) by (bit_vector);
}
pub proof fn lemma_shl_mul(v: u16, n: int)
    requires 0 <= n <= 15,
    ensures (v as u32) << (n as usize) == v * p2(n),
{
    lemma_p2_shl(n);
    let k = n as usize; let q = n as u64; let x = v as u32;
    assert(k <= 15 && q == k && x <= 0xffff ==> (x << k) as u64 == mul(x as u64, 1u64 << q)) by (bit_vector);
    let y = (1u64 << q) as int;
    assert(p2(n) <= 32768) by { lemma_p2_mono(n, 15); assert(p2(15) == 32768) by (compute_only); }
    assert(0 <= x * y <= 65535 * 32768) by (nonlinear_arith) requires 0 <= x <= 65535, 0 <= y <= 32768;
}
/// only codes of length hi - 1
pub proof fn lemma_only_top(a: Seq<u16>, hi: int, m: int)
    requires 1 < hi <= a.len(), forall|i: int| 1 <= i < hi - 1 ==> a[i] == 0, m == hi - 1,
    ensures csum(a, 1, hi) == a[hi - 1], wsum(a, 1, hi, m) == a[hi - 1],
{
    lemma_zero_sums(a, 1, hi - 1, m);
    assert(p2(0) == 1);
}
pub proof fn lemma_zero_sums(a: Seq<u16>, lo: int, hi: int, m: int)
    requires 0 <= lo, hi <= a.len(), forall|i: int| lo <= i < hi ==> a[i] == 0,
    ensures csum(a, lo, hi) == 0, wsum(a, lo, hi, m) == 0,
    decreases hi - lo
{ if lo < hi { lemma_zero_sums(a, lo, hi - 1, m); } }

// --- the codes as code lengths ---

pub proof fn lemma_cnt_update(s: Seq<u8>, i: int, v: u8, l: int, k: int)
    requires 0 <= i < s.len(), 0 <= k <= s.len(),
    ensures cnt(s.update(i, v), l, k) == cnt(s, l, k) + if i < k { (if v == l { 1int } else { 0 }) - (if s[i] == l { 1int } else { 0 }) } else { 0 },
    decreases k
{ if k > 0 { lemma_cnt_update(s, i, v, l, k - 1); } }

/// The codes fill the code space exactly.
pub open spec fn kraft_full(lens: Seq<u8>, m: int) -> bool {
    &&& forall|i: int| 0 <= i < lens.len() ==> lens[i] <= m
    &&& first_code(lens, m) + cnt(lens, m, lens.len() as int) == p2(m)
}
pub proof fn lemma_kraft_wsum(lens: Seq<u8>, a: Seq<u16>, l: int, m: int)
    requires 1 <= l <= m < a.len(), forall|d: int| 1 <= d <= m ==> #[trigger] a[d] == cnt(lens, d, lens.len() as int),
    ensures first_code(lens, l) + cnt(lens, l, lens.len() as int) == wsum(a, 1, l + 1, l),
    decreases l
{
    assert(a[l] == cnt(lens, l, lens.len() as int));
    assert(p2(0) == 1);
    if l > 1 {
        lemma_kraft_wsum(lens, a, l - 1, m);
        lemma_wsum_scale(a, 1, l, l - 1, 1);
        assert(p2(1) == 2) by (compute_only);
        assert(wsum(a, 1, l + 1, l) == wsum(a, 1, l, l) + a[l] * p2(0));
        assert(a[l] * p2(0) == a[l]) by (nonlinear_arith) requires p2(0) == 1;
    } else {
        assert(wsum(a, 1, 2, 1) == wsum(a, 1, 1, 1) + a[1] * p2(0));
        assert(a[1] * p2(0) == a[1]) by (nonlinear_arith) requires p2(0) == 1;
        assert(first_code(lens, 0) == 0);
    }
}
pub proof fn lemma_cnt_zero(s: Seq<u8>, l: int, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != l,
    ensures cnt(s, l, k) == 0,
    decreases k
{ if k > 0 { lemma_cnt_zero(s, l, k - 1); } }

} // verus!
}
