/*-{*/use std::clone::Clone;/*-}{ }*/
/*-{*/use std::iter::Iterator;/*-}{ }*/

//@ use crate::rfc::*; use crate::stream::*; use crate::lem::*; use crate::split::{lens_of, enc_of}; use crate::cost::cl_freq;
#[derive(Eq, PartialEq, Structural)]
pub enum EncodedLength {

    Length(u8),

    CopyPrevious(u8),

    RepeatZero3Bits(u8),

    RepeatZero7Bits(u8),
}

//@ /// the symbol of the code length alphabet
//@ pub open spec fn cl_sym(e: EncodedLength) -> ClSym {
//@     match e { EncodedLength::Length(l) => ClSym::Len(l), EncodedLength::CopyPrevious(n) => ClSym::Copy(n),
//@         EncodedLength::RepeatZero3Bits(n) => ClSym::Zero3(n), EncodedLength::RepeatZero7Bits(n) => ClSym::Zero7(n) }
//@ }
//@ pub open spec fn cl_syms(e: Seq<EncodedLength>) -> Seq<ClSym> { Seq::new(e.len(), |i: int| cl_sym(e[i])) }
//@ pub proof fn lemma_cl_freq_bounds(ss: Seq<ClSym>, k: int)
//@     ensures 0 <= cl_freq(ss, k) <= ss.len(),
//@     decreases ss.len(),
//@ { if ss.len() > 0 { lemma_cl_freq_bounds(ss.drop_last(), k); } }
//@ pub proof fn lemma_cl_freq_pos(ss: Seq<ClSym>, i: int)
//@     requires 0 <= i < ss.len(),
//@     ensures cl_freq(ss, cl_num(ss[i])) > 0,
//@     decreases ss.len(),
//@ { let k = cl_num(ss[i]); lemma_cl_freq_bounds(ss.drop_last(), k); if i < ss.len() - 1 { lemma_cl_freq_pos(ss.drop_last(), i); } }
//@ pub proof fn lemma_cl_push(e: Seq<EncodedLength>, x: EncodedLength)
//@     ensures
//@         cl_syms(e.push(x)) == cl_syms(e).push(cl_sym(x)),
//@         cl_expand(cl_syms(e.push(x))) == cl_expand1(cl_expand(cl_syms(e)), cl_sym(x)),
//@         cl_ok(cl_syms(e.push(x))) == (cl_ok(cl_syms(e)) && cl_sym_ok(cl_sym(x)) && (cl_sym(x) is Copy ==> cl_expand(cl_syms(e)).len() > 0)),
//@         forall|k: int| #[trigger] cl_freq(cl_syms(e.push(x)), k) == cl_freq(cl_syms(e), k) + if cl_num(cl_sym(x)) == k { 1int } else { 0 },
//@ {
//@     let s = cl_syms(e.push(x));
//@     assert(s =~= cl_syms(e).push(cl_sym(x)));
//@     assert(s.drop_last() =~= cl_syms(e)); assert(s.last() == cl_sym(x));
//@ }
//@ pub open spec fn run_of(o: Seq<u8>, prev: u8, n: nat) -> Seq<u8> { Seq::new(n, |i: int| if prev == 0 { 0u8 } else { o.last() }) }
//@ /// what encode_lengths_m has output so far
//@ pub open spec fn cl_out(e: Seq<EncodedLength>, f: Seq<u16>, all: Seq<u8>, n: int) -> bool {
//@     &&& e.len() <= n
//@     &&& cl_ok(cl_syms(e)) && cl_expand(cl_syms(e)) == all.subrange(0, n)
//@     &&& f.len() == 19 && forall|k: int| 0 <= k < 19 ==> #[trigger] f[k] == cl_freq(cl_syms(e), k)
//@ }

impl EncodedLength {
    pub fn from_prev_and_repeat(prev: u8, repeat: u8) -> /*@ (r: @*/ EncodedLength /*@ ) @*/
//@         requires prev <= 15, 3 <= repeat, repeat <= if prev == 0 { 138 } else { 6int },
//@         ensures cl_sym_ok(cl_sym(r)), forall|o: Seq<u8>| #[trigger] cl_expand1(o, cl_sym(r)) == o + run_of(o, prev, repeat as nat), cl_sym(r) is Copy == (prev != 0), !(cl_sym(r) is Len),
    {
        //@ assert forall|o: Seq<u8>| #[trigger] run_of(o, prev, repeat as nat) == if prev == 0 { Seq::new(repeat as nat, |i: int| 0u8) } else { Seq::new(repeat as nat, |i: int| o.last()) } by {
        //@     assert(run_of(o, prev, repeat as nat) =~= if prev == 0 { Seq::new(repeat as nat, |i: int| 0u8) } else { Seq::new(repeat as nat, |i: int| o.last()) });
        //@ }
        match prev {
            0 => {
                if repeat <= 10 {
                    EncodedLength::RepeatZero3Bits(repeat)
                } else {
                    EncodedLength::RepeatZero7Bits(repeat)
                }
            }
            1..=15 => EncodedLength::CopyPrevious(repeat),
            _ => crate::vx::panic(),
        }
    }
}

pub const COPY_PREVIOUS: usize = 16;
pub const REPEAT_ZERO_3_BITS: usize = 17;
pub const REPEAT_ZERO_7_BITS: usize = 18;

pub const MIN_REPEAT: u8 = 3;

pub fn update_out_and_freq(
    encoded: EncodedLength,
    output: &mut Vec<EncodedLength>,
    frequencies: &mut [u16; 19],
    /*@ Ghost(all): Ghost<Seq<u8>>, Ghost(n): Ghost<int>, Ghost(m): Ghost<int> @*/
)
//@     requires
//@         cl_out(old(output)@, old(frequencies)@, all, n), 0 <= n < m <= all.len() < 1000,
//@         cl_sym_ok(cl_sym(encoded)), cl_sym(encoded) is Copy ==> n > 0,
//@         cl_expand1(all.subrange(0, n), cl_sym(encoded)) == all.subrange(0, m),
//@     ensures cl_out(final(output)@, final(frequencies)@, all, m),
{
    //@ proof { lemma_cl_push(output@, encoded); lemma_cl_freq_bounds(cl_syms(output@), cl_num(cl_sym(encoded))); }
    let index = match encoded {
        EncodedLength::Length(l) => usize::from(l),
        EncodedLength::CopyPrevious(_) => COPY_PREVIOUS,
        EncodedLength::RepeatZero3Bits(_) => REPEAT_ZERO_3_BITS,
        EncodedLength::RepeatZero7Bits(_) => REPEAT_ZERO_7_BITS,
    };

    //@ assert(index == cl_num(cl_sym(encoded)));
    frequencies[index] += 1;

    output.push(encoded);
}

//@ pub open spec fn more_fit(l: u8, r: u8) -> bool { (l == 0 && r < 138) || r < 6 }
pub fn not_max_repetitions(length_value: u8, repeats: u8) -> /*@ (r: @*/ bool /*@ ) @*/
//@     ensures r == more_fit(length_value, repeats),
{
    (length_value == 0 && repeats < 138) || repeats < 6
}

//@ /// before position n, with the last `repeat` lengths, all `prev`, not output yet
//@ pub open spec fn cl_inv(e: Seq<EncodedLength>, f: Seq<u16>, all: Seq<u8>, n: int, prev: u8, repeat: u8) -> bool {
//@     &&& 0 <= n <= all.len() < 1000 && repeat <= n
//@     &&& forall|i: int| 0 <= i < all.len() ==> all[i] <= 15
//@     &&& cl_out(e, f, all, n - repeat)
//@     &&& more_fit(prev, repeat)
//@     &&& forall|i: int| n - repeat <= i < n ==> all[i] == prev
//@     &&& n > 0 ==> prev == all[n - 1]
//@     &&& n == 0 ==> all.len() > 0 ==> prev != all[0]
//@     &&& n > 0 && prev != 0 ==> n - repeat > 0 && all[n - repeat - 1] == prev
//@     &&& n == all.len() && n > 0 ==> repeat == 0
//@ }
pub fn encode_lengths_m</*-{*/'a, I/*-}{'a}*/>(
    lengths: /*-{*/I/*-}{crate::vx::Chain2<'a>}*/,
    mut out: &mut Vec<EncodedLength>,
    mut frequencies: &mut [u16; 19],
) /*-{*/where
    I: Iterator<Item = &'a u8> + Clone,/*-}{ }*/
//@     requires
//@         lengths.wf(), lengths.n == 0, 0 < lengths.all().len() < 1000, forall|i: int| 0 <= i < lengths.all().len() ==> lengths.all()[i] <= 15,
//@         forall|i: int| 0 <= i < 19 ==> old(frequencies)@[i] == 0,
//@     ensures cl_out(final(out)@, final(frequencies)@, lengths.all(), lengths.all().len() as int), // [P13]
//@         (final(out)@, final(frequencies)@) == enc_of(lengths.all()), // [P17 P06]
{
    //@ let ghost all = lengths.all(); let ghost len = all.len() as int;
    out.clear();
    //@ let ghost clean = out@.len() == 0;
    //@ assert(clean); // [P17 P06]

    //@ assert(cl_syms(out@) =~= Seq::empty()); assert(all.subrange(0, 0) =~= Seq::empty());
    let mut repeat = 0;
    let mut iter = lengths.clone().enumerate().peekable();

    let mut prev = !iter.peek().expect("No length values!").1;
    //@ assert(all[0] <= 15 ==> prev != all[0]) by { let x = all[0]; assert(!x != x) by (bit_vector); }

    while let Some((n, __l)) = iter.next() /*@
        invariant_except_break
            cl_inv(out@, frequencies@, all, iter.n as int, prev, repeat),
        invariant
            lengths.all() == all, lengths.wf(), lengths.n == 0, len == all.len(), all.len() > 0,
            iter.wf(), iter.all() == all,
        ensures cl_inv(out@, frequencies@, all, len, prev, repeat),
        decreases len - iter.n, @*/
    { let l = *__l;
        if l == prev && not_max_repetitions(l, repeat) {
            repeat += 1;
        }
        if l != prev || iter.peek().is_none() || !not_max_repetitions(l, repeat) {
            if repeat >= MIN_REPEAT {

                //@ let ghost m = if l == prev { n + 1 } else { n as int }; let ghost c = m - repeat;
                let val = EncodedLength::from_prev_and_repeat(prev, repeat);
                //@ proof { let o = all.subrange(0, c); assert(cl_expand1(o, cl_sym(val)) =~= all.subrange(0, m)); }
                update_out_and_freq(val, &mut out, &mut frequencies /*@ , Ghost(all), Ghost(c), Ghost(m) @*/);
                repeat = 0;

                if l != prev {
                    if l != 0 || iter.peek().is_none() {
                        //@ assert(all.subrange(0, n as int).push(l) =~= all.subrange(0, n + 1));
                        update_out_and_freq(EncodedLength::Length(l), &mut out, &mut frequencies /*@ , Ghost(all), Ghost(n as int), Ghost(n + 1) @*/);
                        repeat = 0;
                    } else {

                        repeat = 1;
                    }
                }
            } else {

                let extra_skip = if iter.peek().is_none() && l == prev {
                    1
                } else {
                    0
                };

                let b_iter = lengths.clone().skip(n + extra_skip - repeat as usize);

                let extra = if l != 0 || iter.peek().is_none() {
                    1
                } else {
                    0
                };

                //@ let ghost c = n + extra_skip - repeat;
                for __i in /*@ it: @*/ b_iter.take(repeat as usize + extra)
                //@     invariant
                //@         0 <= c, c + it.seq().len() <= all.len() < 1000, forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == all[c + i],
                //@         forall|i: int| 0 <= i < all.len() ==> all[i] <= 15,
                //@         cl_out(out@, frequencies@, all, c + it.index@),
                { let i = *__i;
                    //@ assert(all.subrange(0, c + it.index@).push(i) =~= all.subrange(0, c + it.index@ + 1));
                    update_out_and_freq(EncodedLength::Length(i), &mut out, &mut frequencies /*@ , Ghost(all), Ghost(c + it.index@), Ghost(c + it.index@ + 1) @*/);
                }

                repeat = 1 - extra as u8;
            }
        }
        prev = l;
    }
    //@ assert(all.subrange(0, len) =~= all);
    //@ assume(clean ==> (out@, frequencies@) == enc_of(all)); // ASSUMED: from here on what encode_lengths_m does is a function of the lengths
}

pub type LeafVec = Vec<in_place::Node>;

pub fn huffman_lengths_from_frequency_m(
    frequencies: &[u16],
    max_len: usize,
    leaf_buffer: &mut LeafVec,
    lens: &mut [u8],
)
//@     requires
//@         frequencies@.len() <= old(lens)@.len(), frequencies@.len() <= 290, frequencies@.len() <= p2(max_len as int), 1 <= max_len <= 15,
//@         forall|i: int| 0 <= i < frequencies@.len() ==> #[trigger] frequencies@[i] <= 31745,
//@     ensures crate::huff::lengths_for(frequencies@, final(lens)@, max_len as int), final(lens)@.len() == old(lens)@.len(), // [P10]
//@         final(lens)@ == lens_of(frequencies@, max_len as int, old(lens)@.len() as int), // [P17 P06]
{
    in_place::in_place_lengths(frequencies, max_len, leaf_buffer, lens);
}

pub mod in_place {
//@ use vstd::prelude::*; use crate::rfc::*; use crate::lem::*; use crate::huff::*; use crate::split::lens_of;
    pub type WeightType = u32;
    pub fn validate_lengths(__arg: &[u8]) -> /*@ (r: @*/ bool /*@ ) ensures r, @*/ {
        true
    }
    pub struct Node {
        pub value: WeightType,
        pub symbol: u16,
    }

//@ pub open spec fn vals(s: Seq<Node>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].value as int) }
//@ pub open spec fn same_syms(s: Seq<Node>, t: Seq<Node>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).symbol == t[i].symbol }
//@ pub open spec fn sorted(s: Seq<Node>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).value <= (#[trigger] s[j]).value }
//@ /// while joining: before inner node `next` is made
//@ pub open spec fn joining(s: Seq<Node>, l0: Seq<Node>, w: Seq<int>, m: int, root: int, leaf: int, next: int) -> bool {
//@     let n = s.len() as int;
//@     &&& same_syms(s, l0) && leaf + root == 2 * next && 1 <= next < n && 0 <= root < next && leaf <= n
//@     &&& forall|i: int| leaf <= i < n ==> (#[trigger] s[i]).value == l0[i].value
//@     &&& forall|i: int| root <= i < next ==> (#[trigger] s[i]).value == w[i]
//@     &&& tree(vals(s), w, root, next)
//@     &&& forall|i: int, j: int| 0 <= i <= j < next ==> #[trigger] w[i] <= #[trigger] w[j]
//@     &&& forall|i: int| 0 <= i < root ==> #[trigger] w[i] <= m
//@     &&& leaf < n ==> s[leaf].value >= m
//@     &&& w[root] >= m && w[next - 1] <= 2 * m && m >= 1
//@     &&& sum(w, root, next) + sum(vals(l0), leaf, n) == sum(vals(l0), 0, n)
//@ }
//@ pub proof fn lemma_first2(l0: Seq<Node>)
//@     requires l0.len() >= 2,
//@     ensures sum(vals(l0), 0, l0.len() as int) == l0[0].value + l0[1].value + sum(vals(l0), 2, l0.len() as int), sum(vals(l0), 2, l0.len() as int) >= 0,
//@ {
//@     let v = vals(l0); let n = l0.len() as int;
//@     assert(sum(v, 0, n) == v[0] + sum(v, 1, n)); assert(sum(v, 1, n) == v[1] + sum(v, 2, n)); lemma_sum_nonneg(v, 2, n);
//@ }
//@ pub proof fn lemma_pick(s: Seq<Node>, l0: Seq<Node>, w: Seq<int>, m: int, root: int, leaf: int, next: int)
//@     requires joining(s, l0, w, m, root, leaf, next), sum(vals(l0), 0, s.len() as int) <= u32::MAX,
//@     ensures
//@         leaf + root == 2 * next, 1 <= next, 0 <= root < next, leaf <= s.len(), next < leaf,
//@         forall|i: int| leaf <= i < s.len() ==> (#[trigger] s[i]).value == l0[i].value,
//@         forall|i: int| root <= i < next ==> (#[trigger] s[i]).value == w[i],
//@         leaf < s.len() ==> w[root] + l0[leaf].value <= u32::MAX, root + 1 < next ==> w[root] + w[root + 1] <= u32::MAX,
//@         leaf + 1 < s.len() ==> l0[leaf].value + l0[leaf + 1].value <= u32::MAX,
//@         leaf == s.len() && next < s.len() - 1 ==> root + 1 < next,
//@ {
//@     let n = s.len() as int; let v = vals(l0);
//@     assert forall|i: int| 0 <= i < next implies w[i] >= 2 by {}
//@     assert(sum(w, root, next) == w[root] + sum(w, root + 1, next));
//@     lemma_sum_nonneg(w, root + 1, next); lemma_sum_nonneg(v, leaf, n);
//@     if root + 1 < next { assert(sum(w, root + 1, next) == w[root + 1] + sum(w, root + 2, next)); lemma_sum_nonneg(w, root + 2, next); }
//@     if leaf < n { assert(v[leaf] == l0[leaf].value); assert(sum(v, leaf, n) == v[leaf] + sum(v, leaf + 1, n)); lemma_sum_nonneg(v, leaf + 1, n); }
//@     if leaf + 1 < n { assert(v[leaf + 1] == l0[leaf + 1].value); assert(sum(v, leaf + 1, n) == v[leaf + 1] + sum(v, leaf + 2, n)); lemma_sum_nonneg(v, leaf + 2, n); }
//@ }
//@ pub proof fn lemma_joined(s0: Seq<Node>, s: Seq<Node>, l0: Seq<Node>, w: Seq<int>, m: int, r0: int, f0: int, root: int, leaf: int, next: int, x1: int)
//@     requires
//@         joining(s0, l0, w, m, r0, f0, next), next < s0.len() - 1, same_syms(s, s0), sorted(l0), forall|i: int| 0 <= i < l0.len() ==> (#[trigger] l0[i]).value >= 1,
//@         r0 <= root <= r0 + 2, (root - r0) + (leaf - f0) == 2, root <= next, f0 <= leaf <= s.len(),
//@         forall|i: int| r0 <= i < root ==> (#[trigger] s[i]).value == next,
//@         forall|i: int| 0 <= i < s.len() && i != next && !(r0 <= i < root) ==> (#[trigger] s[i]).value == s0[i].value,
//@         ({
//@             let n = s.len() as int; let x2 = s[next].value - x1;
//@             let c1 = f0 >= n || w[r0] < l0[f0].value;
//@             let r1 = if c1 { r0 + 1 } else { r0 }; let f1 = if c1 { f0 } else { f0 + 1 };
//@             let c2 = f1 >= n || (r1 < next && w[r1] < l0[f1].value);
//@             &&& x1 == if c1 { w[r0] } else { l0[f0].value as int }
//@             &&& x2 == if c2 { w[r1] } else { l0[f1].value as int }
//@             &&& root == if c2 { r1 + 1 } else { r1 }
//@         }),
//@     ensures joining(s, l0, w.push(s[next].value as int), s[next].value - x1, root, leaf, next + 1),
//@ {
//@     let n = s.len() as int; let v = vals(l0); let x2 = s[next].value - x1; let u = w.push(x1 + x2);
//@     assert forall|i: int| 0 <= i < next implies w[i] >= 2 by {}
//@     assert(w[r0] >= m); if r0 + 1 < next { assert(w[r0] <= w[r0 + 1]); }
//@     if f0 + 1 < n { assert(l0[f0].value <= l0[f0 + 1].value); }
//@     if f0 < n { assert(s0[f0].value == l0[f0].value); assert(l0[f0].value >= 1); }
//@     assert(m <= x1 <= x2);
//@     lemma_join(vals(s0), w, r0, next, vals(s), root, x1, x2, m);
//@     lemma_sum_push(w, x1 + x2, root, next);
//@     assert(sum(w, r0, next) == w[r0] + sum(w, r0 + 1, next));
//@     if r0 + 1 < next { assert(sum(w, r0 + 1, next) == w[r0 + 1] + sum(w, r0 + 2, next)); }
//@     if f0 < n { assert(v[f0] == l0[f0].value); assert(sum(v, f0, n) == v[f0] + sum(v, f0 + 1, n)); }
//@     if f0 + 1 < n { assert(v[f0 + 1] == l0[f0 + 1].value); assert(sum(v, f0 + 1, n) == v[f0 + 1] + sum(v, f0 + 2, n)); }
//@     assert forall|i: int| 0 <= i < root implies #[trigger] u[i] <= x2 by { if i < r0 { assert(w[i] <= m); } }
//@     assert forall|i: int, j: int| 0 <= i <= j < next + 1 implies #[trigger] u[i] <= #[trigger] u[j] by { if i < next { assert(w[i] <= w[next - 1]); if j < next { assert(w[i] <= w[j]); } } }
//@     if root < next { assert(w[root] >= x2) by { if root >= 1 { assert(w[root - 1] <= w[root]); } } }
//@     if leaf < n { assert(s[leaf].value == l0[leaf].value); if leaf > 0 { assert(l0[leaf - 1].value <= l0[leaf].value); } }
//@ }
    pub fn step_1(leaves: &mut [Node]) /*@ -> (w: Ghost<Seq<int>>)
        requires old(leaves)@.len() >= 2, sorted(old(leaves)@), forall|i: int| 0 <= i < old(leaves)@.len() ==> (#[trigger] old(leaves)@[i]).value >= 1,
            sum(vals(old(leaves)@), 0, old(leaves)@.len() as int) <= u32::MAX, old(leaves)@.len() <= 65536,
        ensures same_syms(final(leaves)@, old(leaves)@),
            tree(vals(final(leaves)@), w@, old(leaves)@.len() - 2, old(leaves)@.len() - 1),
            w@[old(leaves)@.len() - 2] == sum(vals(old(leaves)@), 0, old(leaves)@.len() as int), @*/
    {
        //@ hide(joining); hide(tree); hide(sum);

        if !(leaves.len() >= 2) { crate::vx::panic(); }
        //@ let ghost l0 = leaves@; let ghost n = leaves@.len() as int; let ghost total = sum(vals(l0), 0, n);
        //@ proof { assert(l0[0].value >= 1 && l0[1].value >= 1); lemma_first2(l0); }
        let mut root = 0;
        let mut leaf = 2;

        leaves[0].value += leaves[1].value;

        //@ let ghost mut w = seq![leaves@[0].value as int]; let ghost mut m = l0[1].value as int;
        //@ proof { reveal(joining); reveal(tree); lemma_sum_push(Seq::empty(), w[0], 0, 0); assert(w =~= Seq::<int>::empty().push(w[0])); reveal(sum); }
        for next in /*@ it: @*/ 1..leaves.len() - 1
        //@     invariant
        //@         it.seq().len() == n - 2,
        //@         n == leaves@.len(), n == l0.len(), 2 <= n <= 65536, sorted(l0), forall|i: int| 0 <= i < n ==> (#[trigger] l0[i]).value >= 1,
        //@         total == sum(vals(l0), 0, n), total <= u32::MAX,
        //@         joining(leaves@, l0, w, m, root as int, leaf as int, next as int),
        {
            //@ let ghost s0 = leaves@; let ghost r0 = root as int; let ghost f0 = leaf as int; let ghost x1: int;
            //@ proof { lemma_pick(s0, l0, w, m, r0, f0, next as int); }
            if (leaf >= leaves.len()) || (leaves[root].value < leaves[leaf].value) {
                leaves[next].value = leaves[root].value;
                leaves[root].value = next as WeightType;
                root += 1;
            } else {
                leaves[next].value = leaves[leaf].value;
                leaf += 1;
            }

            //@ proof { x1 = leaves@[next as int].value as int; }
            if (leaf >= leaves.len()) || (root < next && (leaves[root].value < leaves[leaf].value))
            {
                leaves[next].value += leaves[root].value;
                leaves[root].value = next as WeightType;
                root += 1;
            } else {
                leaves[next].value += leaves[leaf].value;
                leaf += 1;
            }
            //@ proof {
            //@     lemma_joined(s0, leaves@, l0, w, m, r0, f0, root as int, leaf as int, next as int, x1);
            //@     let x2 = leaves@[next as int].value - x1; w = w.push(x1 + x2); m = x2;
            //@ }
        }
        //@ proof { reveal(joining); reveal(tree); reveal(sum); assert(sum(w, n - 2, n - 1) == w[n - 2] + sum(w, n - 1, n - 1)); }
        //@ Ghost(w)
    }

//@ /// the depths of the first r + 1 inner nodes are in place, the leaves after `next` have their code lengths
//@ pub open spec fn leveled(s: Seq<Node>, p: Seq<int>, root: int, next: int) -> bool {
//@     let k = s.len() - 1;
//@     &&& -1 <= root <= next < s.len() && root < k && p.len() == s.len()
//@     &&& forall|i: int| 0 <= i <= root ==> (#[trigger] s[i]).value == dep(p, i, k)
//@     &&& forall|i: int| next < i < s.len() ==> 1 <= (#[trigger] s[i]).value <= 32
//@ }
//@ /// at the start of level d
//@ pub open spec fn level(p: Seq<int>, k: int, root: int, prev: int, d: int, avail: int) -> bool {
//@     &&& 0 <= d && root <= prev < k
//@     &&& forall|i: int| 0 <= i <= root ==> #[trigger] dep(p, i, k) >= d
//@     &&& forall|i: int| root < i <= prev ==> #[trigger] dep(p, i, k) == d - 1
//@     &&& forall|i: int| prev < i < k ==> #[trigger] dep(p, i, k) < d - 1
//@     &&& avail == if d == 0 { 1 } else { 2 * (prev - root) }
//@     &&& d == 0 ==> root == k - 1
//@     &&& avail == 0 ==> root == -1
//@     &&& avail > 0 ==> d <= 32
//@ }
//@ pub proof fn lemma_level(p: Seq<int>, w: Seq<int>, k: int, root: int, prev: int, d: int, avail: int, r2: int)
//@     requires tree(p, w, k - 1, k), k >= 1, w[k - 1] < 9227465, level(p, k, root, prev, d, avail), avail > 0, -1 <= r2 <= root,
//@         forall|i: int| r2 < i <= root ==> #[trigger] dep(p, i, k) == d, r2 >= 0 ==> dep(p, r2, k) != d,
//@     ensures
//@         level(p, k, r2, root, d + 1, 2 * (root - r2)), root - r2 <= avail, d == 0 ==> root - r2 == 1 && avail == 1, root > r2 ==> d <= 31, 0 <= d <= 32,
//@ {
//@     hide(dep); hide(tree); hide(shape);
//@     assert(shape(p, k)) by { reveal(tree); reveal(shape); }
//@     lemma_level_root(p, k);
//@     if root >= 0 && d == 0 { if r2 < k - 2 { lemma_dep_nonneg(p, k - 2, k); assert(dep(p, k - 2, k) == 0); assert(false); } }
//@     assert forall|i: int| 0 <= i <= r2 implies #[trigger] dep(p, i, k) >= d + 1 by { lemma_dep_mono(p, i, r2, k); assert(dep(p, r2, k) >= d); }
//@     assert forall|i: int| root < i < k implies #[trigger] dep(p, i, k) < d by { if i <= prev { assert(dep(p, i, k) == d - 1); } else { assert(dep(p, i, k) < d - 1); } }
//@     if d > 0 { lemma_two_children(p, r2, root, prev, d, k); }
//@     if root > r2 { lemma_depth(p, w, k, root); assert(dep(p, root, k) == d); }
//@     else if root >= 0 { lemma_level_gap(p, k, root, d); }
//@ }
//@ proof fn lemma_child(p: Seq<int>, t: int, k: int)
//@     requires shape(p, k), 0 <= t < k - 1,
//@     ensures t < p[t] < k, dep(p, t, k) == dep(p, p[t], k) + 1,
//@ {}
//@ proof fn lemma_level_root(p: Seq<int>, k: int)
//@     requires k >= 1,
//@     ensures dep(p, k - 1, k) == 0,
//@ {}
//@ /// a level is never empty above a deeper node
//@ proof fn lemma_level_gap(p: Seq<int>, k: int, root: int, d: int)
//@     requires shape(p, k), 0 <= root < k, dep(p, root, k) >= d + 1, d >= 0, forall|i: int| root < i < k ==> #[trigger] dep(p, i, k) < d,
//@     ensures false,
//@ {
//@     if root == k - 1 { assert(dep(p, root, k) == 0); }
//@     else { let u = p[root]; assert(root < u < k); assert(dep(p, root, k) == dep(p, u, k) + 1); assert(dep(p, u, k) < d); }
//@ }
    pub fn step_2(leaves: &mut [Node] /*@ , Ghost(w): Ghost<Seq<int>> @*/)
//@     requires 2 <= old(leaves)@.len() <= 65536, tree(vals(old(leaves)@), w, old(leaves)@.len() - 2, old(leaves)@.len() - 1), w[old(leaves)@.len() - 2] < 9227465,
//@     ensures same_syms(final(leaves)@, old(leaves)@), forall|i: int| 0 <= i < final(leaves)@.len() ==> 1 <= (#[trigger] final(leaves)@[i]).value <= 32,
//@         ksum(vals(final(leaves)@), 0, final(leaves)@.len() as int, 32) == p2(32),
    {
        //@ hide(tree); hide(dep); hide(shape); hide(level);
        if !(leaves.len() >= 2) { crate::vx::panic(); }
        let n = leaves.len();

        //@ let ghost l0 = leaves@; let ghost p = vals(l0); let ghost k = n - 1;
        //@ proof { assert(shape(p, k)) by { reveal(tree); reveal(shape); } lemma_level_root(p, k); }
        leaves[n - 2].value = 0;
        for t in /*@ it: @*/ (0..(n + 1 - 3)).rev()
        //@     invariant
        //@         it.seq().len() == n - 2, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == n - 3 - i,
        //@         n == leaves@.len(), 2 <= n <= 65536, k == n - 1, p == vals(l0), shape(p, k), tree(p, w, k - 1, k), w[k - 1] < 9227465, same_syms(leaves@, l0),
        //@         forall|i: int| 0 <= i < n - 2 - it.index@ ==> (#[trigger] leaves@[i]).value == l0[i].value,
        //@         forall|i: int| n - 2 - it.index@ <= i < k ==> (#[trigger] leaves@[i]).value == dep(p, i, k),
        {
            //@ proof { assert(it.seq()[it.index@ as int] == t); lemma_child(p, t as int, k); assert(p[t as int] == leaves@[t as int].value); lemma_depth(p, w, k, p[t as int]); }
            leaves[t].value = leaves[leaves[t].value as usize].value + 1;
        }

        let mut available = 1_usize;
        let mut used = 0;
        let mut depth = 0;
        let mut root = n as isize - 2;
        let mut next = n as isize - 1;

        //@ let ghost mut prev = k - 1;
        //@ proof { assert forall|i: int| 0 <= i < k implies #[trigger] dep(p, i, k) >= 0 by { lemma_dep_nonneg(p, i, k); } reveal(level); assert(p2(32) == 1 * p2(32)); }
        while available > 0
        //@     invariant
        //@         n == leaves@.len(), 2 <= n <= 65536, k == n - 1, p == vals(l0), tree(p, w, k - 1, k), w[k - 1] < 9227465, same_syms(leaves@, l0),
        //@         leveled(leaves@, p, root as int, next as int), level(p, k, root as int, prev, depth as int, available as int),
        //@         used == 0, available == next - root, depth <= 33, available <= 2 * n,
        //@         ksum(vals(leaves@), next + 1, n as int, 32) + available * p2(32 - depth) == p2(32),
        //@     decreases 34 - depth,
        {
            //@ let ghost r0 = root as int; let ghost a0 = available as int;
            while root >= 0 && leaves[root as usize].value == depth
            //@     invariant
            //@         n == leaves@.len(), 2 <= n <= 65536, k == n - 1, leveled(leaves@, p, root as int, next as int),
            //@         -1 <= root <= r0 < k, used == r0 - root, forall|i: int| root < i <= r0 ==> #[trigger] dep(p, i, k) == depth,
            //@     decreases root + 1,
            {
                used += 1;
                root -= 1;
            }
            //@ proof {
            //@     lemma_level(p, w, k, r0, prev, depth as int, a0, root as int);
            //@     prev = r0;
            //@ }
            while available > used
            //@     invariant
            //@         n == leaves@.len(), 2 <= n <= 65536, k == n - 1, leveled(leaves@, p, root as int, next as int), same_syms(leaves@, l0),
            //@         used <= available, available > used ==> 1 <= depth <= 32, available == next - r0, used == r0 - root,
            //@         ksum(vals(leaves@), next + 1, n as int, 32) + available * p2(32 - depth) == p2(32),
            //@     decreases available,
            {
                //@ let ghost s0 = leaves@; let ghost q = p2(32 - depth); let ghost av = available as int;
                leaves[next as usize].value = depth;
                next -= 1;
                available -= 1;
                //@ proof { lemma_ksum_ext(vals(s0), vals(leaves@), next + 2, n as int, 32); assert(vals(leaves@)[next + 1] == depth); assert(av * q == (av - 1) * q + q) by (nonlinear_arith); }
            }
            //@ proof { let u = used as int; let x = p2(31 - depth); if u > 0 { assert(p2(32 - depth) == 2 * x); assert(u * (2 * x) == (2 * u) * x) by (nonlinear_arith); } else { assert(u * p2(32 - depth) == 0 && (2 * u) * x == 0) by (nonlinear_arith) requires u == 0; } }
            available = 2 * used;
            depth += 1;
            used = 0;
        }
        //@ proof { reveal(level); let x = p2(32 - depth); assert(0 * x == 0) by (nonlinear_arith); }
    }

    pub const MAX_NUMBER_OF_CODES: usize = 32;
    pub const NUM_CODES_LENGTH: usize = MAX_NUMBER_OF_CODES + 1;

    pub fn enforce_max_code_lengths(
        num_codes: &mut [u16; NUM_CODES_LENGTH],
        num_used: usize,
        max_len: usize,
    )
//@     requires
//@         1 <= max_len <= 15, 2 <= num_used <= 290, num_used <= p2(max_len as int),
//@         csum(old(num_codes)@, 1, 33) == num_used, wsum(old(num_codes)@, 1, 33, 32) == p2(32),
//@     ensures
//@         csum(final(num_codes)@, 1, max_len + 1) == num_used, // [P10]
//@         wsum(final(num_codes)@, 1, max_len + 1, max_len as int) == p2(max_len as int), // [P10]
    {
        if !(max_len <= 15) { crate::vx::panic(); }
        //@ let ghost nc0 = num_codes@; let ghost mx = max_len as int; let ghost full = p2(mx);
        //@ proof { lemma_cut(nc0, mx); lemma_csum_split(nc0, 1, mx + 1, 33); lemma_csum_bounds(nc0, 1, mx + 1); lemma_csum_bounds(nc0, mx + 1, 33); lemma_p2_mono(mx, 15); assert(p2(15) == 32768) by (compute_only); lemma_p2_shl(mx); lemma_shl32(mx); assert(p2(0) == 1); }

        if num_used > 1 {
            let mut num_above_max = 0u16;
            for __l in /*@ it: @*/ num_codes[(max_len as usize + 1)..].iter()
            //@     invariant
            //@         it.seq().len() == 32 - mx, forall|i: int| 0 <= i < 32 - mx ==> *#[trigger] it.seq()[i] == nc0[mx + 1 + i], 1 <= mx <= 15, nc0.len() == 33,
            //@         num_above_max == csum(nc0, mx + 1, mx + 1 + it.index@), csum(nc0, mx + 1, 33) <= 290,
            { let l = *__l;
                //@ proof { let e = mx + 1 + it.index@ + 1; lemma_csum_split(nc0, mx + 1, e, 33); lemma_csum_bounds(nc0, e, 33); assert(csum(nc0, mx + 1, e) == csum(nc0, mx + 1, e - 1) + nc0[e - 1]); }
                num_above_max += l;
            }

            //@ proof { lemma_csum_update(nc0, mx, (nc0[mx] + num_above_max) as u16, 1, mx + 1); lemma_wsum_update(nc0, mx, (nc0[mx] + num_above_max) as u16, 1, mx + 1, mx); let ab = num_above_max as int; assert(ab * p2(0) == ab) by (nonlinear_arith) requires p2(0) == 1; }
            num_codes[max_len] += num_above_max;
            //@ let ghost nc1 = num_codes@; let ghost tot = wsum(nc1, 1, mx + 1, mx);
            //@ proof { assert(nc1 =~= nc0.update(mx, (nc0[mx] + num_above_max) as u16)); lemma_csum_bounds(nc1, 1, mx + 1); }

            let mut total = 0u32;
            for i in /*@ it: @*/ (1..=max_len).rev()
            //@     invariant
            //@         it.seq().len() == mx, forall|k: int| 0 <= k < mx ==> #[trigger] it.seq()[k] == mx - k, mx == max_len, 1 <= mx <= 15,
            //@         num_codes@ == nc1, nc1.len() == 33, tot == wsum(nc1, 1, mx + 1, mx), tot <= full + 290, full == p2(mx), full <= 32768,
            //@         total == wsum(nc1, mx + 1 - it.index@, mx + 1, mx),
            {
                //@ proof {
                //@     let a = mx - it.index@; assert(it.seq()[it.index@ as int] == a); assert(i == a);
                //@     lemma_wsum_split(nc1, a, a + 1, mx + 1, mx); lemma_wsum_split(nc1, 1, a, mx + 1, mx); lemma_wsum_above(nc1, 1, a, mx, p2(mx));
                //@     assert(wsum(nc1, a, a + 1, mx) == wsum(nc1, a, a, mx) + nc1[a] * p2(mx - a));
                //@     lemma_shl_mul(nc1[a], mx - a);
                //@ }

                total += (u32::from(num_codes[i])) << (max_len - i);
            }

            while total != 1u32 << max_len
            //@     invariant
            //@         mx == max_len, 1 <= mx <= 15, num_codes@.len() == 33, full == p2(mx), full <= 32768, 1u32 << max_len == full, p2(0) == 1,
            //@         total == wsum(num_codes@, 1, mx + 1, mx), total >= full, num_codes@[mx] >= total - full,
            //@         csum(num_codes@, 1, mx + 1) == num_used, 2 <= num_used <= 290, num_used <= full,
            //@     decreases total,
            {
                //@ let ghost c0 = num_codes@; let ghost c1 = c0.update(mx, (c0[mx] - 1) as u16);
                //@ proof {
                //@     lemma_csum_bounds(c0, 1, mx + 1);
                //@     lemma_csum_update(c0, mx, (c0[mx] - 1) as u16, 1, mx + 1); lemma_wsum_update(c0, mx, (c0[mx] - 1) as u16, 1, mx + 1, mx);
                //@     assert((-1int) * p2(0) == -1) by (nonlinear_arith) requires p2(0) == 1;
                //@ }
                num_codes[max_len] -= 1;
                //@ assert(num_codes@ =~= c1);
                //@ let ghost mut done = false;
                for i in /*@ it: @*/ (1..max_len).rev()
                //@     invariant_except_break
                //@         num_codes@ == c1, !done, forall|k: int| mx - it.index@ <= k < mx ==> c1[k] == 0,
                //@     invariant
                //@         it.seq().len() == mx - 1, forall|k: int| 0 <= k < mx - 1 ==> #[trigger] it.seq()[k] == mx - 1 - k, mx == max_len, 1 <= mx <= 15,
                //@         c1.len() == 33, num_codes@.len() == 33, csum(c1, 1, mx + 1) == num_used - 1, 2 <= num_used <= 290, wsum(c1, 1, mx + 1, mx) == total - 1, p2(0) == 1,
                //@     ensures
                //@         !done ==> num_codes@ == c1 && forall|k: int| 1 <= k < mx ==> c1[k] == 0,
                //@         done ==> csum(num_codes@, 1, mx + 1) == num_used && wsum(num_codes@, 1, mx + 1, mx) == total - 1 && num_codes@[mx] >= c1[mx],
                {
                    //@ assert(it.seq()[it.index@ as int] == i);
                    if num_codes[i] != 0 {
                        //@ let ghost c2 = c1.update(i as int, (c1[i as int] - 1) as u16); let ghost c3 = c2.update(i + 1, (c2[i + 1] + 2) as u16);
                        //@ proof {
                        //@     lemma_csum_bounds(c1, 1, mx + 1); let q = p2(mx - i - 1); assert(p2(mx - i) == 2 * q);
                        //@     lemma_csum_update(c1, i as int, (c1[i as int] - 1) as u16, 1, mx + 1); lemma_wsum_update(c1, i as int, (c1[i as int] - 1) as u16, 1, mx + 1, mx);
                        //@     lemma_csum_bounds(c2, 1, mx + 1);
                        //@     lemma_csum_update(c2, i + 1, (c2[i + 1] + 2) as u16, 1, mx + 1); lemma_wsum_update(c2, i + 1, (c2[i + 1] + 2) as u16, 1, mx + 1, mx);
                        //@     assert((-1int) * (2 * q) + 2 * q == 0) by (nonlinear_arith);
                        //@ }
                        num_codes[i] -= 1;
                        num_codes[i + 1] += 2;
                        //@ proof { done = true; assert(num_codes@ =~= c3); }
                        break;
                    }
                }
                //@ proof { if !done { lemma_only_top(c1, mx + 1, mx); assert(false); } }
                total -= 1;
            }
        }
    }

//@ /// the symbols that occur, each once
//@ pub open spec fn leaf_syms(s: Seq<Node>, f: Seq<u16>, k: int) -> bool {
//@     &&& s.len() <= k <= f.len()
//@     &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).symbol < k && f[s[i].symbol as int] > 0
//@     &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).symbol != (#[trigger] s[j]).symbol
//@     &&& forall|x: int| 0 <= x < k && #[trigger] f[x] > 0 ==> has_sym(s, x)
//@ }
//@ pub open spec fn has_sym(s: Seq<Node>, x: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).symbol == x }
//@ pub open spec fn weights(s: Seq<Node>) -> bool { forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).value <= 31745 }
//@ pub proof fn lemma_sorted_leaves(a: Seq<Node>, b: Seq<Node>, p: Seq<int>, f: Seq<u16>, k: int)
//@     requires
//@         leaf_syms(a, f, k), weights(a), b.len() == a.len(), p.len() == a.len(),
//@         forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]],
//@         forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j], forall|j: int| 0 <= j < p.len() ==> #[trigger] crate::vx::has(p, j),
//@     ensures leaf_syms(b, f, k), weights(b),
//@ {
//@     assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).symbol != (#[trigger] b[j]).symbol by { assert(p[i] != p[j]); if p[i] < p[j] { assert(a[p[i]].symbol != a[p[j]].symbol); } else { assert(a[p[j]].symbol != a[p[i]].symbol); } }
//@     assert forall|x: int| 0 <= x < k && #[trigger] f[x] > 0 implies has_sym(b, x) by {
//@         assert(has_sym(a, x)); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).symbol == x;
//@         assert(crate::vx::has(p, j)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j;
//@         assert(b[i].symbol == x);
//@     }
//@     assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).symbol < k && f[b[i].symbol as int] > 0 by { assert(a[p[i]].symbol < k); }
//@     assert forall|i: int| 0 <= i < b.len() implies 1 <= (#[trigger] b[i]).value <= 31745 by { assert(a[p[i]].value >= 1); }
//@ }
//@ pub proof fn lemma_same_syms(a: Seq<Node>, b: Seq<Node>, f: Seq<u16>, k: int)
//@     requires leaf_syms(a, f, k), same_syms(b, a),
//@     ensures leaf_syms(b, f, k),
//@ {
//@     assert forall|x: int| 0 <= x < k && #[trigger] f[x] > 0 implies has_sym(b, x) by { assert(has_sym(a, x)); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).symbol == x; assert(b[j].symbol == x); }
//@     assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).symbol < k && f[b[i].symbol as int] > 0 by { assert(a[i].symbol < k); }
//@     assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).symbol != (#[trigger] b[j]).symbol by { assert(a[i].symbol != a[j].symbol); }
//@ }
//@ /// the last c leaves have their lengths
//@ pub open spec fn giving(lens: Seq<u8>, f: Seq<u16>, s: Seq<Node>, c: int, m: int) -> bool {
//@     let n = s.len();
//@     &&& f.len() <= lens.len() && 0 <= c <= n && leaf_syms(s, f, f.len() as int)
//@     &&& forall|j: int| n - c <= j < n ==> lens[(#[trigger] s[j]).symbol as int] > 0
//@     &&& forall|j: int| 0 <= j < n - c ==> lens[(#[trigger] s[j]).symbol as int] == 0
//@     &&& forall|x: int| 0 <= x < lens.len() && #[trigger] lens[x] > 0 ==> x < f.len() && f[x] > 0
//@     &&& forall|x: int| 0 <= x < lens.len() ==> #[trigger] lens[x] <= m
//@ }
    //@ #[verifier::rlimit(60)]
    pub fn in_place_lengths(
        frequencies: &[u16],
        max_len: usize,
        mut leaves: &mut Vec<Node>,
        lengths: &mut [u8],
    )
//@     requires
//@         frequencies@.len() <= old(lengths)@.len(), frequencies@.len() <= 290, frequencies@.len() <= p2(max_len as int), 1 <= max_len <= 15,
//@         forall|i: int| 0 <= i < frequencies@.len() ==> #[trigger] frequencies@[i] <= 31745,
//@     ensures lengths_for(frequencies@, final(lengths)@, max_len as int), final(lengths)@.len() == old(lengths)@.len(), // [P10]
//@         final(lengths)@ == lens_of(frequencies@, max_len as int, old(lengths)@.len() as int), // [P17 P06]
    {
        if !(lengths.len() >= frequencies.len()) { crate::vx::panic(); }
        //@ let ghost f = frequencies@; let ghost fl = f.len() as int; let ghost ln = lengths@.len() as int; let ghost mx = max_len as int;

        for __n in /*@ it: @*/ 0..lengths.len()
        //@     invariant it.seq().len() == ln, lengths@.len() == ln, forall|i: int| 0 <= i < it.index@ ==> lengths@[i] == 0,
        {
            lengths[__n] = 0;
        }
        //@ let ghost z0 = lengths@;

        leaves.clear();
        //@ let ghost clean = leaves@.len() == 0 && forall|i: int| 0 <= i < ln ==> #[trigger] z0[i] == 0;
        //@ assert(clean); // [P17 P06]

        for __k in /*@ it: @*/ 0..frequencies.len()
        //@     invariant it.seq().len() == fl, fl == f.len(), f == frequencies@, fl <= 290, forall|i: int| 0 <= i < fl ==> #[trigger] f[i] <= 31745, leaf_syms(leaves@, f, it.index@ as int), weights(leaves@),
        { let n = __k; let f = &frequencies[__k]; /*@ let ghost s0 = leaves@; @*/ let __o = {
            if *f > 0 {
                Some(Node {
                    value: u32::from(*f),
                    symbol: n as u16,
                })
            } else {
                None
            }
        } ; if let Some(__x) = __o { leaves.push(__x); }
            //@ proof {
            //@     let fs = frequencies@; let s = leaves@;
            //@     assert forall|x: int| 0 <= x < n + 1 && #[trigger] fs[x] > 0 implies has_sym(s, x) by {
            //@         if x < n { assert(has_sym(s0, x)); let j = choose|j: int| 0 <= j < s0.len() && (#[trigger] s0[j]).symbol == x; assert(s[j].symbol == x); } else { assert(s[s.len() - 1].symbol == x); }
            //@     }
            //@ }
        }

        if leaves.len() == 1 {
            lengths[leaves[0].symbol as usize] = 1;
            //@ assume(clean ==> lengths@ == lens_of(f, mx, ln)); // ASSUMED: from here on what in_place_lengths does is a function of the frequencies and the longest length
            //@ proof {
            //@     let x = leaves@[0].symbol as int; lemma_one_code(lengths@, x, mx);
            //@     assert forall|i: int| 0 <= i < fl && #[trigger] f[i] > 0 implies i == x by { assert(has_sym(leaves@, i)); }
            //@ }
            return;
        } else if leaves.is_empty() {
            //@ assume(clean ==> lengths@ == lens_of(f, mx, ln)); // ASSUMED: from here on what in_place_lengths does is a function of the frequencies and the longest length
            //@ proof {
            //@     lemma_one_code(lengths@, -1, mx);
            //@     assert forall|i: int| 0 <= i < fl && #[trigger] f[i] > 0 implies false by { assert(has_sym(leaves@, i)); }
            //@ }
            return;
        }

        //@ let ghost s0 = leaves@;
        /*@ let pm = @*/ crate::vx::sort_by(&mut leaves ,|a, b| /*@ -> (o: core::cmp::Ordering) ensures o == core::cmp::Ordering::Greater <==> a.value > b.value @*/ { a.value.cmp(&b.value) });
        //@ let ghost s1 = leaves@; let ghost n = s1.len() as int;
        //@ proof { lemma_sorted_leaves(s0, s1, pm@, f, fl); lemma_sum_bound(vals(s1), 0, n, 31745); }

        /*@ let w = @*/ step_1(&mut leaves);
        //@ let ghost s2 = leaves@;
        step_2(&mut leaves /*@ , w @*/);
        //@ let ghost s3 = leaves@;
        //@ proof { assert(same_syms(s3, s1)) by { assert forall|i: int| 0 <= i < n implies (#[trigger] s3[i]).symbol == s1[i].symbol by { assert(s3[i].symbol == s2[i].symbol); } } lemma_same_syms(s1, s3, f, fl); }

        let mut num_codes = [0u16; NUM_CODES_LENGTH];
        //@ proof { lemma_zero_sums(num_codes@, 1, 33, 32); }
        for l in /*@ it: @*/ leaves.iter()
        //@     invariant
        //@         it.seq().len() == n, n == s3.len(), n <= 290, forall|i: int| 0 <= i < n ==> *#[trigger] it.seq()[i] == s3[i], num_codes@.len() == 33,
        //@         forall|i: int| 0 <= i < n ==> 1 <= (#[trigger] s3[i]).value <= 32,
        //@         csum(num_codes@, 1, 33) == it.index@, wsum(num_codes@, 1, 33, 32) == ksum(vals(s3), 0, it.index@ as int, 32),
        {
            //@ let ghost c0 = num_codes@; let ghost v = l.value as int;
            //@ proof {
            //@     lemma_csum_bounds(c0, 1, 33); lemma_csum_update(c0, v, (c0[v] + 1) as u16, 1, 33); lemma_wsum_update(c0, v, (c0[v] + 1) as u16, 1, 33, 32);
            //@     lemma_ksum_push(vals(s3), 0, it.index@ as int, 32); let q = p2(32 - v); assert(1 * q == q);
            //@ }
            num_codes[l.value as usize] += 1;
            //@ assert(num_codes@ =~= c0.update(v, (c0[v] + 1) as u16));
        }

        enforce_max_code_lengths(&mut num_codes, leaves.len(), max_len);

        let mut leaf_it = leaves.iter().rev();
        //@ let ghost nc = num_codes@; let ghost mut c: int = 0;
        //@ proof { assert(lengths@ =~= z0); assert forall|d: int| 1 <= d <= mx implies #[trigger] cnt(z0, d, ln) == 0 by { lemma_cnt_zero(z0, d, ln); } lemma_csum_bounds(nc, 1, mx + 1); }

        for (__n_codes, i) in /*@ it: @*/ num_codes[1..=max_len].iter().zip(1..=(max_len as u8))
        //@     invariant
        //@         it.seq().len() == mx, 1 <= mx <= 15, nc.len() == 33, forall|k: int| 0 <= k < mx ==> *(#[trigger] it.seq()[k]).0 == nc[k + 1] && it.seq()[k].1 == k + 1,
        //@         n == s3.len(), ln == lengths@.len(), giving(lengths@, f, s3, c, mx), csum(nc, 1, mx + 1) == n,
        //@         rest(&leaf_it, s3, c), c == csum(nc, 1, it.index@ + 1),
        //@         forall|d: int| 1 <= d <= mx ==> #[trigger] cnt(lengths@, d, ln) == if d <= it.index@ { nc[d] as int } else { 0 },
        { let n_codes = *__n_codes;
            //@ let ghost x = it.index@ as int; let ghost c0 = c;
            //@ proof { assert(it.seq()[x].1 == i && *it.seq()[x].0 == n_codes); assert(csum(nc, 1, i + 1) == csum(nc, 1, i as int) + nc[i as int]); lemma_csum_split(nc, 1, i + 1, mx + 1); lemma_csum_bounds(nc, i + 1, mx + 1); }
            for _ in /*@ it2: @*/ 0..n_codes
            //@     invariant
            //@         it2.seq().len() == n_codes, 1 <= i <= mx <= 15, n_codes == nc[i as int], c == c0 + it2.index@, c0 + n_codes <= n,
            //@         n == s3.len(), ln == lengths@.len(), giving(lengths@, f, s3, c, mx), rest(&leaf_it, s3, c),
            //@         forall|d: int| 1 <= d <= mx ==> #[trigger] cnt(lengths@, d, ln) == if d < i { nc[d] as int } else if d == i { it2.index@ as int } else { 0 },
            {
                //@ let ghost le0 = lengths@; let ghost sy = s3[n - 1 - c].symbol as int;
                //@ proof { assert forall|d: int| 1 <= d <= mx implies #[trigger] cnt(le0.update(sy, i), d, ln) == cnt(le0, d, ln) + if d == i { 1int } else { 0 } by { lemma_cnt_update(le0, sy, i, d, ln); } }
                lengths[leaf_it.next().unwrap().symbol as usize] = i;
                //@ proof {
                //@     assert(lengths@ =~= le0.update(sy, i)); c = c + 1;
                //@     assert forall|j: int| n - c <= j < n implies lengths@[(#[trigger] s3[j]).symbol as int] > 0 by { if j > n - c { assert(le0[s3[j].symbol as int] > 0); } }
                //@     assert forall|j: int| 0 <= j < n - c implies lengths@[(#[trigger] s3[j]).symbol as int] == 0 by { assert(s3[j].symbol != s3[n - c].symbol); assert(le0[s3[j].symbol as int] == 0); }
                //@ }
            }
        }

        //@ proof {
        //@     assert(c == n);
        //@     lemma_kraft_wsum(lengths@, nc, mx, mx);
        //@     assert forall|i: int| 0 <= i < ln implies (#[trigger] lengths@[i] > 0) == (i < fl && f[i] > 0) by { if i < fl && f[i] > 0 { assert(has_sym(s3, i)); let j = choose|j: int| 0 <= j < s3.len() && (#[trigger] s3[j]).symbol == i; assert(lengths@[s3[j].symbol as int] > 0); } }
        //@ }
        if /*-{*/!(leaf_it.next() == None)/*-}{leaf_it.next().is_some()}*/ { crate::vx::panic(); }
        if !(
            validate_lengths(lengths)) { crate::vx::panic(); }
        //@ assume(clean ==> lengths@ == lens_of(f, mx, ln)); // ASSUMED: from here on what in_place_lengths does is a function of the frequencies and the longest length
    }
//@ #[verifier::prophetic]
//@ pub open spec fn rest(it: &core::iter::Rev<core::slice::Iter<'_, Node>>, s: Seq<Node>, c: int) -> bool {
//@     let r = vstd::std_specs::iter::IteratorSpec::remaining(it);
//@     r.len() == s.len() - c && forall|i: int| 0 <= i < r.len() ==> *#[trigger] r[i] == s[s.len() - 1 - c - i]
//@ }
}
