use crate::bitstream::LsbWriter;
use crate::deflate_state::LengthBuffers;
use crate::huffman_table::{
    create_codes_in_place, num_extra_bits_for_distance_code, num_extra_bits_for_length_code,
    HuffmanTable, FIXED_CODE_LENGTHS, FIXED_CODE_LENGTHS_DISTANCE, LENGTH_BITS_START,
    MAX_CODE_LENGTH, NUM_DISTANCE_CODES, NUM_LITERALS_AND_LENGTHS,
};
use crate::length_encode::{
    encode_lengths_m, huffman_lengths_from_frequency_m, EncodedLength, COPY_PREVIOUS,
    REPEAT_ZERO_3_BITS, REPEAT_ZERO_7_BITS,
};
use crate::output_writer::FrequencyType;
use crate::stored_block::MAX_STORED_BLOCK_LENGTH;

//@ use crate::rfc::*; use crate::stream::*; use crate::cost::*; use crate::huff::*; use crate::lem::*; use crate::split::{Form, form_of, lens_of, enc_of}; use crate::length_encode::{cl_sym, cl_syms}; use vstd::std_specs::convert::FromSpec; use vstd::std_specs::cmp::PartialEqSpec;
use std::cmp;

pub const MIN_NUM_LITERALS_AND_LENGTHS: usize = 257;

pub const MIN_NUM_DISTANCES: usize = 1;

pub const NUM_HUFFMAN_LENGTHS: usize = 19;

pub const HUFFMAN_LENGTH_ORDER: [u8; NUM_HUFFMAN_LENGTHS] = [
    16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15,
];

pub const HLIT_BITS: u8 = 5;
pub const HDIST_BITS: u8 = 5;
pub const HCLEN_BITS: u8 = 4;

pub const MAX_HUFFMAN_CODE_LENGTH: usize = 7;

pub const STORED_BLOCK_HEADER_LENGTH: u64 = 4;
pub const BLOCK_MARKER_LENGTH: u8 = 3;

//@ pub open spec fn is0<T: From<u8> + PartialEq>(x: T) -> bool { x.eq_spec(&<T as FromSpec<u8>>::from_spec(0)) }
pub fn remove_trailing_zeroes<T: From<u8> + PartialEq>(input: &[T], min_length: usize) -> /*@ (r: @*/ &[T] /*@ )
    requires min_length <= input@.len(), <T as PartialEqSpec>::obeys_eq_spec(), <T as FromSpec<u8>>::obeys_from_spec(),
    ensures
        min_length <= r@.len() <= input@.len(), r@ == input@.subrange(0, r@.len() as int),
        forall|i: int| r@.len() <= i < input@.len() ==> is0(#[trigger] input@[i]),
        r@.len() > min_length ==> !is0(input@[r@.len() - 1]), @*/
{
    //@ assert(vstd::slice::spec_slice_len(input) == input@.len());
    let num_zeroes = ({ let mut __c = 0usize; for __a in /*@ it: @*/ input.iter().rev()
    //@     invariant_except_break it.index@ == __c,
    //@     invariant
    //@         it.seq().len() == input@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == input@[input@.len() - 1 - i],
    //@         <T as PartialEqSpec>::obeys_eq_spec(), <T as FromSpec<u8>>::obeys_from_spec(),
    //@         __c <= input@.len() <= usize::MAX, forall|i: int| input@.len() - __c <= i < input@.len() ==> is0(#[trigger] input@[i]),
    //@     ensures __c < input@.len() ==> !is0(input@[input@.len() - 1 - __c]),
    { let a = __a; if !(*a == T::from(0)) { break; } __c += 1; } __c });
    &input[0..({ let __a =input.len() - num_zeroes ; let __b = min_length ; if __b >= __a { __b } else { __a } })]
}

pub fn extra_bits_for_huffman_length_code(code: u8) -> /*@ (r: @*/ u8 /*@ )
    ensures r == cl_x1(code as int), r <= 7, @*/
{
    match code {
        16 => 2,
        17 => 3,
        18 => 7,
        _ => 0,
    }
}

pub fn calculate_huffman_length(frequencies: &[FrequencyType], code_lengths: &[u8]) -> /*@ (r: @*/ u64 /*@ )
    requires frequencies@.len() == 19, code_lengths@.len() == 19,
    ensures r == wc(ints(frequencies@), costs(code_lengths@, cl_x()), 19), r <= 400_000_000, // [P11]
@*/
{
    ({ let mut acc = 0; for (n, (__f, __l)) in /*@ it: @*/ (0..frequencies.len()).zip(frequencies.iter().zip(code_lengths))
    //@     invariant
    //@         it.seq().len() == 19, frequencies@.len() == 19, code_lengths@.len() == 19,
    //@         forall|i: int| 0 <= i < 19 ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1.0 == frequencies@[i] && *it.seq()[i].1.1 == code_lengths@[i],
    //@         acc == wc(ints(frequencies@), costs(code_lengths@, cl_x()), it.index@ as int), acc <= it.index@ * 20_000_000,
    { let f = *__f; let l = *__l;
        //@ proof { let x = f as int; let y = l + cl_x1(n as int); assert(x * y <= 65535 * 262 && x * y >= 0) by (nonlinear_arith) requires 0 <= x <= 65535, 0 <= y <= 262; }
        acc = acc + (u64::from(f)
                * (u64::from(l) + u64::from(extra_bits_for_huffman_length_code(n as u8)))); } acc })
}

pub fn calculate_block_length<F>(
    frequencies: &[FrequencyType],
    dyn_code_lengths: &[u8],
    static_code_lengths: &[u8],
    get_num_extra_bits: &F,
    /*@ Ghost(x): Ghost<Seq<int>> @*/
) -> /*@ (r: @*/ (u64, u64) /*@ ) @*/
where
    F: Fn(usize) -> u64,
//@     requires
//@         frequencies@.len() <= 286, frequencies@.len() <= x.len(), x.len() <= dyn_code_lengths@.len(), x.len() <= static_code_lengths@.len(),
//@         forall|c: usize| c < frequencies@.len() ==> #[trigger] get_num_extra_bits.requires((c,)),
//@         forall|c: usize, r: u64| c < frequencies@.len() && #[trigger] get_num_extra_bits.ensures((c,), r) ==> r == x[c as int] && r <= 20,
//@     ensures
//@         r.0 == wc(ints(frequencies@), costs(dyn_code_lengths@, x), frequencies@.len() as int), // [P11]
//@         r.1 == wc(ints(frequencies@), costs(static_code_lengths@, x), frequencies@.len() as int), // [P11]
//@         r.0 <= 6_000_000_000, r.1 <= 6_000_000_000,
{
    
    let mut d_ll_length = 0u64;
    
    let mut s_ll_length = 0u64;

    let iter = (0..frequencies.len()).zip(frequencies.iter().zip(dyn_code_lengths.iter().zip(static_code_lengths.iter())));

    //@ let ghost fs = ints(frequencies@); let ghost cd = costs(dyn_code_lengths@, x); let ghost cs = costs(static_code_lengths@, x); let ghost fl_ = frequencies@.len() as int;
    for (c, (__f, (__l, __fl))) in /*@ it: @*/ iter
    //@     invariant
    //@         it.seq().len() == fl_, fl_ == frequencies@.len(), fl_ <= 286, fl_ <= x.len(), x.len() <= dyn_code_lengths@.len(), x.len() <= static_code_lengths@.len(),
    //@         fs == ints(frequencies@), cd == costs(dyn_code_lengths@, x), cs == costs(static_code_lengths@, x),
    //@         forall|i: int| 0 <= i < fl_ ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1.0 == frequencies@[i] && *it.seq()[i].1.1.0 == dyn_code_lengths@[i] && *it.seq()[i].1.1.1 == static_code_lengths@[i],
    //@         forall|c: usize| c < fl_ ==> #[trigger] get_num_extra_bits.requires((c,)),
    //@         forall|c: usize, r: u64| c < fl_ && #[trigger] get_num_extra_bits.ensures((c,), r) ==> r == x[c as int] && r <= 20,
    //@         d_ll_length == wc(fs, cd, it.index@ as int), s_ll_length == wc(fs, cs, it.index@ as int),
    //@         d_ll_length <= it.index@ * 20_000_000, s_ll_length <= it.index@ * 20_000_000,
    { let f = *__f; let l = *__l; let fl = *__fl;
        
        let f = u64::from(f);
        
        let extra_bits_for_code = get_num_extra_bits(c);

        //@ proof {
        //@     let a = f as int; let y = l + extra_bits_for_code; let z = fl + extra_bits_for_code;
        //@     assert(0 <= a * y <= 65535 * 275 && 0 <= a * z <= 65535 * 275) by (nonlinear_arith) requires 0 <= a <= 65535, 0 <= y <= 275, 0 <= z <= 275;
        //@     assert(fs[c as int] == a && cd[c as int] == y && cs[c as int] == z);
        //@ }
        d_ll_length += f * (u64::from(l) + extra_bits_for_code);
        s_ll_length += f * (u64::from(fl) + extra_bits_for_code);
    }

    (d_ll_length, s_ll_length)
}

pub fn stored_padding(pending_bits: u8) -> /*@ (r: @*/ u64 /*@ )
    requires pending_bits < 8,
    ensures r == (8 - (pending_bits + 3) % 8) % 8, // [P11]
@*/
{
    if !(pending_bits <= 8) { crate::vx::panic(); }
    let free_space = 8 - pending_bits;
    if free_space >= BLOCK_MARKER_LENGTH {
        
        free_space - BLOCK_MARKER_LENGTH
    } else {
        
        8 - (BLOCK_MARKER_LENGTH - free_space)
    }
    .into()
}

pub fn stored_length(input_bytes: u64) -> /*@ (r: @*/ u64 /*@ )
    requires 1 <= input_bytes <= 258 * 31744,
    ensures r == 8 * (input_bytes + 4 * ((input_bytes - 1) / 32767 + 1) + (input_bytes - 1) / 32767), // [P11]
@*/
{

    let num_blocks = (input_bytes
        .checked_sub(1)
        .expect("Underflow calculating stored block length!")
        / MAX_STORED_BLOCK_LENGTH as u64)
        + 1;

    //@ assert(MAX_STORED_BLOCK_LENGTH == 32767); assert(num_blocks == (input_bytes - 1) / 32767 + 1);
    (input_bytes + (STORED_BLOCK_HEADER_LENGTH as u64 * num_blocks) + (num_blocks - 1)) * 8
}

pub enum BlockType {
    Stored,
    Fixed,
    Dynamic(DynamicBlockHeader),
}

pub struct DynamicBlockHeader {
    
    pub huffman_table_lengths: Vec<u8>,

    pub used_hclens: usize,
}

//@ /// the length without trailing zeroes, at least min
//@ pub open spec fn trim(s: Seq<u8>, n: int, min: int) -> int decreases n {
//@     if n <= min || n <= 0 { min } else if s[n - 1] != 0 { n } else { trim(s, n - 1, min) }
//@ }
//@ pub open spec fn header_of(h: DynamicBlockHeader, e: Seq<EncodedLength>, ll: Seq<u8>, dd: Seq<u8>) -> Header {
//@     Header { hlit: trim(ll, 288, 257), hdist: trim(dd, 32, 1), hclen: h.used_hclens as int, cl: h.huffman_table_lengths@, syms: cl_syms(e) }
//@ }
//@ pub open spec fn form(r: BlockType, e: Seq<EncodedLength>, ll: Seq<u8>, dd: Seq<u8>) -> Form {
//@     match r { BlockType::Fixed => Form::Fixed, BlockType::Stored => Form::Stored, BlockType::Dynamic(h) => Form::Dynamic(header_of(h, e, ll, dd), ll, dd) }
//@ }
//@ pub open spec fn dynamic_ok(h: Header, ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>) -> bool {
//@     header_ok(h, ll, dd) && kraft_ok(ll, 15) && kraft_ok(dd, 15) && all_coded(ts, ll, dd)
//@ }
//@ /// the lengths after the frequencies' last are zero, as after the lengths' last
//@ pub proof fn lemma_trim(s: Seq<u8>, n: int, min: int, k: int)
//@     requires 0 <= min <= k <= n <= s.len(), forall|i: int| k <= i < n ==> s[i] == 0, k > min ==> s[k - 1] != 0,
//@     ensures trim(s, n, min) == k,
//@     decreases n
//@ { if n > k { lemma_trim(s, n - 1, min, k); } }
//@ proof fn lemma_is0()
//@     ensures forall|x: u16| #[trigger] is0(x) == (x == 0), forall|x: u8| #[trigger] is0(x) == (x == 0), <u8 as FromSpec<u8>>::obeys_from_spec(), <u16 as FromSpec<u8>>::obeys_from_spec(),
//@ { crate::vx::axiom_from_u8(); }
//@ /// the lengths and their description
//@ pub proof fn lemma_header(ts: Seq<Token>, lf: Seq<u16>, df: Seq<u16>, ll: Seq<u8>, dd: Seq<u8>, e: Seq<EncodedLength>, cf: Seq<u16>, h: DynamicBlockHeader)
//@     requires
//@         forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]), ll.len() == 288, dd.len() == 32,
//@         257 <= lf.len() <= 286, 1 <= df.len() <= 30, lf.len() > 257 ==> lf[lf.len() - 1] > 0, df.len() > 1 ==> df[df.len() - 1] > 0,
//@         forall|s: int| 0 <= s < 286 ==> (if s < lf.len() { lf[s] as int } else { 0 }) == #[trigger] freq_ll(ts, s),
//@         forall|s: int| 0 <= s < 30 ==> (if s < df.len() { df[s] as int } else { 0 }) == #[trigger] freq_dd(ts, s),
//@         lengths_for(lf, ll, 15), lengths_for(df, dd, 15),
//@         crate::length_encode::cl_out(e, cf, ll.subrange(0, lf.len() as int) + dd.subrange(0, df.len() as int), (lf.len() + df.len()) as int),
//@         lengths_for(cf, h.huffman_table_lengths@, 7), h.huffman_table_lengths@.len() == 19,
//@         4 <= h.used_hclens <= 19, forall|i: int| h.used_hclens <= i < 19 ==> h.huffman_table_lengths@[#[trigger] cl_order()[i] as int] == 0,
//@     ensures dynamic_ok(header_of(h, e, ll, dd), ts, ll, dd),
//@ {
//@     let fl = lf.len() as int; let fd = df.len() as int; let hd = header_of(h, e, ll, dd); let ss = cl_syms(e);
//@     if fl > 257 { assert(ll[fl - 1] > 0); }
//@     if fd > 1 { assert(dd[fd - 1] > 0); }
//@     lemma_trim(ll, 288, 257, fl); lemma_trim(dd, 32, 1, fd);
//@     assert((ll.subrange(0, fl) + dd.subrange(0, fd)).subrange(0, fl + fd) =~= ll.subrange(0, fl) + dd.subrange(0, fd));
//@     assert forall|i: int| 0 <= i < ss.len() implies hd.cl[cl_num(#[trigger] ss[i])] > 0 by {
//@         crate::length_encode::lemma_cl_freq_pos(ss, i); lemma_cl_all(ss, i); assert(cf[cl_num(ss[i])] > 0);
//@     }
//@     crate::output_writer::lemma_freq_eob(ts); assert(lf[256] > 0);
//@     assert forall|i: int| 0 <= i < ts.len() implies token_range(#[trigger] ts[i]) && token_coded(ts[i], ll, dd) by {
//@         lemma_syms(ts[i]); crate::output_writer::lemma_freq_pos(ts, i);
//@         assert(freq_ll(ts, ll_sym(ts[i])) > 0); assert(ll[ll_sym(ts[i])] > 0);
//@         if ts[i] is Match { assert(freq_dd(ts, dd_sym(ts[i])) > 0); assert(dd[dd_sym(ts[i])] > 0); }
//@     }
//@ }
//@ /// zero frequencies at the end cost nothing
//@ proof fn lemma_cost_cut(ts: Seq<Token>, lf: Seq<u16>, df: Seq<u16>, ll: Seq<u8>, dd: Seq<u8>)
//@     requires
//@         lf.len() <= 286, df.len() <= 30, ll.len() == 288, dd.len() == 32,
//@         forall|s: int| 0 <= s < 286 ==> (if s < lf.len() { lf[s] as int } else { 0 }) == #[trigger] freq_ll(ts, s),
//@         forall|s: int| 0 <= s < 30 ==> (if s < df.len() { df[s] as int } else { 0 }) == #[trigger] freq_dd(ts, s),
//@     ensures wc(ints(lf), costs(ll, ll_x()), lf.len() as int) + wc(ints(df), costs(dd, dd_x()), df.len() as int) == body_cost(ts, ll, dd),
//@ {
//@     let a = hist_ll(ts); let b = hist_dd(ts); let c = costs(ll, ll_x()); let d = costs(dd, dd_x());
//@     lemma_wc_zeros(a, c, lf.len() as int, 286); lemma_wc_zeros(b, d, df.len() as int, 30);
//@     lemma_wc_ext(a, ints(lf), c, c, lf.len() as int); lemma_wc_ext(b, ints(df), d, d, df.len() as int);
//@ }
//@ proof fn lemma_cl_all(ss: Seq<ClSym>, i: int)
//@     requires cl_ok(ss), 0 <= i < ss.len(),
//@     ensures 0 <= cl_num(ss[i]) <= 18,
//@     decreases ss.len()
//@ { if i < ss.len() - 1 { lemma_cl_all(ss.drop_last(), i); } }
//@ proof fn lemma_cl_sym(ss: Seq<ClSym>, i: int)
//@     requires cl_ok(ss), 0 <= i < ss.len(),
//@     ensures cl_sym_ok(ss[i]),
//@     decreases ss.len()
//@ { if i < ss.len() - 1 { lemma_cl_sym(ss.drop_last(), i); } }
//@ /// the end of block symbol has a code, so at least one length is sent that the first four places cannot hold
//@ proof fn lemma_sent(ss: Seq<ClSym>, cf: Seq<u16>, cl: Seq<u8>, all: Seq<u8>, i: int) -> (p: int)
//@     requires cl_ok(ss), cl_expand(ss) == all, 0 <= i < all.len(), all[i] > 0, lengths_for(cf, cl, 7), cl.len() == 19, cf.len() == 19,
//@         forall|k: int| 0 <= k < 19 ==> #[trigger] cf[k] == cl_freq(ss, k),
//@     ensures 4 <= p < 19, cl[cl_order()[p] as int] > 0,
//@ {
//@     let j = lemma_has_len(ss, i); let l = cl_num(ss[j]);
//@     crate::length_encode::lemma_cl_freq_pos(ss, j); assert(cf[l] > 0); lemma_cl_pos(l); cl_pos(l)
//@ }
//@ /// what the block would take in each form, in bits after its first three
//@ pub open spec fn fixed_bits(ts: Seq<Token>) -> int { body_cost(ts, fixed_ll(), fixed_dd()) }
//@ /// the generated codes are a valid description of the block, and take `n` bits or more
//@ pub open spec fn generated(hd: Header, ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>, n: int) -> bool { dynamic_ok(hd, ts, ll, dd) && dynamic_cost(hd, ts, ll, dd) >= n }
//@ pub open spec fn best(r: BlockType, ts: Seq<Token>, n: int, pending: int, e: Seq<EncodedLength>, ll: Seq<u8>, dd: Seq<u8>) -> bool {
//@     match r {
//@         BlockType::Fixed => fixed_bits(ts) <= stored_cost(n, pending) && exists|hd: Header| #[trigger] generated(hd, ts, ll, dd, fixed_bits(ts)),
//@         BlockType::Stored => stored_cost(n, pending) <= fixed_bits(ts) && exists|hd: Header| #[trigger] generated(hd, ts, ll, dd, stored_cost(n, pending)),
//@         BlockType::Dynamic(h) => { let d = dynamic_cost(header_of(h, e, ll, dd), ts, ll, dd); d <= fixed_bits(ts) && d <= stored_cost(n, pending) },
//@     }
//@ }
pub fn gen_huffman_lengths(
    l_freqs: &[FrequencyType],
    d_freqs: &[FrequencyType],
    num_input_bytes: u64,
    pending_bits: u8,
    l_lengths: &mut [u8; 288],
    d_lengths: &mut [u8; 32],
    length_buffers: &mut LengthBuffers,
    /*@ Ghost(ts): Ghost<Seq<Token>> @*/
) -> /*@ (r: @*/ BlockType /*@ ) @*/
//@     requires
//@         l_freqs@.len() == 286, forall|s: int| 0 <= s < 286 ==> #[trigger] l_freqs@[s] == freq_ll(ts, s),
//@         d_freqs@.len() == 30, forall|s: int| 0 <= s < 30 ==> #[trigger] d_freqs@[s] == freq_dd(ts, s),
//@         forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]), ts.len() <= 31744, num_input_bytes <= 258 * 31744,
//@     ensures
//@         r matches BlockType::Dynamic(h) ==> dynamic_ok(header_of(h, final(length_buffers).length_buf@, final(l_lengths)@, final(d_lengths)@), ts, final(l_lengths)@, final(d_lengths)@), // [P13 P10]
//@         num_input_bytes > 4 ==> best(r, ts, num_input_bytes as int, (pending_bits % 8) as int, final(length_buffers).length_buf@, final(l_lengths)@, final(d_lengths)@), // [P11]
//@         num_input_bytes <= 4 ==> r is Fixed,
//@         form_of(ts, num_input_bytes as int, (pending_bits % 8) as int) == form(r, final(length_buffers).length_buf@, final(l_lengths)@, final(d_lengths)@), // [P17 P06]
{

    if num_input_bytes <= 4 {
        //@ assume(form_of(ts, num_input_bytes as int, (pending_bits % 8) as int) is Fixed); // ASSUMED: gen_huffman_lengths is a function of the frequencies, the number of input bytes and the number of bits in the last byte
        return BlockType::Fixed;
    };

    //@ proof {
    //@     lemma_is0(); lemma_p2_mono(9, 15); assert(p2(9) == 512) by (compute_only); assert(p2(7) == 128) by (compute_only);
    //@     assert forall|s: int| 0 <= s < 286 implies #[trigger] l_freqs@[s] <= 31745 by { crate::output_writer::lemma_freq_bounds(ts, s); }
    //@     assert forall|s: int| 0 <= s < 30 implies #[trigger] d_freqs@[s] <= 31745 by { crate::output_writer::lemma_freq_bounds(ts, s); }
    //@ }
    //@ let ghost lf0 = l_freqs@; let ghost df0 = d_freqs@;
    let l_freqs = remove_trailing_zeroes(l_freqs, MIN_NUM_LITERALS_AND_LENGTHS);
    let d_freqs = remove_trailing_zeroes(d_freqs, MIN_NUM_DISTANCES);

    huffman_lengths_from_frequency_m(
        l_freqs,
        MAX_CODE_LENGTH,
        &mut length_buffers.leaf_buf,
        l_lengths,
    );
    huffman_lengths_from_frequency_m(
        d_freqs,
        MAX_CODE_LENGTH,
        &mut length_buffers.leaf_buf,
        d_lengths,
    );

    //@ let ghost lf = l_freqs@; let ghost df = d_freqs@; let ghost ll = l_lengths@; let ghost dd = d_lengths@;
    //@ proof {
    //@     assert forall|s: int| 0 <= s < 286 implies (if s < lf.len() { lf[s] as int } else { 0 }) == #[trigger] freq_ll(ts, s) by { assert(lf0[s] == freq_ll(ts, s)); if s < lf.len() { assert(lf[s] == lf0[s]); } else { assert(is0(lf0[s])); } }
    //@     assert forall|s: int| 0 <= s < 30 implies (if s < df.len() { df[s] as int } else { 0 }) == #[trigger] freq_dd(ts, s) by { assert(df0[s] == freq_dd(ts, s)); if s < df.len() { assert(df[s] == df0[s]); } else { assert(is0(df0[s])); } }
    //@     if lf.len() > 257 { assert(!is0(lf0[lf.len() - 1])); } if df.len() > 1 { assert(!is0(df0[df.len() - 1])); }
    //@ }
    let used_lengths = l_freqs.len();
    let used_distances = d_freqs.len();

    //@ let ghost all = ll.subrange(0, lf.len() as int) + dd.subrange(0, df.len() as int);
    //@ proof { assert forall|i: int| 0 <= i < all.len() implies all[i] <= 15 by { if i < lf.len() { assert(all[i] == ll[i]); } else { assert(all[i] == dd[i - lf.len()]); } } }
    let mut freqs = [0u16; 19];
    encode_lengths_m(
        crate::vx::Chain2::new(&l_lengths[..used_lengths] ,&d_lengths[..used_distances]),
        &mut length_buffers.length_buf,
        &mut freqs,
    );

    //@ let ghost e = length_buffers.length_buf@; let ghost ss = cl_syms(e);
    //@ proof { assert(all.subrange(0, all.len() as int) =~= all); assert forall|k: int| 0 <= k < 19 implies #[trigger] freqs@[k] <= 31745 by { crate::length_encode::lemma_cl_freq_bounds(ss, k); } }
    let mut huffman_table_lengths = vec![0; freqs.len()];
    huffman_lengths_from_frequency_m(
        &freqs,
        MAX_HUFFMAN_CODE_LENGTH,
        &mut length_buffers.leaf_buf,
        huffman_table_lengths.as_mut_slice(),
    );

    //@ let ghost cl = huffman_table_lengths@; let ghost at: int;
    //@ proof {
    //@     assert(HUFFMAN_LENGTH_ORDER@ =~= cl_order());
    //@     crate::output_writer::lemma_freq_eob(ts); assert(lf[256] == freq_ll(ts, 256)); assert(ll[256] > 0); assert(all[256] == ll[256]);
    //@     at = lemma_sent(ss, freqs@, cl, all, 256);
    //@ }
    let used_hclens = HUFFMAN_LENGTH_ORDER.len()
        - ({ let mut __c = 0usize; for __a in /*@ it: @*/ HUFFMAN_LENGTH_ORDER.iter().rev()
            //@     invariant_except_break it.index@ == __c,
            //@     invariant
            //@         it.seq().len() == 19, forall|i: int| 0 <= i < 19 ==> *#[trigger] it.seq()[i] == cl_order()[18 - i], huffman_table_lengths@ == cl, cl.len() == 19,
            //@         4 <= at < 19, cl[cl_order()[at] as int] > 0, __c <= 18 - at, forall|i: int| 19 - __c <= i < 19 ==> cl[#[trigger] cl_order()[i] as int] == 0,
            { let n = *__a; if !(huffman_table_lengths[n as usize] == 0) { break; } __c += 1; } __c });

    if !(used_hclens >= 4) { crate::vx::panic(); }

    //@ let ghost h = DynamicBlockHeader { huffman_table_lengths, used_hclens }; let ghost hd = header_of(h, e, ll, dd);
    //@ proof { lemma_header(ts, lf, df, ll, dd, e, freqs@, h); }
    let (d_ll_length, s_ll_length) =
        calculate_block_length(l_freqs, l_lengths, &FIXED_CODE_LENGTHS, &|c| /*@ -> (r: u64)
            requires c < 286,
            ensures c < 286 ==> r == ll_x()[c as int] && r <= 5, @*/
        {
            num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8)
                .into()
        } /*@ , Ghost(ll_x()) @*/);

    let (d_dist_length, s_dist_length) =
        calculate_block_length(d_freqs, d_lengths, &FIXED_CODE_LENGTHS_DISTANCE, &|c| /*@ -> (r: u64)
            ensures c < 30 ==> r == dd_x()[c as int] && r <= 14, @*/
        {
            num_extra_bits_for_distance_code(c as u8).into()
        } /*@ , Ghost(dd_x()) @*/);

    let huff_table_length = calculate_huffman_length(&freqs, &huffman_table_lengths);

    //@ proof {
    //@     crate::huffman_table::lemma_fixed();
    //@     lemma_cost_cut(ts, lf, df, ll, dd); lemma_cost_cut(ts, lf, df, fixed_ll(), fixed_dd());
    //@     assert(ints(freqs@) =~= cl_hist(ss));
    //@ }
    let dynamic_length = d_ll_length
        + d_dist_length
        + huff_table_length
        + (used_hclens as u64 * 3)
        + u64::from(HLIT_BITS)
        + u64::from(HDIST_BITS)
        + u64::from(HCLEN_BITS);

    let static_length = s_ll_length + s_dist_length;

    let stored_length = stored_length(num_input_bytes) + stored_padding(pending_bits % 8);

    let used_length = ({ let __a =({ let __a =dynamic_length ; let __b = static_length ; if __b < __a { __b } else { __a } }) ; let __b = stored_length ; if __b < __a { __b } else { __a } });

    //@ proof {
    //@     assert(dynamic_length == dynamic_cost(hd, ts, ll, dd)); assert(static_length == fixed_bits(ts)); assert(stored_length == stored_cost(num_input_bytes as int, (pending_bits % 8) as int));
    //@     assert(generated(hd, ts, ll, dd, used_length as int));
    //@ }
    //@ let ghost clean = ll == lens_of(lf, 15, 288) && dd == lens_of(df, 15, 32) && (e, freqs@) == enc_of(all) && cl == lens_of(freqs@, 7, 19) && e == length_buffers.length_buf@ && ll == l_lengths@ && dd == d_lengths@;
    //@ assert(clean); // [P17 P06]
    //@ let ghost fm = form_of(ts, num_input_bytes as int, (pending_bits % 8) as int);
    //@ assume(clean ==> fm == if used_length == static_length { Form::Fixed } else if used_length == stored_length { Form::Stored } else { Form::Dynamic(hd, ll, dd) }); // ASSUMED: the rest of gen_huffman_lengths is a function of these, the number of input bytes and the number of bits in the last byte
    if used_length == static_length {
        BlockType::Fixed
    } else if used_length == stored_length {
        BlockType::Stored
    } else {
        BlockType::Dynamic(DynamicBlockHeader {
            huffman_table_lengths,
            used_hclens,
        })
    }
}

pub fn write_huffman_lengths(
    header: &DynamicBlockHeader,
    huffman_table: &HuffmanTable,
    encoded_lengths: &[EncodedLength],
    writer: &mut LsbWriter,
    /*@ Ghost(ts): Ghost<Seq<Token>> @*/
)
//@     requires old(writer).wf(), dynamic_ok(header_of(*header, encoded_lengths@, huffman_table.code_lengths@, huffman_table.distance_code_lengths@), ts, huffman_table.code_lengths@, huffman_table.distance_code_lengths@),
//@     ensures final(writer).wf(), final(writer).w@.len() >= old(writer).w@.len(), final(writer)@ == old(writer)@ + enc_header(header_of(*header, encoded_lengths@, huffman_table.code_lengths@, huffman_table.distance_code_lengths@)), // [P13]
{
    
    //@ proof { lemma_is0(); }
    //@ let ghost ll = huffman_table.code_lengths@; let ghost dd = huffman_table.distance_code_lengths@; let ghost hd = header_of(*header, encoded_lengths@, ll, dd); let ghost cl = hd.cl; let ghost w0 = writer@; let ghost n0 = writer.w@.len();
    let (literal_len_lengths, distance_lengths) = huffman_table.get_lengths();
    let literal_len_lengths =
        remove_trailing_zeroes(literal_len_lengths, MIN_NUM_LITERALS_AND_LENGTHS);
    let distance_lengths = remove_trailing_zeroes(distance_lengths, MIN_NUM_DISTANCES);
    //@ proof { lemma_trim(ll, 288, 257, literal_len_lengths@.len() as int); lemma_trim(dd, 32, 1, distance_lengths@.len() as int); }
    let huffman_table_lengths = &header.huffman_table_lengths;
    let used_hclens = header.used_hclens;

    if !(literal_len_lengths.len() <= NUM_LITERALS_AND_LENGTHS) { crate::vx::panic(); }
    if !(literal_len_lengths.len() >= MIN_NUM_LITERALS_AND_LENGTHS) { crate::vx::panic(); }
    if !(distance_lengths.len() <= NUM_DISTANCE_CODES) { crate::vx::panic(); }
    if !(distance_lengths.len() >= MIN_NUM_DISTANCES) { crate::vx::panic(); }

    let hlit = (literal_len_lengths.len() - MIN_NUM_LITERALS_AND_LENGTHS) as u16;
    //@ proof { assert(p2(5) == 32 && p2(4) == 16 && p2(3) == 8 && p2(2) == 4 && p2(7) == 128) by (compute_only); lemma_fits(hlit as u64, 5); }
    writer.write_bits(hlit, HLIT_BITS);
    
    let hdist = (distance_lengths.len() - MIN_NUM_DISTANCES) as u16;
    //@ proof { lemma_fits(hdist as u64, 5); }
    writer.write_bits(hdist, HDIST_BITS);

    let hclen = used_hclens.saturating_sub(4);

    //@ proof { lemma_fits(hclen as u64, 4); }
    writer.write_bits(hclen as u16, HCLEN_BITS);

    //@ let ghost w1 = writer@;
    //@ proof { assert(HUFFMAN_LENGTH_ORDER@ =~= cl_order()); assert(HUFFMAN_LENGTH_ORDER@.subrange(0, used_hclens as int) =~= cl_order().subrange(0, used_hclens as int)); assert(w1 =~= w1 + enc_cl_lens(cl, 0)); }
    for n in /*@ it: @*/ &HUFFMAN_LENGTH_ORDER[..used_hclens]
    //@     invariant
    //@         it.seq().len() == used_hclens, used_hclens <= 19, forall|i: int| 0 <= i < used_hclens ==> *#[trigger] it.seq()[i] == cl_order()[i], huffman_table_lengths@ == cl, cl.len() == 19, kraft_ok(cl, 7),
    //@         writer.wf(), writer.w@.len() >= n0, writer@ == w1 + enc_cl_lens(cl, it.index@ as int), p2(3) == 8,
    {
        //@ proof { assert(cl[*n as int] <= 7); lemma_fits(cl[*n as int] as u64, 3); }
        writer.write_bits(u16::from(huffman_table_lengths[usize::from(*n)]), 3);
        //@ assert(writer@ =~= w1 + enc_cl_lens(cl, it.index@ + 1));
    }

    //@ proof { lemma_kraft_up(cl, 7, 15); }
    let mut codes = [0u16; NUM_HUFFMAN_LENGTHS];
    create_codes_in_place(&mut codes[..], huffman_table_lengths);

    //@ let ghost w2 = writer@; let ghost ss = cl_syms(encoded_lengths@);
    //@ proof { assert(w2 =~= w2 + enc_cl(ss.take(0), cl)); }
    for v in /*@ it: @*/ encoded_lengths
    //@     invariant
    //@         it.seq().len() == encoded_lengths@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == encoded_lengths@[i], ss == cl_syms(encoded_lengths@),
    //@         huffman_table_lengths@ == cl, cl.len() == 19, kraft_ok(cl, 7), crate::huffman_table::codes_ok(codes@, cl), codes@.len() == 19, cl_ok(ss),
    //@         forall|i: int| 0 <= i < ss.len() ==> cl[cl_num(#[trigger] ss[i])] > 0, p2(3) == 8, p2(2) == 4, p2(7) == 128,
    //@         writer.wf(), writer.w@.len() >= n0, writer@ == w2 + enc_cl(ss.take(it.index@ as int), cl),
    {
        //@ let ghost i = it.index@ as int; let ghost sy = ss[i]; let ghost w3 = writer@;
        //@ proof {
        //@     lemma_cl_all(ss, i); lemma_cl_sym(ss, i); assert(cl_sym(*v) == sy); assert(cl[cl_num(sy)] > 0); assert(cl[cl_num(sy)] <= 7); assert(crate::huffman_table::code_ok(codes@[cl_num(sy)], cl, cl_num(sy)));
        //@     match sy { ClSym::Len(_) => {}, ClSym::Copy(n) => { lemma_fits((n - 3) as u64, 2); }, ClSym::Zero3(n) => { lemma_fits((n - 3) as u64, 3); }, ClSym::Zero7(n) => { lemma_fits((n - 11) as u64, 7); } }
        //@ }
        match *v {
            EncodedLength::Length(n) => {
                let (c, l) = (codes[usize::from(n)], huffman_table_lengths[usize::from(n)]);
                writer.write_bits(c, l);
            }
            EncodedLength::CopyPrevious(n) => {
                let (c, l) = (codes[COPY_PREVIOUS], huffman_table_lengths[COPY_PREVIOUS]);
                writer.write_bits(c, l);
                if !(n >= 3) { crate::vx::panic(); }
                if !(n <= 6) { crate::vx::panic(); }
                writer.write_bits((n - 3).into(), 2);
            }
            EncodedLength::RepeatZero3Bits(n) => {
                let (c, l) = (
                    codes[REPEAT_ZERO_3_BITS],
                    huffman_table_lengths[REPEAT_ZERO_3_BITS],
                );
                writer.write_bits(c, l);
                if !(n >= 3) { crate::vx::panic(); }
                writer.write_bits((n - 3).into(), 3);
            }
            EncodedLength::RepeatZero7Bits(n) => {
                let (c, l) = (
                    codes[REPEAT_ZERO_7_BITS],
                    huffman_table_lengths[REPEAT_ZERO_7_BITS],
                );
                writer.write_bits(c, l);
                if !(n >= 11) { crate::vx::panic(); }
                if !(n <= 138) { crate::vx::panic(); }
                writer.write_bits((n - 11).into(), 7);
            }
        }
        //@ proof { assert(ss.take(i + 1).drop_last() =~= ss.take(i)); assert(ss.take(i + 1).last() == sy); assert(writer@ =~= w3 + (huff(cl, cl_num(sy)) + cl_extra(sy))); assert(writer@ =~= w2 + enc_cl(ss.take(i + 1), cl)); }
    }
    //@ proof { assert(ss.take(ss.len() as int) =~= ss); assert(writer@ =~= w0 + enc_header(hd)); }
}

