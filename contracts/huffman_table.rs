use crate::bit_reverse::reverse_bits;
use crate::lzvalue::StoredLength;
/*-{*/use std::fmt;/*-}{ }*/
//@ use crate::rfc::*; use crate::lem::*;

pub const NUM_LENGTH_CODES: usize = 29;

pub const NUM_DISTANCE_CODES: usize = 30;

pub const NUM_LITERALS_AND_LENGTHS: usize = 286;

pub const MAX_CODE_LENGTH: usize = 15;

pub const MIN_MATCH: u16 = 3;
pub const MAX_MATCH: u16 = 258;
pub const MAX_DISTANCE: u16 = 32768;

pub const END_OF_BLOCK_POSITION: usize = 256;

//@ #[verifier::opaque]
pub const FIXED_CODE_LENGTHS: [u8; NUM_LITERALS_AND_LENGTHS + 2] = [
    8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8,
    8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8,
    8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8,
    8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8,
    8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9,
    9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9,
    9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9,
    9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9,
    7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 8, 8, 8, 8, 8, 8, 8, 8,
];

pub const LENGTH_EXTRA_BITS_LENGTH: [u8; NUM_LENGTH_CODES] = [
    0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
];

//@ #[verifier::opaque]
pub const LENGTH_CODE: [u8; 256] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 12, 12, 13, 13, 13, 13, 14, 14, 14,
    14, 15, 15, 15, 15, 16, 16, 16, 16, 16, 16, 16, 16, 17, 17, 17, 17, 17, 17, 17, 17, 18, 18, 18,
    18, 18, 18, 18, 18, 19, 19, 19, 19, 19, 19, 19, 19, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 20,
    20, 20, 20, 20, 20, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 22, 22, 22,
    22, 22, 22, 22, 22, 22, 22, 22, 22, 22, 22, 22, 22, 23, 23, 23, 23, 23, 23, 23, 23, 23, 23, 23,
    23, 23, 23, 23, 23, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24,
    24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25,
    25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 26, 26, 26,
    26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26,
    26, 26, 26, 26, 26, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27,
    27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 28,
];

pub const BASE_LENGTH: [u8; NUM_LENGTH_CODES] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 24, 28, 32, 40, 48, 56, 64, 80, 96, 112, 128,
    160, 192, 224, 255,
]; 

pub const LENGTH_BITS_START: u16 = 257;

pub const FIXED_CODE_LENGTHS_DISTANCE: [u8; NUM_DISTANCE_CODES + 2] = [5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5];

//@ #[verifier::opaque]
pub const DISTANCE_CODES: [u8; 512] = [
    0, 1, 2, 3, 4, 4, 5, 5, 6, 6, 6, 6, 7, 7, 7, 7, 8, 8, 8, 8, 8, 8, 8, 8, 9, 9, 9, 9, 9, 9, 9, 9,
    10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 11, 11, 11, 11, 11, 11, 11, 11,
    11, 11, 11, 11, 11, 11, 11, 11, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12,
    12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 13, 13, 13, 13, 13, 13, 13, 13,
    13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13,
    14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14,
    14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14,
    14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 15, 15, 15, 15, 15, 15, 15, 15,
    15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15,
    15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15,
    15, 15, 15, 15, 15, 15, 15, 15, 0, 0, 16, 17, 18, 18, 19, 19, 20, 20, 20, 20, 21, 21, 21, 21,
    22, 22, 22, 22, 22, 22, 22, 22, 23, 23, 23, 23, 23, 23, 23, 23, 24, 24, 24, 24, 24, 24, 24, 24,
    24, 24, 24, 24, 24, 24, 24, 24, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25,
    26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26, 26,
    26, 26, 26, 26, 26, 26, 26, 26, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27,
    27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 27, 28, 28, 28, 28, 28, 28, 28, 28,
    28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28,
    28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28,
    28, 28, 28, 28, 28, 28, 28, 28, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29,
    29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29,
    29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29, 29,
];

pub const DISTANCE_BASE: [u16; NUM_DISTANCE_CODES] = [
    0, 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512, 768, 1024, 1536,
    2048, 3072, 4096, 6144, 8192, 12288, 16384, 24576,
];

//@ // --- the tables against RFC 1951 3.2.5 ---
//@ pub open spec fn len_entry_ok(i: int) -> bool {
//@     let c = LENGTH_CODE@[i] as int;
//@     c <= 28 && BASE_LENGTH@[c] == len_base(c) - 3 && len_base(c) <= i + 3 < len_base(c) + p2(len_extra(c)) && (c < 28 ==> i < 255)
//@ }
//@ pub open spec fn chk_len_entries(n: int) -> bool decreases n { n <= 0 || (len_entry_ok(n - 1) && chk_len_entries(n - 1)) }
//@ pub proof fn lemma_len_entries(n: int, i: int) requires chk_len_entries(n), 0 <= i < n ensures len_entry_ok(i) decreases n
//@ { if i < n - 1 { lemma_len_entries(n - 1, i); } }
//@ pub proof fn lemma_len_table(i: int)
//@     requires 0 <= i < 256,
//@     ensures len_entry_ok(i), len_sym(i + 3) == LENGTH_CODE@[i],
//@ {
//@     reveal(LENGTH_CODE); assert(chk_len_entries(256)) by (compute_only);
//@     lemma_len_entries(256, i);
//@     lemma_len_sym(i + 3, LENGTH_CODE@[i] as int);
//@ }
//@ pub open spec fn len_extra_ok(c: int) -> bool { LENGTH_EXTRA_BITS_LENGTH@[c] == len_extra(c) && 0 <= len_extra(c) <= 5 }
//@ pub open spec fn chk_len_extra(n: int) -> bool decreases n { n <= 0 || (len_extra_ok(n - 1) && chk_len_extra(n - 1)) }
//@ pub proof fn lemma_len_extras(n: int, i: int) requires chk_len_extra(n), 0 <= i < n ensures len_extra_ok(i) decreases n
//@ { if i < n - 1 { lemma_len_extras(n - 1, i); } }
//@ pub proof fn lemma_len_extra(c: int) requires 0 <= c < 29 ensures len_extra_ok(c)
//@ { assert(chk_len_extra(29)) by (compute_only); lemma_len_extras(29, c); }
//@ pub open spec fn dist_entry_ok(i: int) -> bool {
//@     let c = DISTANCE_CODES@[i] as int;
//@     if i < 256 { c <= 29 && dist_base(c) <= i + 1 < dist_base(c) + p2(dist_extra(c)) }
//@     else { i < 258 || (c <= 29 && dist_base(c) <= 128 * (i - 256) + 1 && 128 * (i - 256) + 128 < dist_base(c) + p2(dist_extra(c))) }
//@ }
//@ pub open spec fn chk_dist_entries(n: int) -> bool decreases n { n <= 0 || (dist_entry_ok(n - 1) && chk_dist_entries(n - 1)) }
//@ pub proof fn lemma_dist_entries(n: int, i: int) requires chk_dist_entries(n), 0 <= i < n ensures dist_entry_ok(i) decreases n
//@ { if i < n - 1 { lemma_dist_entries(n - 1, i); } }
//@ pub open spec fn dist_base_ok(c: int) -> bool { DISTANCE_BASE@[c] + 1 == dist_base(c) && 0 <= dist_extra(c) <= 13 && p2(dist_extra(c)) <= 8192 }
//@ pub open spec fn chk_dist_bases(n: int) -> bool decreases n { n <= 0 || (dist_base_ok(n - 1) && chk_dist_bases(n - 1)) }
//@ pub proof fn lemma_dist_bases(n: int, i: int) requires chk_dist_bases(n), 0 <= i < n ensures dist_base_ok(i) decreases n
//@ { if i < n - 1 { lemma_dist_bases(n - 1, i); } }
//@ pub proof fn lemma_dist_table(d: int)
//@     requires 1 <= d <= 32768,
//@     ensures ({
//@         let c = DISTANCE_CODES@[if d <= 256 { d - 1 } else { 256 + (d - 1) / 128 }] as int;
//@         &&& 0 <= c <= 29 && dist_sym(d) == c && dist_base(c) <= d < dist_base(c) + p2(dist_extra(c)) && dist_base_ok(c)
//@     }),
//@ {
//@     let i = if d <= 256 { d - 1 } else { 256 + (d - 1) / 128 };
//@     reveal(DISTANCE_CODES); assert(chk_dist_entries(512)) by (compute_only);
//@     assert(chk_dist_bases(30)) by (compute_only);
//@     lemma_dist_entries(512, i);
//@     lemma_dist_bases(30, DISTANCE_CODES@[i] as int);
//@     lemma_dist_sym(d, DISTANCE_CODES@[i] as int);
//@ }
//@ pub open spec fn fixed_ok(i: int) -> bool { FIXED_CODE_LENGTHS@[i] == fixed_ll()[i] }
//@ pub open spec fn chk_fixed(n: int) -> bool decreases n { n <= 0 || (fixed_ok(n - 1) && chk_fixed(n - 1)) }
//@ pub proof fn lemma_fixed_entries(n: int, i: int) requires chk_fixed(n), 0 <= i < n ensures fixed_ok(i) decreases n
//@ { if i < n - 1 { lemma_fixed_entries(n - 1, i); } }
//@ pub proof fn lemma_fixed()
//@     ensures FIXED_CODE_LENGTHS@ =~= fixed_ll(), FIXED_CODE_LENGTHS_DISTANCE@ =~= fixed_dd(),
//@         kraft_ok(fixed_ll(), 15), kraft_ok(fixed_dd(), 15),
//@ {
//@     reveal(FIXED_CODE_LENGTHS); assert(chk_fixed(288)) by (compute_only);
//@     assert forall|i: int| 0 <= i < 288 implies FIXED_CODE_LENGTHS@[i] == fixed_ll()[i] by { lemma_fixed_entries(288, i); }
//@     assert(first_code(fixed_ll(), 15) + cnt(fixed_ll(), 15, 288) <= p2(15)) by (compute_only);
//@     assert(first_code(fixed_dd(), 15) + cnt(fixed_dd(), 15, 32) <= p2(15)) by (compute_only);
//@ }

pub const fn num_extra_bits_for_length_code(code: u8) -> /*@(r:@*/ u8 /*@)@*/
//@ requires code < 29,
//@ ensures r == len_extra(code as int), r <= 5,
{
    //@ proof { lemma_len_extra(code as int); }
    LENGTH_EXTRA_BITS_LENGTH[code as usize]
}

pub fn num_extra_bits_for_distance_code(code: u8) -> /*@(r:@*/ u8 /*@)@*/
//@ ensures code < 32 ==> r == dist_extra(code as int) && r <= 14,
{
    //@ assert(code >> 1 == code / 2) by (bit_vector);

    let mut c = code >> 1;
    c -= (c != 0) as u8;
    c
}

#[derive(Clone, Copy)]
pub struct ExtraBits {

    pub code_number: u16,

    pub num_bits: u8,

    pub value: u16,
}

pub fn get_length_code(length: u16) -> /*@(r:@*/ usize /*@)@*/
//@ requires 3 <= length <= 258,
//@ ensures r == 257 + len_sym(length as int), r <= 285,
{
    //@ proof { lemma_len_table(length - 3); }

    usize::from(LENGTH_CODE[(length.wrapping_sub(MIN_MATCH)) as u8 as usize])
        + LENGTH_BITS_START as usize
}

pub fn get_length_code_and_extra_bits(length: StoredLength) -> /*@(r:@*/ ExtraBits /*@)@*/
//@ ensures ({
//@     let l = length.length + 3;
//@     &&& r.code_number == 257 + len_sym(l) && 0 <= len_sym(l) <= 28
//@     &&& r.num_bits == len_extra(len_sym(l)) && r.num_bits <= 5
//@     &&& r.value == l - len_base(len_sym(l)) && (r.value as u64) >> (r.num_bits as u64) == 0
//@ }),
{
    //@ proof { lemma_len_table(length.length as int); lemma_len_extra(LENGTH_CODE@[length.length as int] as int);
    //@     lemma_fits((length.length + 3 - len_base(len_sym(length.length + 3))) as u64, len_extra(len_sym(length.length + 3))); }

    let n = LENGTH_CODE[length.stored_length() as usize];

    let base = BASE_LENGTH[n as usize];
    let num_bits = num_extra_bits_for_length_code(n);
    ExtraBits {
        code_number: n as u16 + LENGTH_BITS_START,
        num_bits,
        value: (length.stored_length() - base) as u16,
    }
}

pub fn get_distance_code(distance: u16) -> /*@(r:@*/ u8 /*@)@*/
//@ ensures 1 <= distance <= 32768 ==> r == dist_sym(distance as int) && r <= 29,
{
    //@ proof { if 1 <= distance <= 32768 { lemma_dist_table(distance as int); } }
    let distance = distance as usize;
    //@ assert(distance >= 1 ==> ((distance - 1) as usize) >> 7usize == ((distance - 1) as usize) / 128) by { if distance >= 1 { let d = (distance - 1) as usize; assert(d >> 7usize == d / 128) by (bit_vector); } }

    match distance {

        1..=256 => DISTANCE_CODES[distance - 1],

        257..=32768 => DISTANCE_CODES[256 + ((distance - 1) >> 7)],
        _ => 0,
    }
}

pub fn get_distance_code_and_extra_bits(distance: u16) -> /*@(r:@*/ ExtraBits /*@)@*/
//@ requires 1 <= distance <= 32768,
//@ ensures ({
//@     let c = dist_sym(distance as int);
//@     &&& r.code_number == c && 0 <= c <= 29
//@     &&& r.num_bits == dist_extra(c) && r.num_bits <= 13
//@     &&& r.value == distance - dist_base(c) && (r.value as u64) >> (r.num_bits as u64) == 0
//@ }),
{
    //@ proof { lemma_dist_table(distance as int); lemma_fits((distance - dist_base(dist_sym(distance as int))) as u64, dist_extra(dist_sym(distance as int))); }
    let distance_code = get_distance_code(distance);
    let extra = num_extra_bits_for_distance_code(distance_code);

    let base = DISTANCE_BASE[distance_code as usize] + 1;
    ExtraBits {
        code_number: distance_code.into(),
        num_bits: extra,
        value: distance - base,
    }
}

#[derive(Clone, Copy)]
pub struct HuffmanCode {
    pub code: u16,
    pub length: u8,
}

impl HuffmanCode {

    pub const fn new(code: u16, length: u8) -> /*@(r:@*/ HuffmanCode /*@)@*/
    //@ ensures r.code == code, r.length == length,
    {
        HuffmanCode { code, length }
    }
}

pub fn build_length_count_table(table: &[u8], len_counts: &mut [u16; 16]) -> /*@(r:@*/ (usize, usize) /*@)@*/
//@ requires table@.len() > 0, table@.len() < 65536, forall|i: int| 0 <= i < table@.len() ==> table@[i] <= 15,
//@     forall|l: int| 0 <= l < 16 ==> old(len_counts)@[l] == 0,
//@ ensures
//@     r.0 <= 15, forall|i: int| 0 <= i < table@.len() ==> table@[i] <= r.0,
//@     r.1 < table@.len(), forall|i: int| r.1 < i < table@.len() ==> table@[i] == 0,
//@     forall|l: int| 1 <= l < 16 ==> final(len_counts)@[l] == cnt(table@, l, table@.len() as int),
//@     final(len_counts)@[0] == 0,
{

    let max_length = /*-{*/(*table.iter().max().expect("BUG! Empty lengths!")).into()/*-}{vx::slice_max(table) as usize}*/;

    if !(max_length <= MAX_CODE_LENGTH) { crate::vx::panic(); }

    let mut max_length_pos = 0;

    for (n, __length) in /*@ it: @*/ (0..table.len()).zip(table.iter())
    //@ invariant
    //@     it.seq().len() == table@.len(), table@.len() > 0, table@.len() < 65536,
    //@     forall|k: int| 0 <= k < table@.len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == table@[k],
    //@     forall|i: int| 0 <= i < table@.len() ==> table@[i] <= 15,
    //@     forall|l: int| 1 <= l < 16 ==> len_counts@[l] == cnt(table@, l, it.index() as int),
    //@     len_counts@[0] == 0,
    //@     max_length_pos < table@.len(),
    //@     forall|i: int| max_length_pos < i < it.index() ==> table@[i] == 0,
    {
        //@ proof { assert forall|l: int| 0 <= l < 16 implies 0 <= #[trigger] cnt(table@, l, it.index() as int) <= it.index() by { lemma_cnt_bounds(table@, l, it.index() as int); } }
 let length = *__length;

        if length > 0 {
            len_counts[usize::from(length)] += 1;
            max_length_pos = n;
        }
    }
    (max_length, max_length_pos)
}

//@ /// The code words stored for the lengths are the canonical ones, bit-reversed.
//@ pub open spec fn code_ok(c: u16, lens: Seq<u8>, n: int) -> bool {
//@     (c as u64) >> (lens[n] as u64) == 0 && lsb(c as u64, lens[n] as nat) == huff(lens, n)
//@ }
//@ pub open spec fn codes_ok(codes: Seq<u16>, lens: Seq<u8>) -> bool {
//@     forall|n: int| 0 <= n < lens.len() && lens[n] > 0 ==> code_ok(#[trigger] codes[n], lens, n)
//@ }
pub fn create_codes_in_place(code_table: &mut [u16], length_table: &[u8])
//@ requires
//@     0 < length_table@.len() <= 288, old(code_table)@.len() >= length_table@.len(), kraft_ok(length_table@, 15),
//@ ensures
//@     final(code_table)@.len() == old(code_table)@.len(),
//@     codes_ok(final(code_table)@, length_table@),
{
    let mut len_counts = [0; 16];
    let (max_length, max_length_pos) = build_length_count_table(length_table, &mut len_counts);
    let lengths = len_counts;

    let mut code = 0u16;
    let mut next_code = Vec::with_capacity(length_table.len());
    next_code.push(code);

    //@ let ghost lt = length_table@;
    for bits in 1..=max_length
    //@ invariant
    //@     lt == length_table@, kraft_ok(lt, 15), lt.len() <= 288,
    //@     max_length <= 15, next_code@.len() == bits, lengths@[0] == 0,
    //@     code == first_code(lt, bits - 1), code <= 32768,
    //@     forall|l: int| 1 <= l < 16 ==> lengths@[l] == cnt(lt, l, lt.len() as int),
    //@     forall|l: int| 0 <= l < bits ==> #[trigger] next_code@[l] == first_code(lt, l),
    {
        //@ proof {
        //@     if bits >= 2 {
        //@         lemma_kraft_level(lt, 15, bits - 1);
        //@         lemma_p2_mono(bits - 1, 14);
        //@         assert(p2(14) == 16384) by (compute_only);
        //@     }
        //@     assert forall|c: u16| c <= 16384 implies c << 1u16 == c * 2 by { assert(c <= 16384 ==> c << 1u16 == mul(c, 2)) by (bit_vector); }
        //@ }
        code = (code + lengths[bits - 1]) << 1;
        next_code.push(code);
    }

    for n in 0..=max_length_pos
    //@ invariant
    //@     lt == length_table@, kraft_ok(lt, 15), lt.len() <= 288,
    //@     max_length <= 15, next_code@.len() == max_length + 1,
    //@     forall|i: int| 0 <= i < lt.len() ==> lt[i] <= max_length,
    //@     max_length_pos < lt.len(),
    //@     code_table@.len() == old(code_table)@.len(), code_table@.len() >= lt.len(),
    //@     forall|l: int| 1 <= l <= max_length ==> #[trigger] next_code@[l] == first_code(lt, l) + cnt(lt, l, n as int),
    //@     forall|i: int| 0 <= i < n && lt[i] > 0 ==> code_ok(#[trigger] code_table@[i], lt, i),
    {
        //@ proof {
        //@     assert(p2(15) == 32768) by (compute_only);
        //@     if lt[n as int] > 0 {
        //@         let l = lt[n as int] as int;
        //@         lemma_canon_bound(lt, 15, n as int);
        //@         lemma_p2_mono(l, 15);
        //@         lemma_fits(canon(lt, n as int) as u64, l);
        //@     }
        //@ }
        let length = usize::from(length_table[n]);
        if length != 0 {

            code_table[n] = reverse_bits(next_code[length], length as u8);
            //@ assert(lsb(code_table@[n as int] as u64, lt[n as int] as nat) =~= huff(lt, n as int));

            next_code[length] = next_code[length].wrapping_add(1);
        }
    }
}

//@ impl HuffmanTable {
//@     /// The codes belong to the lengths.
//@     pub open spec fn wf(&self) -> bool {
//@         codes_ok(self.codes@, self.code_lengths@) && codes_ok(self.distance_codes@, self.distance_code_lengths@)
//@             && (forall|i: int| 0 <= i < 288 ==> self.code_lengths@[i] <= 15) && (forall|i: int| 0 <= i < 32 ==> self.distance_code_lengths@[i] <= 15)
//@     }
//@ }
pub struct HuffmanTable {

    pub codes: [u16; 288],
    pub code_lengths: [u8; 288],

    pub distance_codes: [u16; 32],
    pub distance_code_lengths: [u8; 32],
}

impl HuffmanTable {
    pub const fn empty() -> /*@(r:@*/ HuffmanTable /*@)@*/
    //@ ensures r.wf(),
    {
        HuffmanTable {
            codes: [0; 288],
            code_lengths: [0; 288],
            distance_codes: [0; 32],
            distance_code_lengths: [0; 32],
        }
    }
    pub const fn get_lengths(&self) -> /*@(r:@*/ (&[u8; 288], &[u8; 32]) /*@)@*/
    //@ ensures *r.0 == self.code_lengths, *r.1 == self.distance_code_lengths,
    {
        (&self.code_lengths, &self.distance_code_lengths)
    }
    pub fn get_lengths_mut(&mut self) -> /*@(r:@*/ (&mut [u8; 288], &mut [u8; 32]) /*@)@*/
    //@ ensures *r.0 == old(self).code_lengths, *r.1 == old(self).distance_code_lengths,
    //@     final(self).code_lengths == *final(r.0), final(self).distance_code_lengths == *final(r.1),
    //@     final(self).codes == old(self).codes, final(self).distance_codes == old(self).distance_codes,
    {
        (&mut self.code_lengths, &mut self.distance_code_lengths)
    }

    pub fn update_from_lengths(&mut self)
    //@ requires kraft_ok(old(self).code_lengths@, 15), kraft_ok(old(self).distance_code_lengths@, 15),
    //@ ensures final(self).wf(), final(self).code_lengths == old(self).code_lengths, final(self).distance_code_lengths == old(self).distance_code_lengths,
    {
        //@ proof {
        //@     assert(self.code_lengths@.subrange(0, 288) =~= self.code_lengths@);
        //@     assert(self.distance_code_lengths@.subrange(0, 32) =~= self.distance_code_lengths@);
        //@ }
        create_codes_in_place(self.codes.as_mut(), &self.code_lengths[..]);
        create_codes_in_place(
            self.distance_codes.as_mut(),
            &self.distance_code_lengths[..],
        );
    }

    pub fn set_to_fixed(&mut self)
    //@ ensures final(self).wf(), final(self).code_lengths@ == fixed_ll(), final(self).distance_code_lengths@ == fixed_dd(),
    {
        //@ proof { lemma_fixed(); }
        self.code_lengths = FIXED_CODE_LENGTHS;
        self.distance_code_lengths = FIXED_CODE_LENGTHS_DISTANCE;
        self.update_from_lengths();
    }
    pub const fn get_ll_huff(&self, value: usize) -> /*@(r:@*/ HuffmanCode /*@)@*/
    //@ requires value < 288,
    //@ ensures r.code == self.codes@[value as int], r.length == self.code_lengths@[value as int],
    {
        HuffmanCode::new(self.codes[value], self.code_lengths[value])
    }
    pub fn get_literal(&self, value: u8) -> /*@(r:@*/ HuffmanCode /*@)@*/
    //@ ensures r.code == self.codes@[value as int], r.length == self.code_lengths@[value as int],
    {
        let index = usize::from(value);
        HuffmanCode::new(self.codes[index], self.code_lengths[index])
    }
    pub const fn get_end_of_block(&self) -> /*@(r:@*/ HuffmanCode /*@)@*/
    //@ ensures r.code == self.codes@[256], r.length == self.code_lengths@[256],
    {
        self.get_ll_huff(END_OF_BLOCK_POSITION)
    }
    pub fn get_length_huffman(&self, length: StoredLength) -> /*@(r:@*/ (HuffmanCode, HuffmanCode) /*@)@*/
    //@ ensures ({
    //@     let l = length.length + 3;
    //@     let c = len_sym(l);
    //@     &&& 0 <= c <= 28 && r.0.code == self.codes@[257 + c] && r.0.length == self.code_lengths@[257 + c]
    //@     &&& r.1.length == len_extra(c) && r.1.length <= 5 && r.1.code == l - len_base(c) && (r.1.code as u64) >> (r.1.length as u64) == 0
    //@ }),
    {
        let length_data = get_length_code_and_extra_bits(length);

        let length_huffman_code = self.get_ll_huff(length_data.code_number as usize);

        (
            length_huffman_code,
            HuffmanCode {
                code: length_data.value,
                length: length_data.num_bits,
            },
        )
    }
    pub fn get_distance_huffman(&self, distance: u16) -> /*@(r:@*/ (HuffmanCode, HuffmanCode) /*@)@*/
    //@ requires 1 <= distance <= 32768,
    //@ ensures ({
    //@     let c = dist_sym(distance as int);
    //@     &&& 0 <= c <= 29 && r.0.code == self.distance_codes@[c] && r.0.length == self.distance_code_lengths@[c]
    //@     &&& r.1.length == dist_extra(c) && r.1.length <= 13 && r.1.code == distance - dist_base(c) && (r.1.code as u64) >> (r.1.length as u64) == 0
    //@ }),
    {

        let distance_data = get_distance_code_and_extra_bits(distance);

        let distance_huffman_code = self.distance_codes[distance_data.code_number as usize];
        let distance_huffman_length =
            self.distance_code_lengths[distance_data.code_number as usize];

        (
            HuffmanCode {
                code: distance_huffman_code,
                length: distance_huffman_length,
            },
            HuffmanCode {
                code: distance_data.value,
                length: distance_data.num_bits,
            },
        )
    }
}

