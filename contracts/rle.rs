use crate::lz77::{buffer_full, ProcessStatus};
use crate::output_writer::{BufferStatus, DynamicWriter};

use std::cmp;
//@ use crate::lz::*; use crate::lz77::*; use crate::rfc::*; use crate::input_buffer::lesser;
use std::ops::Range;

pub const MIN_MATCH: usize = crate::huffman_table::MIN_MATCH as usize;
pub const MAX_MATCH: usize = crate::huffman_table::MAX_MATCH as usize;

pub fn get_match_length_rle(data: &[u8], prev: u8) -> /*@ (r: @*/ usize /*@ ) @*/
//@     ensures r <= 258, r <= data@.len(), forall|i: int| 0 <= i < r ==> #[trigger] data@[i] == prev, // [P09]
//@         data@.len() > 0 && data@[0] == prev ==> r >= 1,
{
    ({ let mut __c = 0usize; for __a in /*@ it: @*/ data.iter().take(MAX_MATCH)
    //@     invariant_except_break it.index@ == __c,
    //@     invariant
    //@         it.seq().len() == lesser(data@.len() as int, 258), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == data@[i],
    //@         __c <= it.seq().len(), forall|i: int| 0 <= i < __c ==> #[trigger] data@[i] == prev,
    //@     ensures __c < it.seq().len() ==> data@[__c as int] != prev,
    { let b = *__a; if !(b == prev) { break; } __c += 1; } __c })
}

pub fn process_chunk_greedy_rle(
    data: &[u8],
    iterated_data: &Range<usize>,
    writer: &mut DynamicWriter,
    /*@ Ghost(h): Ghost<Seq<u8>>, Ghost(blk): Ghost<int> @*/
) -> /*@ (r: @*/ (usize, ProcessStatus) /*@ ) @*/
//@     requires
//@         tail_of(data@, h), iterated_data.start <= iterated_data.end <= data@.len(), iterated_data.end <= 65536,
//@         iterated_data.start == 0 ==> iterated_data.end >= 1 || data@.len() == 0,
//@         old(writer).room(), covers(h, blk, h.len() - data@.len() + iterated_data.start, old(writer)@),
//@     ensures
//@         chunk_post(h, blk, h.len() - data@.len(), iterated_data.start as int, iterated_data.end as int, data@.len() as int, 0, 0, *final(writer), r),
//@         only_dist1(old(writer)@) ==> only_dist1(final(writer)@), // [P12]
{
    if data.is_empty() {
        return (0, ProcessStatus::Ok);
    };

    let end = ({ let __a =data.len() ; let __b = iterated_data.end ; if __b < __a { __b } else { __a } });

    let start = ({ let __a =iterated_data.start ; let __b = 1 ; if __b >= __a { __b } else { __a } });

    let mut prev = data[start - 1];

    let current_chunk = &data[({ let __a =start ; let __b = end ; if __b < __a { __b } else { __a } })..end];
    let mut insert_it = crate::vx::EnumIter::new(current_chunk);
    let mut overlap = 0;
    //@ let ghost base = h.len() - data@.len(); let ghost w0 = writer@;

    if iterated_data.start == 0 && !data.is_empty() {
        {
        //@ proof { lemma_covers_push(h, blk, base, writer@, Token::Lit(data@[0])); lemma_tail_index(data@, h, 0); lemma_dist1_push(writer@, Token::Lit(data@[0])); }
        let b_status = writer.write_literal((data[0]));

        if let BufferStatus::Full = b_status {
            return (0, buffer_full(1));
        }
        }
    }

    while let Some((n, __b)) = insert_it.next()
    //@     invariant
    //@         tail_of(data@, h), base == h.len() - data@.len(), 1 <= start <= end <= data@.len(), end == iterated_data.end, end <= 65536, start >= iterated_data.start,
    //@         insert_it.s@ == data@.subrange(start as int, end as int), insert_it.start == 0, insert_it.n <= end - start,
    //@         writer.room(), covers(h, blk, base + start + insert_it.n + overlap, writer@),
    //@         overlap <= 258, end + overlap <= data@.len(), overlap > 0 ==> insert_it.n == end - start,
    //@         overlap == 0 ==> prev == data@[start + insert_it.n - 1],
    //@         only_dist1(w0) ==> only_dist1(writer@), w0 == old(writer)@,
    //@     ensures insert_it.n == end - start,
    //@     decreases end - start - insert_it.n,
    { let b = *__b;
        let position = n + start;
        let match_len = if prev == b {

            get_match_length_rle(&data[position..], prev)
        } else {
            0
        };
        if match_len >= MIN_MATCH {
            if position + match_len > end {
                overlap = position + match_len - end;
            };
            //@ proof {
            //@     assert forall|i: int| 0 <= i < match_len implies #[trigger] data@[position + i] == data@[position + i - 1] by {
            //@         assert(data@.subrange(position as int, data@.len() as int)[i] == prev);
            //@         if i > 0 { assert(data@.subrange(position as int, data@.len() as int)[i - 1] == prev); }
            //@     }
            //@     lemma_tail_match(data@, h, position as int, match_len as int, 1);
            //@     lemma_covers_push(h, blk, base + position, writer@, Token::Match(match_len as int, 1));
            //@     lemma_dist1_push(writer@, Token::Match(match_len as int, 1));
            //@ }
            let b_status = writer.write_length_rle(match_len as u16);
            if b_status == BufferStatus::Full {
                return (overlap, buffer_full(position + match_len));
            }
            //@ assert(data@.subrange(position as int, data@.len() as int)[match_len - 1] == prev);
            insert_it.nth(match_len - 2);
        } else {
            {
            //@ proof { lemma_covers_push(h, blk, base + position, writer@, Token::Lit(b)); lemma_tail_index(data@, h, position as int); lemma_dist1_push(writer@, Token::Lit(b)); }
            let b_status = writer.write_literal(b);

        if let BufferStatus::Full = b_status {
            return (0, buffer_full((position + 1)));
        }
            }
        }
        prev = b;
    }

    (overlap, ProcessStatus::Ok)
}

