use std::cmp;
use std::fmt;
//@ use crate::lz::*; use crate::rfc::*; use crate::split::*; use crate::stream::Block; use crate::input_buffer::lesser;
/*-{*/use std::iter::{self, Iterator};/*-}{ }*/
/*-{*/use std::ops::{Range, RangeFrom};/*-}{use std::ops::Range;}*/
/*-{*/use std::slice::Iter;/*-}{ }*/
use crate::chained_hash_table::{update_hash, ChainedHashTable};
use crate::compress::Flush;
use crate::input_buffer::InputBuffer;
use crate::matching::longest_match;
use crate::output_writer::{BufferStatus, DynamicWriter};
use crate::rle::process_chunk_greedy_rle;
pub const MAX_MATCH: usize = crate::huffman_table::MAX_MATCH as usize;
pub const MIN_MATCH: usize = crate::huffman_table::MIN_MATCH as usize;
pub const NO_RLE: u16 = 43212;
#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub enum MatchingType {
    Greedy,
    Lazy,
}
pub struct LZ77State {
    pub hash_table: ChainedHashTable,
    pub is_first_window: bool,
    pub is_last_block: bool,
    pub overlap: usize,
    pub current_block_input_bytes: u64,
    pub max_hash_checks: u16,
    pub lazy_if_less_than: u16,
    pub matching_type: MatchingType,
    pub match_state: ChunkState,
    pub bytes_to_hash: usize,
    pub was_synced: bool,
}
//@ pub open spec fn b2n(b: bool) -> int { if b { 1 } else { 0 } }
//@ impl LZ77State {
//@     pub open spec fn pend(&self) -> int { b2n(self.match_state.add) }
//@     /// nothing was fed yet (was_synced makes no difference while the input buffer is empty)
//@     pub open spec fn fresh(&self) -> bool {
//@         self.hash_table.fresh() && self.is_first_window && !self.is_last_block && self.overlap == 0 && self.current_block_input_bytes == 0
//@         && self.match_state.fresh() && self.bytes_to_hash == 0
//@     }
//@     pub open spec fn same_but_hash(&self, o: LZ77State) -> bool { *self == (LZ77State { hash_table: self.hash_table, ..o }) }
//@     pub open spec fn ws(&self) -> int { if self.is_first_window { 0 } else { 32768 } }
//@     /// `h` is all input taken so far, `d` the part of it in the input buffer: up to here it has been looked at
//@     pub open spec fn pos(&self, d: Seq<u8>, h: Seq<u8>) -> int { h.len() - d.len() + self.ws() + self.overlap }
//@     /// ... and up to here the tokens stand for it
//@     pub open spec fn done(&self, d: Seq<u8>, h: Seq<u8>) -> int { self.pos(d, h) - self.pend() }
//@     pub open spec fn wf(&self, d: Seq<u8>, h: Seq<u8>) -> bool {
//@         &&& self.hash_table.wf()
//@         &&& d.len() <= 65794
//@         &&& tail_of(d, h)
//@         &&& self.is_first_window ==> h.len() == d.len() && self.overlap <= 32768
//@         &&& self.overlap <= 32768 + 258
//@         &&& self.ws() + self.overlap <= d.len()
//@         &&& self.match_state.wf(h, self.pos(d, h))
//@         &&& !uses_lazy(self.matching_type, self.max_hash_checks) ==> !self.match_state.add
//@         &&& self.bytes_to_hash <= 258
//@         &&& self.was_synced ==> d.len() <= 65536 && self.ws() + self.overlap == d.len()
//@     }
//@     /// the tokens `ts` stand for the input from `blk` on
//@     pub open spec fn block(&self, d: Seq<u8>, h: Seq<u8>, blk: int, ts: Seq<Token>) -> bool {
//@         &&& 0 <= blk
//@         &&& covers(h, blk, self.done(d, h), ts)
//@         &&& self.current_block_input_bytes == self.done(d, h) - blk
//@         &&& tokens_for(self.matching_type, self.max_hash_checks, ts)
//@     }
//@ }
//@ pub open spec fn uses_lazy(mt: MatchingType, checks: u16) -> bool { mt is Lazy && checks > 0 }
//@ /// what the options promise about the tokens
//@ pub open spec fn tokens_for(mt: MatchingType, checks: u16, ts: Seq<Token>) -> bool {
//@     &&& mt is Greedy && checks == 0 ==> no_match(ts)
//@     &&& mt is Lazy && checks == 0 ==> only_dist1(ts)
//@ }
//@ impl ChunkState {
//@     pub open spec fn fresh(&self) -> bool {
//@         self.current_length == 0 && self.current_distance == 0 && self.prev_byte == 0 && self.cur_byte == 0 && !self.add
//@     }
//@     /// what is carried over to position `p`: the byte before it, and a match starting at that byte
//@     pub open spec fn wf(&self, h: Seq<u8>, p: int) -> bool {
//@         &&& self.add ==> 1 <= p && p + 2 <= h.len() && h[p - 1] == self.cur_byte
//@         &&& self.current_length <= 258
//@         &&& self.current_length >= 3 ==> self.add && is_match(h, p - 1, self.current_length as int, self.current_distance as int)
//@     }
//@ }
//@ /// Result of the process_chunk functions for `start..end` of a buffer of `dlen` bytes that starts at `base` of `h`;
//@ /// pp and pn: bytes pending before and after.
//@ pub open spec fn chunk_post(h: Seq<u8>, blk: int, base: int, start: int, end: int, dlen: int, pp: int, pn: int, w: DynamicWriter, r: (usize, ProcessStatus)) -> bool {
//@     &&& w.wf() && r.0 <= 258 && end + r.0 <= dlen && (pn == 1 ==> r.0 == 0)
//@     &&& match r.1 {
//@         ProcessStatus::Ok => w.room() && covers(h, blk, base + end + r.0 - pn, w@) && (pn == 1 ==> end + 2 <= dlen) && end + r.0 + pp >= start + pn,
//@         ProcessStatus::BufferFull(x) => !w.room() && (r.0 > 0 ==> x == end + r.0) && (r.0 == 0 ==> x <= end) && start <= x && x + pp >= start + pn
//@             && covers(h, blk, base + x - pn, w@) && (pn == 1 ==> x + 2 <= dlen),
//@     }
//@ }
//@ /// where the next call goes on
//@ pub open spec fn next_pos(end: int, r: (usize, ProcessStatus)) -> int {
//@     match r.1 { ProcessStatus::Ok => end + r.0, ProcessStatus::BufferFull(x) => x as int }
//@ }
//@ pub proof fn lemma_covers_bound(h: Seq<u8>, from: int, to: int, ts: Seq<Token>)
//@     requires covers(h, from, to, ts),
//@     ensures from <= to <= from + 258 * ts.len(),
//@     decreases ts.len()
//@ {
//@     if ts.len() > 0 {
//@         match ts.last() {
//@             Token::Lit(b) => { lemma_covers_bound(h, from, to - 1, ts.drop_last()); }
//@             Token::Match(l, d) => { lemma_covers_bound(h, from, to - l, ts.drop_last()); }
//@         }
//@     }
//@ }
impl LZ77State {
    pub fn new(
        max_hash_checks: u16,
        lazy_if_less_than: u16,
        matching_type: MatchingType,
    ) -> /*@ (r: @*/ LZ77State /*@ ) @*/
    //@     ensures
    //@         r.fresh(), // [P06]
    //@         !r.was_synced, // [P06]
    //@         r.max_hash_checks == max_hash_checks && r.lazy_if_less_than == lazy_if_less_than && r.matching_type == matching_type, // [P06 P12]
    {
        LZ77State {
            hash_table: ChainedHashTable::new(),
            is_first_window: true,
            is_last_block: false,
            overlap: 0,
            current_block_input_bytes: 0,
            max_hash_checks,
            lazy_if_less_than,
            matching_type,
            match_state: ChunkState::new(),
            bytes_to_hash: 0,
            was_synced: false,
        }
    }
    pub fn reset(&mut self)
    //@     ensures
    //@         final(self).fresh(), final(self).was_synced == old(self).was_synced, // [P06]
    //@         final(self).max_hash_checks == old(self).max_hash_checks && final(self).lazy_if_less_than == old(self).lazy_if_less_than && final(self).matching_type == old(self).matching_type, // [P06 P12]
    {
        self.hash_table.reset();
        self.is_first_window = true;
        self.is_last_block = false;
        self.overlap = 0;
        self.current_block_input_bytes = 0;
        self.match_state = ChunkState::new();
        self.bytes_to_hash = 0
    }
    pub fn set_last(&mut self)
    //@     ensures *final(self) == (LZ77State { is_last_block: true, ..*old(self) }),
    {
        self.is_last_block = true;
    }
    pub const fn is_last_block(&self) -> /*@ (r: @*/ bool /*@ ) @*/
    //@     ensures r == self.is_last_block,
    {
        self.is_last_block
    }
    pub const fn current_block_input_bytes(&self) -> /*@ (r: @*/ u64 /*@ ) @*/
    //@     ensures r == self.current_block_input_bytes,
    {
        self.current_block_input_bytes
    }
    pub fn reset_input_bytes(&mut self)
    //@     ensures *final(self) == (LZ77State { current_block_input_bytes: 0, ..*old(self) }),
    {
        self.current_block_input_bytes = 0;
    }
    pub const fn pending_byte(&self) -> /*@ (r: @*/ bool /*@ ) @*/
    //@     ensures r == self.match_state.add,
    {
        self.match_state.add
    }
    pub fn pending_byte_as_num(&self) -> /*@ (r: @*/ usize /*@ ) @*/
    //@     ensures r == self.pend(),
    {
        if self.match_state.add {
            1
        } else {
            0
        }
    }
}
pub const DEFAULT_WINDOW_SIZE: usize = 32768;
pub enum ProcessStatus {
    Ok,
    BufferFull(usize),
}
pub struct ChunkState {
    pub current_length: u16,
    pub current_distance: u16,
    pub prev_byte: u8,
    pub cur_byte: u8,
    pub add: bool,
}
impl ChunkState {
    pub fn new() -> /*@ (r: @*/ ChunkState /*@ ) @*/
    //@     ensures r.fresh(), // [P06]
    {
        ChunkState {
            current_length: 0,
            current_distance: 0,
            prev_byte: 0,
            cur_byte: 0,
            add: false,
        }
    }
}
pub const fn buffer_full(position: usize) -> /*@ (r: @*/ ProcessStatus /*@ ) @*/
//@     ensures r == ProcessStatus::BufferFull(position),
{
    ProcessStatus::BufferFull(position)
}
pub fn process_chunk(
    data: &[u8],
    iterated_data: &Range<usize>,
    /*-{*/mut/*-}{ }*/ match_state: &mut ChunkState,
    hash_table: &mut ChainedHashTable,
    writer: &mut DynamicWriter,
    max_hash_checks: u16,
    lazy_if_less_than: usize,
    matching_type: MatchingType,
    /*@ Ghost(h): Ghost<Seq<u8>>, Ghost(blk): Ghost<int> @*/
) -> /*@ (r: @*/ (usize, ProcessStatus) /*@ ) @*/
//@     requires
//@         tail_of(data@, h), iterated_data.start <= iterated_data.end <= data@.len(), iterated_data.end <= 65536,
//@         iterated_data.start == 0 ==> iterated_data.end >= 1 || data@.len() == 0,
//@         old(match_state).wf(h, h.len() - data@.len() + iterated_data.start), old(hash_table).wf(),
//@         !uses_lazy(matching_type, max_hash_checks) ==> !old(match_state).add,
//@         old(writer).room(), covers(h, blk, h.len() - data@.len() + iterated_data.start - b2n(old(match_state).add), old(writer)@),
//@         tokens_for(matching_type, max_hash_checks, old(writer)@),
//@     ensures
//@         chunk_post(h, blk, h.len() - data@.len(), iterated_data.start as int, iterated_data.end as int, data@.len() as int,
//@             b2n(old(match_state).add), b2n(final(match_state).add), *final(writer), r), // [P09 P01]
//@         final(match_state).wf(h, h.len() - data@.len() + next_pos(iterated_data.end as int, r)),
//@         final(hash_table).wf(),
//@         !uses_lazy(matching_type, max_hash_checks) ==> !final(match_state).add,
//@         tokens_for(matching_type, max_hash_checks, final(writer)@), // [P12]
{
    let avoid_rle = if false {
        lazy_if_less_than == NO_RLE as usize
    } else {
        false
    };
    match matching_type {
        MatchingType::Greedy => {
            process_chunk_greedy(data, iterated_data, hash_table, writer, max_hash_checks /*@ , Ghost(h), Ghost(blk) @*/)
        }
        MatchingType::Lazy => {
            if max_hash_checks > 0 || avoid_rle {
                process_chunk_lazy(
                    data,
                    iterated_data,
                    /*-{*/&mut/*-}{ }*/ match_state,
                    hash_table,
                    writer,
                    max_hash_checks,
                    lazy_if_less_than,
                    /*@ Ghost(h), Ghost(blk) @*/
                )
            } else {
                process_chunk_greedy_rle(data, iterated_data, writer /*@ , Ghost(h), Ghost(blk) @*/)
            }
        }
    }
}
pub fn add_to_hash_table(
    bytes_to_add: usize,
    insert_it: &mut /*-{*/iter::Zip<RangeFrom<usize>, Iter<u8>>/*-}{crate::vx::EnumIter}*/,
    hash_it: &mut /*-{*/Iter<u8>/*-}{crate::vx::ByteIter}*/,
    hash_table: &mut ChainedHashTable,
)
//@     requires old(insert_it).ok(), old(hash_it).n <= old(hash_it).s@.len(), old(hash_table).wf(),
//@     ensures
//@         final(insert_it).s == old(insert_it).s, final(insert_it).start == old(insert_it).start, final(hash_it).s == old(hash_it).s,
//@         final(insert_it).n == at_most(old(insert_it).n + bytes_to_add, old(insert_it).s@.len() as int),
//@         final(hash_it).n == at_most(old(hash_it).n + (final(insert_it).n - old(insert_it).n), old(hash_it).s@.len() as int),
//@         final(hash_table).wf(),
{
    /*-{*/let taker = insert_it.by_ref().take(bytes_to_add);
    let mut hash_taker = hash_it.by_ref().take(bytes_to_add);/*-}{ }*/
    let mut hash = hash_table.current_hash();
    //@ let ghost (i0, h0) = (*insert_it, *hash_it);
    /*-{*/for (ipos, _) in taker {/*-}{for __k in 0..bytes_to_add
        invariant_except_break
            insert_it.n == i0.n + __k,
        invariant
            insert_it.s == i0.s, insert_it.start == i0.start, hash_it.s == h0.s, insert_it.ok(), hash_it.n <= hash_it.s@.len(), i0.n <= insert_it.n,
            hash_it.n == at_most(h0.n + (insert_it.n - i0.n), hash_it.s@.len() as int), hash < 32768,
            insert_it.n <= i0.n + bytes_to_add,
        ensures insert_it.n == at_most(i0.n + bytes_to_add, i0.s@.len() as int),
    {
        let (ipos, _) = match insert_it.next() { Some(__x) => __x, None => { break; } };}*/
        if let Some(__i_hash_byte) = /*-{*/hash_taker/*-}{hash_it}*/.next() { let i_hash_byte = *__i_hash_byte;
            hash = update_hash(hash, i_hash_byte);
            hash_table.add_with_hash(ipos, hash);
        }
    }
    hash_table.set_hash(hash);
}
pub fn match_too_far(match_len: usize, match_dist: usize) -> /*@ (r: @*/ bool /*@ ) @*/
//@     ensures match_len < 3 ==> !r,
{
    const TOO_FAR: usize = 8 * 1024;
    match_len == MIN_MATCH && match_dist > TOO_FAR
}
//@ pub open spec fn at_most(a: int, b: int) -> int { if a < b { a } else { b } }
//@ pub open spec fn hash_len(dlen: int, start: int) -> int { if dlen - start > 2 { dlen - start - 2 } else { 0 } }
pub fn create_iterators<'a>(
    data: &'a [u8],
    iterated_data: &Range<usize>,
) -> /*@ (r: @*/ (
    usize,
    /*-{*/iter::Zip<RangeFrom<usize>, Iter<'a, u8>>/*-}{crate::vx::EnumIter<'a>}*/,
    /*-{*/Iter<'a, u8>/*-}{crate::vx::ByteIter<'a>}*/,
) /*@ ) @*/
//@     requires iterated_data.start <= iterated_data.end <= data@.len(),
//@     ensures
//@         r.0 == iterated_data.end, r.1.n == 0, r.1.start == iterated_data.start, r.1.s@ == data@.subrange(iterated_data.start as int, iterated_data.end as int), // [P09]
//@         r.2.n == 0, r.2.s@.len() == hash_len(data@.len() as int, iterated_data.start as int),
{
    let end = ({ let __a =data.len() ; let __b = iterated_data.end ; if __b < __a { __b } else { __a } });
    let start = iterated_data.start;
    let current_chunk = &data[start..end];
    let insert_it = /*-{*/(start..).zip(current_chunk.iter())/*-}{crate::vx::EnumIter::from(start, current_chunk)}*/;
    let hash_it = {
        let hash_start = if data.len() - start > 2 {
            start + 2
        } else {
            data.len()
        };
        /*-{*/(&data[hash_start..]).iter()/*-}{crate::vx::ByteIter::new(&data[hash_start..])}*/
    };
    (end, insert_it, hash_it)
}
pub fn process_chunk_lazy(
    data: &[u8],
    iterated_data: &Range<usize>,
    state: &mut ChunkState,
    /*-{*/mut/*-}{ }*/ hash_table: &mut ChainedHashTable,
    writer: &mut DynamicWriter,
    max_hash_checks: u16,
    lazy_if_less_than: usize,
    /*@ Ghost(h): Ghost<Seq<u8>>, Ghost(blk): Ghost<int> @*/
) -> /*@ (r: @*/ (usize, ProcessStatus) /*@ ) @*/
//@     requires
//@         tail_of(data@, h), iterated_data.start <= iterated_data.end <= data@.len(), iterated_data.end <= 65536,
//@         old(state).wf(h, h.len() - data@.len() + iterated_data.start), old(hash_table).wf(),
//@         old(writer).room(), covers(h, blk, h.len() - data@.len() + iterated_data.start - b2n(old(state).add), old(writer)@),
//@     ensures
//@         chunk_post(h, blk, h.len() - data@.len(), iterated_data.start as int, iterated_data.end as int, data@.len() as int,
//@             b2n(old(state).add), b2n(final(state).add), *final(writer), r),
//@         final(state).wf(h, h.len() - data@.len() + next_pos(iterated_data.end as int, r)),
//@         final(hash_table).wf(),
{
    //@ let ghost base = h.len() - data@.len(); let ghost start = iterated_data.start as int; let ghost dlen = data@.len() as int; let ghost pp = b2n(state.add);
    let (end, mut insert_it, mut hash_it) = create_iterators(data, iterated_data);
    const NO_LENGTH: u16 = 0;
    let mut prev_length = state.current_length;
    let mut prev_distance = state.current_distance;
    state.current_length = 0;
    state.current_distance = 0;
    let mut overlap = 0;
    let mut ignore_next = prev_length as usize >= lazy_if_less_than;
    state.prev_byte = state.cur_byte;
    while let Some((position, __b)) = insert_it.next()
    //@     invariant
    //@         tail_of(data@, h), base == h.len() - data@.len(), start == iterated_data.start, start <= end <= dlen == data@.len(), end == iterated_data.end, end <= 65536, NO_LENGTH == 0,
    //@         insert_it.s@ == data@.subrange(start, end as int), insert_it.start == start, insert_it.n <= end - start,
    //@         hash_it.n == at_most(insert_it.n as int, hash_it.s@.len() as int), hash_it.s@.len() == hash_len(dlen, start),
    //@         hash_table.wf(), writer.room(), covers(h, blk, base + start + insert_it.n + overlap - b2n(state.add), writer@),
    //@         overlap <= 258, end + overlap <= dlen, overlap > 0 ==> insert_it.n == end - start && !state.add,
    //@         state.add ==> base + start + insert_it.n >= 1 && start + insert_it.n + 2 <= dlen && state.cur_byte == h[base + start + insert_it.n - 1] && state.prev_byte == state.cur_byte,
    //@         prev_length <= 258, state.current_length == 0 || (state.current_length == prev_length && state.current_distance == prev_distance),
    //@         prev_length >= 3 ==> state.add && is_match(h, base + start + insert_it.n - 1, prev_length as int, prev_distance as int),
    //@         state.add ==> insert_it.n >= 1 || pp == 1,
    //@         pp == b2n(old(state).add),
    //@     ensures insert_it.n == end - start,
    //@     decreases end - start - insert_it.n,
    {
        //@ let ghost p = start + insert_it.n - 1; let ghost add = b2n(state.add);
        //@ proof { assert(position == p); assert(*__b == data@[p]); lemma_tail_index(data@, h, p); }
        let b = *__b;
        state.cur_byte = b;
        if let Some(__hash_byte) = hash_it.next() { let hash_byte = *__hash_byte;
            hash_table.add_hash_value(position, hash_byte);
            if !ignore_next {
                let (mut match_len, match_dist) = {
                    let max_hash_checks = if prev_length >= 32 {
                        max_hash_checks >> 2
                    } else {
                        max_hash_checks
                    };
                    longest_match(
                        data,
                        hash_table,
                        position,
                        prev_length as usize,
                        max_hash_checks,
                    )
                };
                //@ proof { if match_len >= 3 { lemma_tail_match(data@, h, p, match_len as int, match_dist as int); } }
                if match_too_far(match_len, match_dist) {
                    match_len = NO_LENGTH as usize;
                };
                if match_len >= lazy_if_less_than {
                    ignore_next = true;
                }
                state.current_length = match_len as u16;
                state.current_distance = match_dist as u16;
            } else {
                state.current_length = NO_LENGTH;
                state.current_distance = 0;
                ignore_next = false;
            };
            //@ assert(state.current_length >= 3 ==> is_match(h, base + p, state.current_length as int, state.current_distance as int));
            if prev_length >= state.current_length && prev_length >= MIN_MATCH as u16 {
                //@ proof { lemma_covers_push(h, blk, base + p - 1, writer@, Token::Match(prev_length as int, prev_distance as int)); }
                let b_status =
                    writer.write_length_distance(prev_length as u16, prev_distance as u16);
                let bytes_to_add = prev_length - 2;
                add_to_hash_table(
                    bytes_to_add as usize,
                    &mut insert_it,
                    &mut hash_it,
                    /*-{*/&mut/*-}{ }*/ hash_table,
                );
                if position + prev_length as usize > end {
                    overlap = position + prev_length as usize - end - 1;
                };
                state.add = false;
                state.current_length = 0;
                state.current_distance = 0;
                if let BufferStatus::Full = b_status {
                    return (overlap, buffer_full(position + prev_length as usize - 1));
                }
                ignore_next = false;
            } else if state.add {
                {
                //@ proof { lemma_covers_push(h, blk, base + p - 1, writer@, Token::Lit(state.prev_byte)); }
                let b_status = writer.write_literal((state.prev_byte));
        if let BufferStatus::Full = b_status {
            return (0, buffer_full((position + 1)));
        }
                }
            } else {
                state.add = true
            }
            prev_length = state.current_length;
            prev_distance = state.current_distance;
            state.prev_byte = b;
        } else {
            //@ assert(p + 2 >= dlen);
            if prev_length >= MIN_MATCH as u16 {
                //@ proof { lemma_covers_push(h, blk, base + p - 1, writer@, Token::Match(prev_length as int, prev_distance as int)); }
                let b_status =
                    writer.write_length_distance(prev_length as u16, prev_distance as u16);
                state.current_length = 0;
                state.current_distance = 0;
                state.add = false;
                if !((position + prev_length as usize) >= end - 1) { crate::vx::panic(); }
                overlap = (position + prev_length as usize)
                    .saturating_sub(end)
                    .saturating_sub(1);
                if let BufferStatus::Full = b_status {
                    return (overlap, buffer_full(end + overlap));
                } else {
                    return (overlap, ProcessStatus::Ok);
                }
            };
            if state.add {
                state.add = false;
                {
                //@ proof { lemma_covers_push(h, blk, base + p - 1, writer@, Token::Lit(state.prev_byte)); }
                let b_status = writer.write_literal((state.prev_byte));
        if let BufferStatus::Full = b_status {
            return (0, buffer_full(position));
        }
                }
            };
            {
            //@ proof { lemma_covers_push(h, blk, base + p, writer@, Token::Lit(b)); }
            let b_status = writer.write_literal(b);
        if let BufferStatus::Full = b_status {
            return (0, buffer_full((position + 1)));
        }
            }
        }
    }
    (overlap, ProcessStatus::Ok)
}
pub fn process_chunk_greedy(
    data: &[u8],
    iterated_data: &Range<usize>,
    /*-{*/mut/*-}{ }*/ hash_table: &mut ChainedHashTable,
    writer: &mut DynamicWriter,
    max_hash_checks: u16,
    /*@ Ghost(h): Ghost<Seq<u8>>, Ghost(blk): Ghost<int> @*/
) -> /*@ (r: @*/ (usize, ProcessStatus) /*@ ) @*/
//@     requires
//@         tail_of(data@, h), iterated_data.start <= iterated_data.end <= data@.len(), iterated_data.end <= 65536,
//@         old(hash_table).wf(), old(writer).room(), covers(h, blk, h.len() - data@.len() + iterated_data.start, old(writer)@),
//@     ensures
//@         chunk_post(h, blk, h.len() - data@.len(), iterated_data.start as int, iterated_data.end as int, data@.len() as int, 0, 0, *final(writer), r),
//@         final(hash_table).wf(),
//@         max_hash_checks == 0 && no_match(old(writer)@) ==> no_match(final(writer)@), // [P12]
{
    //@ let ghost base = h.len() - data@.len(); let ghost start = iterated_data.start as int; let ghost dlen = data@.len() as int; let ghost w0 = writer@;
    let (end, mut insert_it, mut hash_it) = create_iterators(data, iterated_data);
    const NO_LENGTH: usize = 0;
    let mut overlap = 0;
    while let Some((position, __b)) = insert_it.next()
    //@     invariant
    //@         tail_of(data@, h), base == h.len() - data@.len(), start == iterated_data.start, start <= end <= dlen == data@.len(), end == iterated_data.end, end <= 65536, NO_LENGTH == 0,
    //@         insert_it.s@ == data@.subrange(start, end as int), insert_it.start == start, insert_it.n <= end - start,
    //@         hash_it.n == at_most(insert_it.n as int, hash_it.s@.len() as int), hash_it.s@.len() == hash_len(dlen, start),
    //@         hash_table.wf(), writer.room(), covers(h, blk, base + start + insert_it.n + overlap, writer@),
    //@         overlap <= 258, end + overlap <= dlen, overlap > 0 ==> insert_it.n == end - start,
    //@         max_hash_checks == 0 && no_match(w0) ==> no_match(writer@), w0 == old(writer)@,
    //@     ensures insert_it.n == end - start,
    //@     decreases end - start - insert_it.n,
    {
        //@ let ghost p = start + insert_it.n - 1;
        //@ proof { assert(position == p); assert(*__b == data@[p]); lemma_tail_index(data@, h, p); lemma_covers_push(h, blk, base + p, writer@, Token::Lit(*__b)); lemma_no_match_push(writer@, *__b); }
        let b = *__b;
        if let Some(__hash_byte) = hash_it.next() { let hash_byte = *__hash_byte;
            hash_table.add_hash_value(position, hash_byte);
            let (match_len, match_dist) =
                { longest_match(data, hash_table, position, NO_LENGTH, max_hash_checks) };
            if match_len >= MIN_MATCH as usize && !match_too_far(match_len, match_dist) {
                //@ proof { lemma_tail_match(data@, h, p, match_len as int, match_dist as int); lemma_covers_push(h, blk, base + p, writer@, Token::Match(match_len as int, match_dist as int)); }
                let b_status = writer.write_length_distance(match_len as u16, match_dist as u16);
                let bytes_to_add = match_len - 1;
                add_to_hash_table(bytes_to_add, &mut insert_it, &mut hash_it, /*-{*/&mut/*-}{ }*/ hash_table);
                if position + match_len > end {
                    overlap = position + match_len - end;
                };
                if let BufferStatus::Full = b_status {
                    return (overlap, buffer_full(position + match_len));
                }
            } else {
                {
                let b_status = writer.write_literal(b);
        if let BufferStatus::Full = b_status {
            return (0, buffer_full((position + 1)));
        }
                }
            }
        } else {
            {
            let b_status = writer.write_literal(b);
        if let BufferStatus::Full = b_status {
            return (0, buffer_full((position + 1)));
        }
            }
        }
    }
    (overlap, ProcessStatus::Ok)
}
#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub enum LZ77Status {
    NeedInput,
    EndBlock,
    Finished,
}
//@ /// Result of lz77_compress_block: `h` is all input taken so far.
//@ pub open spec fn block_post(flush: Flush, h: Seq<u8>, blk: int, st: LZ77State, d: Seq<u8>, w: DynamicWriter, status: LZ77Status, cp: int) -> bool {
//@     &&& w.wf() && 0 <= blk && cp <= d.len() <= 65794 && tail_of(d, h)
//@     &&& tokens_for(st.matching_type, st.max_hash_checks, w@)
//@     &&& !(status is Finished) ==> st.wf(d, h) && st.block(d, h, blk, w@) && !st.is_last_block
//@     &&& match status {
//@         LZ77Status::NeedInput => w.room() && !(flush is Finish) && !(flush is Sync),
//@         LZ77Status::EndBlock => !w.room() && h.len() - d.len() + cp == st.done(d, h),
//@         LZ77Status::Finished => {
//@             &&& flush is Finish || flush is Sync
//@             &&& w.room() && cp == d.len() && covers(h, blk, h.len() as int, w@) && st.current_block_input_bytes == h.len() - blk
//@             &&& st.is_last_block == (flush is Finish)
//@             &&& flush is Sync ==> st.wf(d, h) && st.done(d, h) == h.len()
//@             &&& flush is Finish ==> !st.was_synced
//@         }
//@     }
//@ }
//@ /// More input: nothing that was established changes.
//@ proof fn lemma_more(st: LZ77State, d: Seq<u8>, h: Seq<u8>, x: Seq<u8>, blk: int, ts: Seq<Token>)
//@     requires st.wf(d, h), st.block(d, h, blk, ts), d.len() + x.len() <= 65794, !st.was_synced,
//@     ensures st.wf(d + x, h + x), st.block(d + x, h + x, blk, ts), st.pos(d + x, h + x) == st.pos(d, h),
//@ {
//@     lemma_covers_mono(h, x, blk, st.done(d, h), ts);
//@     assert((h + x).subrange((h + x).len() - (d + x).len(), (h + x).len() as int) =~= d + x) by {
//@         assert forall|i: int| 0 <= i < d.len() implies (h + x)[h.len() - d.len() + i] == d[i] by { lemma_tail_index(d, h, i); }
//@     }
//@     let p = st.pos(d, h);
//@     if st.match_state.current_length >= 3 { lemma_match_mono(h, x, p - 1, st.match_state.current_length as int, st.match_state.current_distance as int); }
//@ }
//@ /// Sliding the buffer by a window and adding `x` to it.
//@ proof fn lemma_slide(st: LZ77State, d: Seq<u8>, h: Seq<u8>, x: Seq<u8>, blk: int, ts: Seq<Token>)
//@     requires
//@         d.len() > 65536, d.len() - 32768 + x.len() <= 65794, !st.was_synced, !st.is_first_window, st.overlap <= 258,
//@         (LZ77State { overlap: (st.overlap + 32768) as usize, ..st }).wf(d, h), (LZ77State { overlap: (st.overlap + 32768) as usize, ..st }).block(d, h, blk, ts),
//@     ensures
//@         st.wf(d.subrange(32768, d.len() as int) + x, h + x), st.block(d.subrange(32768, d.len() as int) + x, h + x, blk, ts),
//@ {
//@     let e = d.subrange(32768, d.len() as int);
//@     lemma_slid(d, h, 32768);
//@     assert(st.wf(e, h));
//@     assert(st.block(e, h, blk, ts));
//@     lemma_more(st, e, h, x, blk, ts);
//@ }
//@ /// Sliding: the buffer keeps the end of the input.
//@ proof fn lemma_slid(d: Seq<u8>, h: Seq<u8>, n: int)
//@     requires tail_of(d, h), 0 <= n <= d.len(),
//@     ensures tail_of(d.subrange(n, d.len() as int), h),
//@ {
//@     let e = d.subrange(n, d.len() as int);
//@     assert(h.subrange(h.len() - e.len(), h.len() as int) =~= e) by {
//@         assert forall|i: int| 0 <= i < e.len() implies h[h.len() - e.len() + i] == e[i] by { lemma_tail_index(d, h, n + i); }
//@     }
//@ }
//@ /// what the invariant says, spelled out once
//@ proof fn lemma_open(s: LZ77State, d: Seq<u8>, h: Seq<u8>, blk: int, ts: Seq<Token>)
//@     requires s.wf(d, h), s.block(d, h, blk, ts),
//@     ensures
//@         s.hash_table.wf(), d.len() <= 65794, tail_of(d, h), d.len() <= h.len(), s.is_first_window ==> h.len() == d.len() && s.overlap <= 32768, s.overlap <= 32768 + 258,
//@         s.ws() + s.overlap <= d.len(), s.match_state.wf(h, s.pos(d, h)), !uses_lazy(s.matching_type, s.max_hash_checks) ==> !s.match_state.add,
//@         s.bytes_to_hash <= 258, s.was_synced ==> d.len() <= 65536 && s.overlap <= 32768,
//@         covers(h, blk, s.done(d, h), ts), tokens_for(s.matching_type, s.max_hash_checks, ts), 0 <= blk,
//@ {}
//@ /// changes that don't matter
//@ proof fn lemma_frame(s: LZ77State, t: LZ77State, d: Seq<u8>, h: Seq<u8>, blk: int, ts: Seq<Token>)
//@     requires s.wf(d, h), s.block(d, h, blk, ts), t.hash_table.wf(), t.bytes_to_hash <= 258, t.was_synced ==> s.was_synced,
//@         t == (LZ77State { hash_table: t.hash_table, bytes_to_hash: t.bytes_to_hash, was_synced: t.was_synced, ..s }),
//@     ensures t.wf(d, h), t.block(d, h, blk, ts),
//@ {}
//@ impl LZ77State {
//@     /// what decides how it goes on; `ts`: the tokens of the current block
//@     pub open spec fn lz(&self, ts: Seq<Token>) -> Lz {
//@         Lz { tab: self.hash_table.tab(), first: self.is_first_window, last: self.is_last_block, overlap: self.overlap as int, count: self.current_block_input_bytes as int, ms: self.match_state,
//@             tohash: self.bytes_to_hash as int, ts, checks: self.max_hash_checks, lazy: self.lazy_if_less_than, mt: self.matching_type }
//@     }
//@ }
//@ /// what may come after the first `k` bytes of `data`: at the end of the stream there is no more than `data`, otherwise there is no telling
//@ pub open spec fn rest_ok(flush: Flush, data: Seq<u8>, k: int, rem: Seq<u8>) -> bool { !(flush is Sync) && (flush is Finish ==> rem == data.subrange(k, data.len() as int)) }
//@ pub open spec fn reach(s0: Lz, d0: Seq<u8>, x: Seq<u8>, s: Lz, d: Seq<u8>, rem: Seq<u8>, bs: Seq<Block>) -> bool { leads(Run { s: s0, u: d0 + x + rem, bs }, Run { s, u: d + rem, bs }) }
//@ /// from `s0` with `d0` in the input buffer, after `k` bytes of `data`, `s` with `d` in the input buffer is on the way, whatever comes after
//@ pub open spec fn follows(flush: Flush, data: Seq<u8>, k: int, s0: Lz, d0: Seq<u8>, s: Lz, d: Seq<u8>) -> bool {
//@     forall|rem: Seq<u8>, bs: Seq<Block>| rest_ok(flush, data, k, rem) ==> #[trigger] reach(s0, d0, data.subrange(0, k), s, d, rem, bs)
//@ }
//@ pub open spec fn hop1(s0: Lz, d0: Seq<u8>, x: Seq<u8>, s: Lz, d: Seq<u8>, stop: bool, cp: int, rem: Seq<u8>, bs: Seq<Block>) -> bool {
//@     leads(Run { s: s0, u: d0 + x + rem, bs }, if stop { put(s, d + rem, bs, cp) } else { Run { s, u: d + rem, bs } })
//@ }
//@ /// ... the same, where a block ends at `cp` of the input buffer if `stop`
//@ pub open spec fn hop(flush: Flush, data: Seq<u8>, k: int, s0: Lz, d0: Seq<u8>, s: Lz, d: Seq<u8>, stop: bool, cp: int) -> bool {
//@     forall|rem: Seq<u8>, bs: Seq<Block>| rest_ok(flush, data, k, rem) ==> #[trigger] hop1(s0, d0, data.subrange(0, k), s, d, stop, cp, rem, bs)
//@ }
//@ proof fn lemma_follows_refl(flush: Flush, data: Seq<u8>, s: Lz, d: Seq<u8>)
//@     ensures follows(flush, data, 0, s, d, s, d),
//@ {
//@     assert forall|rem: Seq<u8>, bs: Seq<Block>| rest_ok(flush, data, 0, rem) implies #[trigger] reach(s, d, data.subrange(0, 0), s, d, rem, bs) by {
//@         assert(d + data.subrange(0, 0) + rem =~= d + rem); lemma_leads_refl(Run { s, u: d + rem, bs });
//@     }
//@ }
//@ proof fn lemma_follows_hop(flush: Flush, data: Seq<u8>, k: int, s0: Lz, d0: Seq<u8>, s: Lz, d: Seq<u8>, cp: int)
//@     requires follows(flush, data, k, s0, d0, s, d),
//@     ensures hop(flush, data, k, s0, d0, s, d, false, cp),
//@ {
//@     assert forall|rem: Seq<u8>, bs: Seq<Block>| rest_ok(flush, data, k, rem) implies #[trigger] hop1(s0, d0, data.subrange(0, k), s, d, false, cp, rem, bs) by {
//@         assert(reach(s0, d0, data.subrange(0, k), s, d, rem, bs));
//@     }
//@ }
//@ /// more of the data is taken into the input buffer
//@ proof fn lemma_follows_more(flush: Flush, data: Seq<u8>, k: int, m: int, s0: Lz, d0: Seq<u8>, s: Lz, d: Seq<u8>)
//@     requires follows(flush, data, k, s0, d0, s, d), 0 <= k <= m <= data.len(),
//@     ensures follows(flush, data, m, s0, d0, s, d + data.subrange(k, m)),
//@ {
//@     let x = data.subrange(k, m);
//@     assert forall|rem: Seq<u8>, bs: Seq<Block>| rest_ok(flush, data, m, rem) implies #[trigger] reach(s0, d0, data.subrange(0, m), s, d + x, rem, bs) by {
//@         if flush is Finish { assert(x + rem =~= data.subrange(k, data.len() as int)); }
//@         assert(reach(s0, d0, data.subrange(0, k), s, d, x + rem, bs));
//@         assert(d0 + data.subrange(0, k) + (x + rem) =~= d0 + data.subrange(0, m) + rem);
//@         assert(d + (x + rem) =~= d + x + rem);
//@     }
//@ }
//@ /// the input buffer is moved on before the next window
//@ proof fn lemma_follows_slide(flush: Flush, data: Seq<u8>, k: int, s0: Lz, d0: Seq<u8>, s: Lz, d: Seq<u8>)
//@     requires follows(flush, data, k, s0, d0, s, d), !s.last, s.overlap > 32768, d.len() >= 32768,
//@     ensures follows(flush, data, k, s0, d0, Lz { tab: slide(s.tab, s.checks), overlap: s.overlap - 32768, ..s }, d.subrange(32768, d.len() as int)),
//@ {
//@     let e = d.subrange(32768, d.len() as int); let z = Lz { tab: slide(s.tab, s.checks), overlap: s.overlap - 32768, ..s };
//@     assert forall|rem: Seq<u8>, bs: Seq<Block>| rest_ok(flush, data, k, rem) implies #[trigger] reach(s0, d0, data.subrange(0, k), z, e, rem, bs) by {
//@         assert(reach(s0, d0, data.subrange(0, k), s, d, rem, bs));
//@         assert((d + rem).subrange(32768, (d + rem).len() as int) =~= e + rem);
//@         lemma_leads_step(Run { s: s0, u: d0 + data.subrange(0, k) + rem, bs }, Run { s, u: d + rem, bs });
//@     }
//@ }
//@ /// whether more data comes after the input buffer makes no difference to a step
//@ proof fn lemma_step_ext(s: Lz, d: Seq<u8>, rem: Seq<u8>)
//@     requires 0 <= s.overlap <= 32768, d.len() <= 65794, d.len() == 65794 || rem.len() == 0,
//@     ensures lz_step(s, d + rem) == (lz_step(s, d).0, lz_step(s, d).1 + rem, lz_step(s, d).2),
//@ {
//@     if rem.len() == 0 { assert(d + rem =~= d); let e = lz_step(s, d).1; assert(e + rem =~= e); }
//@     else {
//@         assert(window(d + rem) =~= d); assert(window(d) =~= d);
//@         assert((d + rem).subrange(32768, (d + rem).len() as int) =~= d.subrange(32768, d.len() as int) + rem);
//@     }
//@ }
//@ /// a window is processed: with a full input buffer, or with all data in it
//@ proof fn lemma_follows_step(flush: Flush, data: Seq<u8>, k: int, s0: Lz, d0: Seq<u8>, s: Lz, d: Seq<u8>) -> (z: (Lz, Seq<u8>, Option<int>))
//@     requires
//@         follows(flush, data, k, s0, d0, s, d), !s.last, 0 <= s.overlap <= 32768, d.len() <= 65794, 0 <= k <= data.len(),
//@         d.len() == 65794 || flush is Finish && k == data.len() || flush is Sync, // [P17]
//@     ensures
//@         z == lz_step(s, d),
//@         match z.2 { None => follows(flush, data, k, s0, d0, z.0, z.1), Some(p) => hop(flush, data, k, s0, d0, z.0, z.1, true, p) },
//@ {
//@     hide(lz_step); hide(leads);
//@     let z = lz_step(s, d); let x = data.subrange(0, k);
//@     assert forall|rem: Seq<u8>, bs: Seq<Block>| rest_ok(flush, data, k, rem) && z.2 is None implies #[trigger] reach(s0, d0, x, z.0, z.1, rem, bs) by {
//@         assert(reach(s0, d0, x, s, d, rem, bs)); lemma_step_ext(s, d, rem);
//@         lemma_leads_step(Run { s: s0, u: d0 + x + rem, bs }, Run { s, u: d + rem, bs });
//@     }
//@     assert forall|rem: Seq<u8>, bs: Seq<Block>| rest_ok(flush, data, k, rem) && z.2 is Some implies #[trigger] hop1(s0, d0, x, z.0, z.1, true, z.2->0, rem, bs) by {
//@         assert(reach(s0, d0, x, s, d, rem, bs)); lemma_step_ext(s, d, rem);
//@         lemma_leads_step(Run { s: s0, u: d0 + x + rem, bs }, Run { s, u: d + rem, bs });
//@     }
//@     z
//@ }
//@ proof fn lemma_hop_sync(data: Seq<u8>, k: int, s0: Lz, d0: Seq<u8>, s: Lz, d: Seq<u8>, stop: bool, cp: int)
//@     ensures hop(Flush::Sync, data, k, s0, d0, s, d, stop, cp),
//@ {}
//@ /// the end: everything was output
//@ proof fn lemma_finished(flush: Flush, h: Seq<u8>, blk: int, d: Seq<u8>, s1: LZ77State, s: LZ77State, w: DynamicWriter, end: int, r: (usize, ProcessStatus), t: LZ77State)
//@     requires chunk_done(h, blk, d, s1, s, w, end, r), r.1 is Ok, !s1.is_last_block, end >= d.len(), flush is Finish || flush is Sync,
//@         t.current_block_input_bytes == s1.current_block_input_bytes + end - s1.ws() - s1.overlap + r.0 + s1.pend() - s.pend(),
//@         t.is_last_block == (flush is Finish), flush is Finish ==> !t.was_synced,
//@         t.matching_type == s.matching_type, t.max_hash_checks == s.max_hash_checks,
//@         flush is Sync ==> t == (LZ77State { current_block_input_bytes: t.current_block_input_bytes, overlap: (d.len() - s1.ws()) as usize, was_synced: true, ..s }),
//@     ensures block_post(flush, h, blk, t, d, w, LZ77Status::Finished, d.len() as int), d.len() <= 65536,
//@ {
//@     lemma_window_done(h, blk, d, s1, s, w, end, r);
//@ }
//@ /// What process_chunk leaves behind when lz77_compress_block calls it.
//@ pub open spec fn chunk_done(h: Seq<u8>, blk: int, d: Seq<u8>, s1: LZ77State, s: LZ77State, w: DynamicWriter, end: int, r: (usize, ProcessStatus)) -> bool {
//@     let start = s1.ws() + s1.overlap;
//@     &&& s1.overlap <= 32768 && !s1.was_synced && start <= end && end == at_most(32768 + s1.ws(), d.len() as int)
//@     &&& chunk_post(h, blk, h.len() - d.len(), start, end, d.len() as int, s1.pend(), s.pend(), w, r)
//@     &&& s.match_state.wf(h, h.len() - d.len() + next_pos(end, r)) && s.hash_table.wf() && tokens_for(s.matching_type, s.max_hash_checks, w@)
//@     &&& !uses_lazy(s.matching_type, s.max_hash_checks) ==> !s.match_state.add
//@     &&& s1.wf(d, h) && 0 <= blk && s1.current_block_input_bytes == s1.done(d, h) - blk
//@     &&& s == (LZ77State { hash_table: s.hash_table, match_state: s.match_state, bytes_to_hash: r.0, ..s1 })
//@ }
//@ /// the block ends
//@ proof fn lemma_end_block(flush: Flush, h: Seq<u8>, blk: int, d: Seq<u8>, s1: LZ77State, s: LZ77State, w: DynamicWriter, end: int, r: (usize, ProcessStatus))
//@     requires chunk_done(h, blk, d, s1, s, w, end, r), r.1 is BufferFull, !s1.is_last_block,
//@     ensures ({
//@         let x = r.1->BufferFull_0;
//@         let t = LZ77State { current_block_input_bytes: (s1.current_block_input_bytes + x - s1.ws() - s1.overlap + s1.pend() - s.pend()) as u64,
//@             is_first_window: s1.is_first_window && r.0 == 0,
//@             overlap: if r.0 > 0 && s1.is_first_window { r.0 } else { (x - s1.ws()) as usize }, ..s };
//@         &&& 0 <= s1.current_block_input_bytes + x - s1.ws() - s1.overlap + s1.pend() - s.pend() <= 258 * 31744
//@         &&& s1.ws() <= x && s.pend() <= x
//@         &&& block_post(flush, h, blk, t, d, w, LZ77Status::EndBlock, x - s.pend())
//@     }),
//@ {
//@     lemma_covers_bound(h, blk, h.len() - d.len() + next_pos(end, r) - s.pend(), w@);
//@ }
//@ /// everything up to the end of the window was looked at
//@ proof fn lemma_window_done(h: Seq<u8>, blk: int, d: Seq<u8>, s1: LZ77State, s: LZ77State, w: DynamicWriter, end: int, r: (usize, ProcessStatus))
//@     requires chunk_done(h, blk, d, s1, s, w, end, r), r.1 is Ok, !s1.is_last_block,
//@     ensures ({
//@         let n = s1.current_block_input_bytes + end - s1.ws() - s1.overlap + r.0 + s1.pend() - s.pend();
//@         let t = LZ77State { current_block_input_bytes: n as u64, overlap: r.0, ..s };
//@         &&& 0 <= n <= 258 * 31744
//@         &&& end >= d.len() ==> r.0 == 0 && s.pend() == 0 && covers(h, blk, h.len() as int, w@) && n == h.len() - blk
//@         &&& end >= d.len() ==> (LZ77State { overlap: (d.len() - s1.ws()) as usize, was_synced: true, ..t }).wf(d, h)
//@         &&& end == 32768 && s1.is_first_window ==> (LZ77State { is_first_window: false, ..t }).wf(d, h) && (LZ77State { is_first_window: false, ..t }).block(d, h, blk, w@)
//@         &&& end == 65536 && !s1.is_first_window ==> (LZ77State { overlap: (r.0 + 32768) as usize, ..t }).wf(d, h) && (LZ77State { overlap: (r.0 + 32768) as usize, ..t }).block(d, h, blk, w@)
//@     }),
//@ {
//@     lemma_covers_bound(h, blk, h.len() - d.len() + next_pos(end, r) - s.pend(), w@);
//@ }
//@ #[verifier::rlimit(150)]
pub fn lz77_compress_block(
    data: &[u8],
    state: &mut LZ77State,
    buffer: &mut InputBuffer,
    /*-{*/mut/*-}{ }*/ writer: &mut DynamicWriter,
    flush: Flush,
    /*@ Ghost(h): Ghost<Seq<u8>>, Ghost(blk): Ghost<int> @*/
) -> /*@ (r: @*/ (usize, LZ77Status, usize) /*@ ) @*/
//@     requires
//@         old(state).wf(old(buffer)@, h), old(state).block(old(buffer)@, h, blk, old(writer)@), old(writer).room(), !old(state).is_last_block,
//@     ensures
//@         r.0 <= data@.len(),
//@         block_post(flush, h + data@.subrange(0, r.0 as int), blk, *final(state), final(buffer)@, *final(writer), r.1, r.2 as int), // [P01 P09 P12]
//@         !(r.1 is EndBlock) ==> r.0 == data@.len(), // [P04]
//@         final(state).max_hash_checks == old(state).max_hash_checks && final(state).lazy_if_less_than == old(state).lazy_if_less_than
//@             && final(state).matching_type == old(state).matching_type, // [P12 P06]
//@         !old(state).was_synced ==> hop(flush, data@, r.0 as int, old(state).lz(old(writer)@), old(buffer)@, final(state).lz(final(writer)@), final(buffer)@, !(r.1 is NeedInput), r.2 as int), // [P17]
//@         !old(state).was_synced && !(flush is Sync) ==> !final(state).was_synced, // [P17]
{
    //@ hide(follows); hide(hop); hide(lz_step); hide(tab_adds); hide(slid); hide(covers); hide(is_match); hide(tail_of); hide(DynamicWriter::wf); hide(tokens_for); hide(LZ77State::wf); hide(LZ77State::block); hide(block_post); hide(chunk_done); hide(ChunkState::wf);
    //@ let ghost s0 = *state;
    //@ proof { crate::vx::axiom_slice_len(data); lemma_open(s0, buffer@, h, blk, writer@); }
    let window_size = DEFAULT_WINDOW_SIZE;
    let finish = flush == Flush::Finish || flush == Flush::Sync;
    let sync = flush == Flush::Sync;
    let mut current_position = 0;
    let mut status = LZ77Status::EndBlock;
    let mut add_initial = true;
    if state.was_synced {
        if buffer.current_end() > 2 {
            let pos_add = buffer.current_end() - 2;
            for (n, __b) in /*@ it: @*/ (0..data.len()).zip(data.iter().take(2))
            //@     invariant it.seq().len() <= 2, forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i, state.hash_table.wf(), pos_add + 2 <= 65536, state.same_but_hash(s0),
            { let b = *__b;
                state.hash_table.add_hash_value(n + pos_add, b);
            }
            add_initial = false;
        }
        state.was_synced = false;
    }
    //@ let ghost sy = s0.was_synced; let ghost l0 = s0.lz(writer@); let ghost d00 = buffer@;
    //@ proof { if !sy { lemma_follows_refl(flush, data@, l0, d00); } }
    //@ let ghost mut k = lesser(65794 - buffer@.len(), data@.len() as int);
    //@ let ghost mut hh = h + data@.subrange(0, k);
    //@ proof { lemma_frame(s0, *state, buffer@, h, blk, writer@); lemma_more(*state, buffer@, h, data@.subrange(0, k), blk, writer@); }
    let mut remaining_data = buffer.add_data(data);
    //@ let ghost s3 = *state;
    //@ proof { if !sy { lemma_follows_more(flush, data@, 0, k, l0, d00, l0, d00); } }
    //@ proof { lemma_open(s3, buffer@, hh, blk, writer@); }
    if state.overlap > window_size {
        if state.max_hash_checks > 0 {
            state.hash_table.slide(window_size);
        }
        //@ let ghost d0 = buffer@;
        remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
        state.overlap -= window_size;
        //@ proof {
        //@     if !sy {
        //@         let e = d0.subrange(32768, d0.len() as int);
        //@         lemma_follows_slide(flush, data@, k, l0, d00, s3.lz(writer@), d0);
        //@         lemma_follows_more(flush, data@, k, k + lesser(32768, data@.len() - k), l0, d00, state.lz(writer@), e);
        //@     }
        //@     let x = data@.subrange(k, k + lesser(32768, data@.len() - k));
        //@     assert(buffer@ =~= d0.subrange(32768, d0.len() as int) + x);
        //@     lemma_frame(s3, LZ77State { overlap: s3.overlap, ..*state }, d0, hh, blk, writer@);
        //@     assert((LZ77State { overlap: (state.overlap + 32768) as usize, ..*state }) == (LZ77State { overlap: s3.overlap, ..*state }));
        //@     lemma_slide(*state, d0, hh, x, blk, writer@);
        //@     assert(hh + x =~= h + data@.subrange(0, k + x.len()));
        //@     hh = hh + x; k = k + x.len();
        //@ }
    }
    loop
    //@     invariant_except_break
    //@         state.wf(buffer@, hh), state.overlap <= 32768, state.block(buffer@, hh, blk, writer@), writer.room(), !state.was_synced, !state.is_last_block,
    //@         status is EndBlock, current_position == 0,
    //@         !sy ==> follows(flush, data@, k, l0, d00, state.lz(writer@), buffer@) && (add_initial || !state.is_first_window), // [P17]
    //@     invariant
    //@         0 <= k <= data@.len(), hh == h + data@.subrange(0, k), window_size == 32768, finish == (flush is Finish || flush is Sync), sync == (flush is Sync),
    //@         match remaining_data { Some(x) => k < data@.len() && x@ == data@.subrange(k, data@.len() as int) && buffer@.len() == 65794, None => k == data@.len() },
    //@         state.max_hash_checks == old(state).max_hash_checks && state.lazy_if_less_than == old(state).lazy_if_less_than
    //@             && state.matching_type == old(state).matching_type,
    //@     ensures
    //@         block_post(flush, hh, blk, *state, buffer@, *writer, status, current_position as int), !(status is EndBlock) ==> k == data@.len(),
    //@         !sy ==> hop(flush, data@, k, l0, d00, state.lz(writer@), buffer@, !(status is NeedInput), current_position as int), // [P17]
    //@         !sy && !(flush is Sync) ==> !state.was_synced, // [P17]
    //@     decreases 2 * (h.len() + data@.len() - (hh.len() - buffer@.len())) + b2n(state.is_first_window),
    {
        //@ let ghost s1 = *state; let ghost d1 = buffer@; let ghost h1 = hh; let ghost base = hh.len() - buffer@.len(); let ghost w1 = writer@;
        //@ proof { lemma_open(s1, d1, h1, blk, w1); }
        let pending_previous = state.pending_byte_as_num();
        if !(writer.buffer_length() <= (window_size * 2)) { crate::vx::panic(); }
        if buffer.current_end() >= (window_size * 2) + MAX_MATCH || finish {
            if state.is_first_window {
                if buffer.get_buffer().len() >= 2
                    && add_initial
                    && state.current_block_input_bytes == 0
                {
                    let b = buffer.get_buffer();
                    state.hash_table.add_initial_hash_values(b[0], b[1]);
                    add_initial = false;
                }
            } else if buffer.current_end() >= window_size + 2 {
                //@ proof { reveal(tab_adds); }
                for (n, __h) in /*@ it: @*/ /*-{*/buffer.get_buffer()(0..[window_size + 2..].len()).zip([window_size + 2..].iter())
                    .take(state.bytes_to_hash)/*-}{(0..state.bytes_to_hash).zip(buffer.get_buffer()[window_size + 2..].iter())}*/
                //@     invariant state.hash_table.wf(), state.same_but_hash(s1), s1.bytes_to_hash <= 258, window_size == 32768,
                //@         d1.len() >= 32770, it.seq().len() == at_most(s1.bytes_to_hash as int, d1.len() - 32770), 0 <= it.index@ <= it.seq().len(),
                //@         forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == d1[32770 + i],
                //@         state.hash_table.tab() == tab_adds(s1.hash_table.tab(), d1, it.index@), // [P17]
                { let h = *__h;
                    //@ let ghost i = it.index@; let ghost t = state.hash_table.tab();
                    state.hash_table.add_hash_value(window_size + n, h);
                    //@ proof { reveal(tab_adds); assert(state.hash_table.tab() == tab_adds(s1.hash_table.tab(), d1, i + 1)); }
                }
                state.bytes_to_hash = 0;
            }
            let window_start = if state.is_first_window {
                0
            } else {
                window_size
            };
            let start = state.overlap + window_start;
            let end = ({ let __a =window_size + window_start ; let __b = buffer.current_end() ; if __b < __a { __b } else { __a } });
            //@ let ghost t1 = state.hash_table.tab(); let ghost z1 = lz_step(s1.lz(w1), d1);
            //@ assert(!sy ==> t1 == hashed(s1.lz(w1), d1)); // [P17]
            let (overlap, p_status) = process_chunk(
                buffer.get_buffer(),
                &(start..end),
                &mut state.match_state,
                &mut state.hash_table,
                /*-{*/&mut/*-}{ }*/ writer,
                state.max_hash_checks,
                state.lazy_if_less_than as usize,
                state.matching_type,
                /*@ Ghost(hh), Ghost(blk) @*/
            );
            //@ assume(chunk_of(d1, start as int, end as int, s1.match_state, t1, w1, s1.max_hash_checks, s1.lazy_if_less_than, s1.matching_type) == (Chunk { r: (overlap, p_status), ms: state.match_state, tab: state.hash_table.tab(), ts: writer@ })); // ASSUMED: process_chunk is a function of its arguments

            state.bytes_to_hash = overlap;
            //@ let ghost s2 = *state;
            //@ proof { if !sy { lemma_follows_step(flush, data@, k, l0, d00, s1.lz(w1), d1); reveal(lz_step); assert(window(d1) =~= d1); } }
            //@ proof {
            //@     assert(chunk_done(hh, blk, buffer@, s1, s2, *writer, end as int, (overlap, p_status))) by { reveal(chunk_done); reveal(LZ77State::block); }
            //@     if p_status is Ok { lemma_window_done(hh, blk, buffer@, s1, s2, *writer, end as int, (overlap, p_status)); }
            //@     else { lemma_end_block(flush, hh, blk, buffer@, s1, s2, *writer, end as int, (overlap, p_status)); }
            //@ }
            if let ProcessStatus::BufferFull(written) = p_status {
                state.current_block_input_bytes +=
                    (written - start + pending_previous - state.pending_byte_as_num()) as u64;
                state.overlap = if overlap > 0 && state.is_first_window {
                    state.is_first_window = false;
                    overlap
                } else {
                    written - window_start
                };
                current_position = written - state.pending_byte_as_num();
                break;
            }
            state.current_block_input_bytes +=
                (end - start + overlap + pending_previous - state.pending_byte_as_num()) as u64;
            state.overlap = overlap;
            //@ let ghost s4 = *state;
            if (state.is_first_window || remaining_data.is_none())
                && finish
                && end >= buffer.current_end()
            {
                current_position = if state.is_first_window {
                    end - state.pending_byte_as_num()
                } else {
                    if !(
                        !state.pending_byte()) { crate::vx::panic(); }
                    buffer.current_end()
                };
                if !sync {
                    state.set_last();
                    state.is_first_window = false;
                } else {
                    state.overlap = if state.is_first_window {
                        end
                    } else {
                        buffer.current_end() - window_size
                    };
                    state.was_synced = true;
                }
                status = LZ77Status::Finished;
                //@ proof { lemma_finished(flush, hh, blk, buffer@, s1, s2, *writer, end as int, (overlap, p_status), *state); if sync { lemma_hop_sync(data@, k, l0, d00, state.lz(writer@), buffer@, true, current_position as int); } }
                break;
            } else if state.is_first_window {
                state.is_first_window = false;
            } else {
                if state.max_hash_checks > 0 {
                    state.hash_table.slide(window_size);
                }
                //@ let ghost d0 = buffer@;
                remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
                //@ proof {
                //@     if !sy { lemma_follows_more(flush, data@, k, k + lesser(32768, data@.len() - k), l0, d00, state.lz(writer@), d0.subrange(32768, d0.len() as int)); }
                //@     let x = data@.subrange(k, k + lesser(32768, data@.len() - k));
                //@     assert(buffer@ =~= d0.subrange(32768, d0.len() as int) + x);
                //@     lemma_frame(LZ77State { overlap: (s4.overlap + 32768) as usize, ..s4 }, LZ77State { overlap: (state.overlap + 32768) as usize, ..*state }, d0, hh, blk, writer@);
                //@     lemma_slide(*state, d0, hh, x, blk, writer@);
                //@     assert(hh + x =~= h + data@.subrange(0, k + x.len()));
                //@     hh = hh + x; k = k + x.len();
                //@ }
            }
        } else {
            status = LZ77Status::NeedInput;
            //@ proof { reveal(block_post); if !sy { lemma_follows_hop(flush, data@, k, l0, d00, state.lz(writer@), buffer@, 0); } }
            break;
        }
    }
    (
        data.len() - remaining_data.unwrap_or(&[]).len(),
        status,
        current_position,
    )
}
