/*-{*/use std::u16;/*-}{ }*/

use crate::huffman_table::{
    get_distance_code, get_length_code, END_OF_BLOCK_POSITION, NUM_DISTANCE_CODES,
    NUM_LITERALS_AND_LENGTHS,
};
use crate::lzvalue::LZValue;
//@ use crate::rfc::*; use crate::huffman_table::*;

pub type FrequencyType = u16;

pub const MAX_BUFFER_LENGTH: usize = 1024 * 31;

#[derive(Eq, PartialEq, Structural)]
pub enum BufferStatus {
    NotFull,
    Full,
}

pub struct DynamicWriter {
    pub buffer: Vec<LZValue>,

    pub frequencies: [FrequencyType; NUM_LITERALS_AND_LENGTHS],
    pub distance_frequencies: [FrequencyType; NUM_DISTANCE_CODES],
}

//@ pub open spec fn toks(b: Seq<LZValue>) -> Seq<Token> { Seq::new(b.len(), |i: int| b[i]@) }
//@ impl DynamicWriter {
//@     /// The tokens of the current block.
//@     pub open spec fn view(&self) -> Seq<Token> { toks(self.buffer@) }
//@     /// Lengths and distances are in range, the frequencies count the symbols of the tokens and the end of block.
//@     pub open spec fn wf(&self) -> bool {
//@         &&& self.buffer@.len() <= MAX_BUFFER_LENGTH
//@         &&& forall|i: int| 0 <= i < self.buffer@.len() ==> token_range(#[trigger] self.buffer@[i]@)
//@         &&& forall|s: int| 0 <= s < 286 ==> #[trigger] self.frequencies@[s] == freq_ll(self@, s)
//@         &&& forall|s: int| 0 <= s < 30 ==> #[trigger] self.distance_frequencies@[s] == freq_dd(self@, s)
//@     }
//@     pub open spec fn full(&self) -> BufferStatus { if self.buffer@.len() >= MAX_BUFFER_LENGTH { BufferStatus::Full } else { BufferStatus::NotFull } }
//@     pub open spec fn room(&self) -> bool { self.wf() && self.buffer@.len() < MAX_BUFFER_LENGTH }
//@     proof fn lemma_bounds(&self)
//@         requires self.wf(),
//@         ensures forall|s: int| 0 <= s < 286 ==> #[trigger] self.frequencies@[s] <= 31745, forall|s: int| 0 <= s < 30 ==> #[trigger] self.distance_frequencies@[s] <= 31744,
//@     {
//@         assert forall|s: int| 0 <= s < 286 implies #[trigger] self.frequencies@[s] <= 31745 by { lemma_freq_bounds(self@, s); }
//@         assert forall|s: int| 0 <= s < 30 implies #[trigger] self.distance_frequencies@[s] <= 31744 by { lemma_freq_bounds(self@, s); }
//@     }
//@ }
//@ pub proof fn lemma_freq_bounds(ts: Seq<Token>, s: int)
//@     ensures 0 <= freq_ll(ts, s) <= ts.len() + 1, 0 <= freq_dd(ts, s) <= ts.len(), s != 256 ==> freq_ll(ts, s) <= ts.len(),
//@     decreases ts.len()
//@ { if ts.len() > 0 { lemma_freq_bounds(ts.drop_last(), s); } }
//@ pub proof fn lemma_freq_eob(ts: Seq<Token>)
//@     ensures freq_ll(ts, 256) >= 1,
//@     decreases ts.len()
//@ { if ts.len() > 0 { lemma_freq_eob(ts.drop_last()); } }
//@ pub proof fn lemma_freq_pos(ts: Seq<Token>, i: int)
//@     requires 0 <= i < ts.len(),
//@     ensures freq_ll(ts, ll_sym(ts[i])) > 0, dd_sym(ts[i]) >= 0 ==> freq_dd(ts, dd_sym(ts[i])) > 0,
//@     decreases ts.len()
//@ {
//@     lemma_freq_bounds(ts.drop_last(), ll_sym(ts[i])); lemma_freq_bounds(ts.drop_last(), dd_sym(ts[i]));
//@     if i < ts.len() - 1 { lemma_freq_pos(ts.drop_last(), i); }
//@ }
impl DynamicWriter {
    pub fn check_buffer_length(&self) -> /*@(r:@*/ BufferStatus /*@)@*/
    //@ ensures r == self.full(),
    {
        if self.buffer.len() >= MAX_BUFFER_LENGTH {
            BufferStatus::Full
        } else {
            BufferStatus::NotFull
        }
    }
    pub fn write_literal(&mut self, literal: u8) -> /*@(r:@*/ BufferStatus /*@)@*/
    //@ requires old(self).room(),
    //@ ensures final(self).wf(), final(self)@ == old(self)@.push(Token::Lit(literal)), r == final(self).full(),
    {
        //@ proof { self.lemma_bounds(); }

        if !(self.buffer.len() < MAX_BUFFER_LENGTH) { crate::vx::panic(); }
        self.buffer.push(LZValue::literal(literal));
        self.frequencies[usize::from(literal)] += 1;
        //@ assert(self@ =~= old(self)@.push(Token::Lit(literal)));
        //@ assert(self@.drop_last() =~= old(self)@);
        self.check_buffer_length()
    }
    pub fn write_length_distance(&mut self, length: u16, distance: u16) -> /*@(r:@*/ BufferStatus /*@)@*/
    //@ requires old(self).room(), 3 <= length <= 258, 1 <= distance <= 32768,
    //@ ensures final(self).wf(), final(self)@ == old(self)@.push(Token::Match(length as int, distance as int)), r == final(self).full(),
    {
        //@ proof { self.lemma_bounds(); lemma_len_table(length - 3); lemma_dist_table(distance as int); }

        self.buffer.push(LZValue::length_distance(length, distance));
        let l_code_num = get_length_code(length);

        self.frequencies[l_code_num] += 1;

        let d_code_num = get_distance_code(distance);

        self.distance_frequencies[usize::from(d_code_num)] += 1;
        //@ assert(self@ =~= old(self)@.push(Token::Match(length as int, distance as int)));
        //@ assert(self@.drop_last() =~= old(self)@);
        self.check_buffer_length()
    }

    pub fn buffer_length(&self) -> /*@(r:@*/ usize /*@)@*/
    //@ ensures r == self.buffer@.len(),
    {
        self.buffer.len()
    }

    pub fn get_buffer(&self) -> /*@(r:@*/ &[LZValue] /*@)@*/
    //@ ensures r@ == self.buffer@,
    {
        &self.buffer
    }

    pub fn new() -> /*@(r:@*/ DynamicWriter /*@)@*/
    //@ ensures r.wf(), r.buffer@.len() == 0, r.frequencies@ == no_ll(), r.distance_frequencies@ == no_dd(),
    {
        let mut w = DynamicWriter {
            buffer: Vec::with_capacity(MAX_BUFFER_LENGTH),
            frequencies: [0; NUM_LITERALS_AND_LENGTHS],
            distance_frequencies: [0; NUM_DISTANCE_CODES],
        };

        w.frequencies[END_OF_BLOCK_POSITION] = 1;
        //@ assert(w.frequencies@ =~= no_ll()); assert(w.distance_frequencies@ =~= no_dd());
        w
    }
    pub fn write_length_rle(&mut self, length: u16) -> /*@(r:@*/ BufferStatus /*@)@*/
    //@ requires old(self).room(), 3 <= length <= 258,
    //@ ensures final(self).wf(), final(self)@ == old(self)@.push(Token::Match(length as int, 1)), r == final(self).full(),
    {
        //@ proof { self.lemma_bounds(); lemma_len_table(length - 3); lemma_dist_table(1); assert(dist_sym(1) == 0) by (compute_only); }

        self.buffer.push(LZValue::length_distance(length, 1));
        let l_code_num = get_length_code(length);

        self.frequencies[l_code_num] += 1;

        self.distance_frequencies[0] += 1;
        //@ assert(self@ =~= old(self)@.push(Token::Match(length as int, 1)));
        //@ assert(self@.drop_last() =~= old(self)@);
        self.check_buffer_length()
    }

    pub fn get_frequencies(&self) -> /*@(r:@*/ (&[u16], &[u16]) /*@)@*/
    //@ ensures r.0@ == self.frequencies@, r.1@ == self.distance_frequencies@,
    {
        (&self.frequencies, &self.distance_frequencies)
    }

    pub fn clear_frequencies(&mut self)
    //@ ensures final(self).frequencies@ == no_ll(), final(self).distance_frequencies@ == no_dd(), final(self).buffer == old(self).buffer,
    {
        self.frequencies = [0; NUM_LITERALS_AND_LENGTHS];
        self.distance_frequencies = [0; NUM_DISTANCE_CODES];
        self.frequencies[END_OF_BLOCK_POSITION] = 1;
        //@ assert(self.frequencies@ =~= no_ll()); assert(self.distance_frequencies@ =~= no_dd());
    }

    pub fn clear_data(&mut self)
    //@ ensures final(self).frequencies == old(self).frequencies, final(self).distance_frequencies == old(self).distance_frequencies, final(self).buffer@.len() == 0,
    {
        self.buffer.clear()
    }

    pub fn clear(&mut self)
    //@ ensures final(self).wf(), final(self).buffer@.len() == 0, final(self).frequencies@ == no_ll(), final(self).distance_frequencies@ == no_dd(),
    {
        self.clear_frequencies();
        self.clear_data();
    }
}


//@ pub open spec fn no_ll() -> Seq<u16> { Seq::new(286, |i: int| if i == 256 { 1u16 } else { 0 }) }
//@ pub open spec fn no_dd() -> Seq<u16> { Seq::new(30, |i: int| 0u16) }
