use crate::vx::io::Write;
use std::{cmp, /*-{*/io,/*-}{ }*/ mem};
//@ use crate::vx::io; use crate::vx::io::WriteExt; use crate::rfc::*; use crate::stream::*; use crate::lz77::*; use crate::split::*; use crate::cost::{up8, size_limit};

use crate::compress::Flush;
use crate::compression_options::{CompressionOptions, MAX_HASH_CHECKS};
use crate::encoder_state::EncoderState;
pub use crate::huffman_table::MAX_MATCH;
use crate::huffman_table::NUM_LITERALS_AND_LENGTHS;
use crate::input_buffer::InputBuffer;
use crate::length_encode::{EncodedLength, LeafVec};
use crate::lz77::LZ77State;
use crate::output_writer::DynamicWriter;
//@ impl Default for DebugCounter { fn default() -> (r: DebugCounter) ensures r.count == 0 { DebugCounter { count: 0 } } }
pub struct DebugCounter {
    pub count: u64,
}

impl DebugCounter {
    pub const fn get(&self) -> /*@ (r: @*/ u64 /*@ ) @*/
    //@     ensures r == self.count,
    {
        self.count
    }
    pub fn reset(&mut self)
    //@     ensures final(self).count == 0,
    {
        self.count = 0;
    }
    pub fn add(&mut self, val: u64)
    //@     requires old(self).count + val <= u64::MAX,
    //@     ensures final(self).count == old(self).count + val,
    {
        self.count += val;
    }
}

pub struct LengthBuffers {
    pub leaf_buf: LeafVec,
    pub length_buf: Vec<EncodedLength>,
}

impl LengthBuffers {
    pub fn new() -> /*@ (r: @*/ LengthBuffers /*@ ) @*/
    {
        LengthBuffers {
            leaf_buf: Vec::with_capacity(NUM_LITERALS_AND_LENGTHS),
            length_buf: Vec::with_capacity(19),
        }
    }
}

//@ /// What has happened so far.
//@ pub ghost struct Hist {
//@     /// all input taken
//@     pub h: Seq<u8>,
//@     /// up to here it has been output in blocks
//@     pub blk: int,
//@     pub bs: Seq<Block>,
//@     /// what the writer had received before
//@     pub sink0: Seq<u8>,
//@     /// the part of the output that has left the output buffer
//@     pub gone: Seq<u8>,
//@     /// framing before and after the blocks
//@     pub pre: Seq<u8>, pub tail: Seq<u8>,
//@     /// how often the stream was flushed or ended
//@     pub ends: int,
//@ }
//@ pub open spec fn hist0(sink: Seq<u8>) -> Hist { Hist { h: Seq::empty(), blk: 0, bs: Seq::empty(), sink0: sink, gone: Seq::empty(), pre: Seq::empty(), tail: Seq::empty(), ends: 0 } }
pub struct DeflateState<W: Write> {

    pub lz77_state: LZ77State,
    pub input_buffer: InputBuffer,
    pub compression_options: CompressionOptions,

    pub encoder_state: EncoderState,

    pub lz77_writer: DynamicWriter,

    pub length_buffers: LengthBuffers,

    pub bytes_written: u64,

    pub inner: Option<W>,

    pub output_buf_pos: usize,
    pub flush_mode: Flush,

    pub needs_flush: bool,

    pub bytes_written_control: DebugCounter,
    /*@ pub gh: Ghost<Hist>, @*/
}

//@ impl<W: Write> DeflateState<W> {
//@     pub open spec fn out(&self) -> Seq<u8> { self.encoder_state.writer.w@ }
//@     /// all output so far, as bits
//@     pub open spec fn out_bits(&self) -> Seq<bool> { byte_bits(self.gh@.gone) + self.encoder_state.writer@ }
//@     pub open spec fn want_bits(&self) -> Seq<bool> {
//@         let b = enc_blocks(self.gh@.bs);
//@         if self.lz77_state.is_last_block { byte_bits(self.gh@.pre) + b + pad(b.len()) + byte_bits(self.gh@.tail) } else { byte_bits(self.gh@.pre) + b }
//@     }
//@     /// the writer has received all output up to the position kept
//@     pub open spec fn sink_ok(&self) -> bool {
//@         &&& self.inner is Some && self.inner->0.ok() && self.output_buf_pos <= self.out().len() && (self.output_buf_pos > 0 ==> self.output_buf_pos < self.out().len())
//@         &&& self.inner->0.sink() == self.gh@.sink0 + self.gh@.gone + self.out().subrange(0, self.output_buf_pos as int)
//@     }
//@     pub open spec fn blocks_wf(&self) -> bool {
//@         let g = self.gh@;
//@         &&& 0 <= g.blk <= g.h.len()
//@         &&& blocks_ok(g.bs) && blocks_out(g.bs) == g.h.subrange(0, g.blk)
//@         &&& g.bs.len() > 0 ==> last_of(g.bs.last()) == self.lz77_state.is_last_block
//@         &&& self.lz77_state.is_last_block ==> g.bs.len() > 0 && g.blk == g.h.len()
//@         &&& blocks_for(self.lz77_state.matching_type, self.lz77_state.max_hash_checks, g.bs)
//@         &&& 0 <= g.ends && up8(enc_blocks(g.bs).len() as int) <= size_limit(g.blk, g.ends) // [P11]
//@     }
//@     /// all input has been output, followed by an empty stored block
//@     pub open spec fn synced(&self) -> bool {
//@         self.gh@.bs.len() > 0 && self.gh@.bs.last() == Block::Stored(false, Seq::empty()) && self.gh@.blk == self.gh@.h.len()
//@     }
//@     pub open spec fn lz_ok(&self) -> bool {
//@         &&& self.lz77_state.wf(self.input_buffer@, self.gh@.h)
//@         &&& self.lz77_state.block(self.input_buffer@, self.gh@.h, self.gh@.blk, self.lz77_writer@)
//@         &&& self.lz77_writer.room()
//@     }
//@     /// If `rem` comes after what was taken so far: the blocks output and the state are what the options and the data lead to, and there was no flush.
//@     pub open spec fn det(&self, rem: Seq<u8>) -> bool {
//@         let z = self.lz77_state;
//@         &&& !self.needs_flush && !z.was_synced && self.as_told()
//@         &&& leads(run0(z.max_hash_checks, z.lazy_if_less_than, z.matching_type, self.gh@.h + rem), Run { s: z.lz(self.lz77_writer@), u: self.input_buffer@ + rem, bs: self.gh@.bs })
//@     }
//@     /// what decides is what the options say
//@     pub open spec fn as_told(&self) -> bool {
//@         let o = self.compression_options; let z = self.lz77_state;
//@         z.max_hash_checks == o.max_hash_checks && z.lazy_if_less_than == at_most(o.lazy_if_less_than as int, 32768) && z.matching_type == o.matching_type
//@     }
//@     /// the same, whatever comes
//@     pub open spec fn plain(&self) -> bool { forall|rem: Seq<u8>| #[trigger] self.det(rem) }
//@     /// the blocks are a function of the options and the data
//@     pub proof fn lemma_det_end(&self)
//@         requires self.det(Seq::empty()), self.lz77_state.is_last_block,
//@         ensures self.gh@.bs == blocks_for_data(self.compression_options, self.gh@.h), // [P17]
//@     {
//@         let z = self.lz77_state; let e = Seq::<u8>::empty();
//@         assert(self.gh@.h + e =~= self.gh@.h);
//@         lemma_blocks_of(z.max_hash_checks, z.lazy_if_less_than, z.matching_type, self.gh@.h, Run { s: z.lz(self.lz77_writer@), u: self.input_buffer@ + e, bs: self.gh@.bs });
//@     }
//@     pub proof fn lemma_plain_new(&self)
//@         requires self.fresh(), !self.lz77_state.was_synced, self.as_told(), self.gh@.h.len() == 0, self.gh@.bs.len() == 0,
//@         ensures self.plain(), // [P17]
//@     {
//@         let z = self.lz77_state;
//@         assert(z.hash_table.tab().head =~= tab0().head); assert(z.hash_table.tab().prev =~= tab0().prev);
//@         assert(self.lz77_writer@ =~= Seq::empty()); assert(self.gh@.bs =~= Seq::empty());
//@         assert(z.lz(self.lz77_writer@) == lz0(z.max_hash_checks, z.lazy_if_less_than, z.matching_type));
//@         assert forall|rem: Seq<u8>| #[trigger] self.det(rem) by {
//@             assert(self.gh@.h + rem =~= rem); assert(self.input_buffer@ + rem =~= rem);
//@             lemma_leads_refl(run0(z.max_hash_checks, z.lazy_if_less_than, z.matching_type, rem));
//@         }
//@     }
//@     pub open spec fn counts_ok(&self) -> bool { self.bytes_written == self.gh@.h.len() && self.bytes_written_control.count == self.gh@.blk }
//@     pub open spec fn wf(&self) -> bool {
//@         &&& self.sink_ok() && self.blocks_wf() && self.counts_ok()
//@         &&& self.encoder_state.writer.wf() && self.out_bits() == self.want_bits()
//@         &&& if self.lz77_state.is_last_block { self.encoder_state.writer.aligned() && !self.lz77_state.was_synced } else { self.lz_ok() && self.gh@.tail.len() == 0 }
//@         &&& self.needs_flush && !self.lz77_state.is_last_block ==> self.encoder_state.writer.aligned() && self.synced()
//@         &&& self.needs_flush ==> self.out().len() > 0
//@     }
//@     /// how often it will have been flushed or ended when it is finished now
//@     pub open spec fn due(&self) -> int { self.gh@.ends + if self.lz77_state.is_last_block { 0int } else { 1 } }
//@     /// everything that decides what happens next is as in a new encoder
//@     pub open spec fn fresh(&self) -> bool {
//@         &&& self.lz77_state.fresh() && self.input_buffer@.len() == 0 && self.lz77_writer@.len() == 0 && self.lz77_writer.wf()
//@         &&& self.encoder_state.writer.wf() && self.encoder_state.writer.aligned() && self.out().len() == 0
//@         &&& self.output_buf_pos == 0 && self.flush_mode is None && !self.needs_flush
//@         &&& self.bytes_written == 0 && self.bytes_written_control.count == 0
//@     }
//@     pub open spec fn same_options(&self, o: Self) -> bool {
//@         self.lz77_state.max_hash_checks == o.lz77_state.max_hash_checks && self.lz77_state.lazy_if_less_than == o.lz77_state.lazy_if_less_than
//@             && self.lz77_state.matching_type == o.lz77_state.matching_type && self.compression_options == o.compression_options
//@     }
//@     pub proof fn lemma_fresh(&self)
//@         requires self.fresh(), self.inner is Some, self.inner->0.ok(), self.gh@ == hist0(self.inner->0.sink()),
//@         ensures self.wf(),
//@     {
//@         let b = Seq::<bool>::empty();
//@         self.encoder_state.writer.lemma_aligned();
//@         assert(self.out_bits() =~= b); assert(self.want_bits() =~= b);
//@         assert(self.inner->0.sink() =~= self.gh@.sink0 + self.gh@.gone + self.out().subrange(0, 0));
//@         assert(self.gh@.h.subrange(0, 0) =~= blocks_out(self.gh@.bs));
//@         assert(self.gh@.h.subrange(0, 0) =~= self.input_buffer@);
//@     }
//@ }
//@ /// the blocks output for the data `h` with these options
//@ pub open spec fn blocks_for_data(o: CompressionOptions, h: Seq<u8>) -> Seq<Block> { blocks_of(o.max_hash_checks, at_most(o.lazy_if_less_than as int, 32768) as u16, o.matching_type, h) }
//@ /// the bytes output for the data `h` with these options
//@ pub open spec fn deflated(o: CompressionOptions, h: Seq<u8>) -> Seq<u8> { let b = enc_blocks(blocks_for_data(o, h)); choose|s: Seq<u8>| byte_bits(s) == b + pad(b.len()) }
//@ pub proof fn lemma_deflated(o: CompressionOptions, h: Seq<u8>, s: Seq<u8>)
//@     requires byte_bits(s) == enc_blocks(blocks_for_data(o, h)) + pad(enc_blocks(blocks_for_data(o, h)).len()),
//@     ensures s == deflated(o, h),
//@ {
//@     let t = deflated(o, h); let e = Seq::<bool>::empty();
//@     assert(byte_bits(t) == byte_bits(s)); assert(byte_bits(t).len() == 8 * t.len());
//@     assert(byte_bits(s) + e =~= byte_bits(t) + e);
//@     lemma_byte_prefix(t, s, e, e);
//@     assert(s =~= t);
//@ }
//@ /// what the options promise about the tokens of every block
//@ pub open spec fn blocks_for(mt: MatchingType, checks: u16, bs: Seq<Block>) -> bool {
//@     forall|i: int| 0 <= i < bs.len() ==> tokens_for(mt, checks, block_toks(#[trigger] bs[i]))
//@ }

impl<W: Write> DeflateState<W> {
    pub fn new(compression_options: CompressionOptions, writer: W) -> /*@ (r: @*/ DeflateState<W> /*@ ) @*/
    //@     requires writer.ok(),
    //@     ensures
    //@         r.wf(), r.inner == Some(writer), r.gh@ == hist0(writer.sink()),
    //@         r.fresh(), // [P06]
    //@         r.lz77_state.max_hash_checks == compression_options.max_hash_checks && r.lz77_state.matching_type == compression_options.matching_type, // [P12]
    //@         r.plain(), // [P17]
    //@         r.lz77_state.lazy_if_less_than <= 32768 && r.compression_options == compression_options,
    {
        //@ assert forall|x: DeflateState<W>| x.fresh() && !x.lz77_state.was_synced && x.as_told() && x.gh@.h.len() == 0 && x.gh@.bs.len() == 0 implies #[trigger] x.plain() by { x.lemma_plain_new(); }
        //@ assert forall|x: DeflateState<W>| x.fresh() && x.inner is Some && x.inner->0.ok() && x.gh@ == hist0(x.inner->0.sink()) implies #[trigger] x.wf() by { x.lemma_fresh(); }
        DeflateState {
            input_buffer: InputBuffer::empty(),
            lz77_state: LZ77State::new(
                compression_options.max_hash_checks,
                ({ let __a =compression_options.lazy_if_less_than ; let __b = MAX_HASH_CHECKS ; if __b < __a { __b } else { __a } }),
                compression_options.matching_type,
            ),
            encoder_state: EncoderState::new(Vec::with_capacity(1024 * 32)),
            lz77_writer: DynamicWriter::new(),
            length_buffers: LengthBuffers::new(),
            compression_options,
            bytes_written: 0,
            inner: Some(writer),
            output_buf_pos: 0,
            flush_mode: Flush::None,
            needs_flush: false,
            bytes_written_control: DebugCounter::default(),
            /*@ gh: Ghost(hist0(writer.sink())), @*/
        }
    }
    pub fn output_buf(&mut self) -> /*@ (r: @*/ &mut Vec<u8> /*@ ) @*/
    //@     ensures *r == old(self).encoder_state.writer.w,
    //@         *final(self) == (DeflateState { encoder_state: EncoderState { writer: crate::bitstream::LsbWriter { w: *final(r), ..old(self).encoder_state.writer }, ..old(self).encoder_state }, ..*old(self) }),
    {
        self.encoder_state.inner_vec()
    }

    pub fn reset(&mut self, writer: W) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
    //@     requires old(self).wf(), old(self).lz77_state.is_last_block, old(self).output_buf_pos == 0, writer.ok(),
    //@     ensures
    //@         final(self).same_options(*old(self)), // [P06 P12]
    //@         match r {
    //@             Ok(w) => {
    //@                 &&& final(self).wf() && final(self).gh@ == hist0(writer.sink()) && final(self).inner == Some(writer)
    //@                 &&& final(self).fresh() // [P06]
    //@                 &&& !final(self).lz77_state.was_synced // [P06]
    //@                 &&& old(self).as_told() ==> final(self).plain() // [P06 P17]
    //@                 &&& w.ok() && w.sink() == old(self).gh@.sink0 + old(self).gh@.gone + old(self).out() // [P06]
    //@             }
    //@             Err(_) => final(self).inner is Some && final(self).inner->0.ok() && old(self).out().len() > 0,
    //@         },
    {
        //@ assert(self.out().subrange(0, 0) =~= Seq::<u8>::empty()); assert(self.gh@.sink0 + self.gh@.gone + Seq::<u8>::empty() =~= self.gh@.sink0 + self.gh@.gone);
        self.encoder_state.flush();
        self.inner
            .as_mut()
            .expect("Missing writer!")
            .write_all(self.encoder_state.inner_vec())?;
        self.encoder_state.inner_vec().clear();
        self.input_buffer = InputBuffer::empty();
        self.lz77_writer.clear();
        self.lz77_state.reset();
        self.bytes_written = 0;
        self.output_buf_pos = 0;
        self.flush_mode = Flush::None;
        self.needs_flush = false;
        if true {
            self.bytes_written_control.reset();
        }
        //@ proof { self.gh@ = hist0(writer.sink()); let s = *self; DeflateState { inner: Some(writer), ..s }.lemma_fresh(); if self.as_told() { DeflateState { inner: Some(writer), ..s }.lemma_plain_new(); } }
        mem::replace(&mut self.inner, Some(writer))
            /*-{*/.ok_or_else(|| io::Error::new(io::ErrorKind::Other, "Missing writer"))/*-}{.ok_or(io::Error::new(io::ErrorKind::Other, "Missing writer"))}*/
    }
}

