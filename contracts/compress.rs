use crate::vx::io;
use crate::vx::io::Write;
//@ use crate::rfc::*; use crate::stream::*; use crate::lz::*; use crate::split::*; use crate::lz77::{rest_ok, hop, hop1}; use crate::output_writer::toks; use crate::deflate_state::{Hist, blocks_for}; use crate::huffman_lengths::{header_of, dynamic_ok}; use crate::cost::*; use crate::lz77::{block_post, tokens_for, LZ77State, lemma_covers_bound};

use crate::bitstream::LsbWriter;
use crate::deflate_state::DeflateState;
use crate::encoder_state::EncoderState;
use crate::huffman_lengths::{gen_huffman_lengths, write_huffman_lengths, BlockType};
use crate::lz77::{lz77_compress_block, LZ77Status};
use crate::lzvalue::LZValue;
use crate::stored_block::{compress_block_stored, write_stored_header, MAX_STORED_BLOCK_LENGTH};

pub const LARGEST_OUTPUT_BUF_SIZE: usize = 1024 * 32;

#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub enum Flush {

    None,

    Sync,
    _Partial,
    _Block,
    _Full,

    Finish,
}

//@ proof fn lemma_toks_push(b: Seq<LZValue>, n: int)
//@     requires 0 <= n < b.len(),
//@     ensures toks(b.subrange(0, n + 1)) == toks(b.subrange(0, n)).push(b[n]@),
//@ { assert(toks(b.subrange(0, n + 1)) =~= toks(b.subrange(0, n)).push(b[n]@)); }
pub fn flush_to_bitstream(buffer: &[LZValue], state: &mut EncoderState)
//@     requires old(state).wf(), all_coded(toks(buffer@), old(state).ll(), old(state).dd()),
//@     ensures
//@         final(state).wf(), final(state).huffman_table == old(state).huffman_table, final(state).writer.w@.len() >= old(state).writer.w@.len(),
//@         final(state).writer@ == old(state).writer@ + enc_body(toks(buffer@), old(state).ll(), old(state).dd()), // [P01]
{
    //@ let ghost w0 = state.writer@; let ghost ll = state.ll(); let ghost dd = state.dd();
    //@ assert(toks(buffer@.subrange(0, 0)) =~= Seq::empty());
    //@ assert(w0 =~= w0 + enc_tokens(Seq::empty(), ll, dd));
    for __b in /*@ it: @*/ buffer
    //@     invariant
    //@         it.seq() == buffer@.map_values(|x: LZValue| &x) || true, it.seq().len() == buffer@.len(), forall|i: int| 0 <= i < buffer@.len() ==> *(#[trigger] it.seq()[i]) == buffer@[i],
    //@         state.wf(), state.huffman_table == old(state).huffman_table, state.writer.w@.len() >= old(state).writer.w@.len(), ll == old(state).ll(), dd == old(state).dd(), all_coded(toks(buffer@), ll, dd),
    //@         state.writer@ == w0 + enc_tokens(toks(buffer@.subrange(0, it.index@)), ll, dd),
    { let b = *__b;
        //@ let ghost n = it.index@; let ghost w1 = state.writer@;
        //@ proof { lemma_toks_push(buffer@, n); assert(toks(buffer@)[n] == b@); assert(toks(buffer@.subrange(0, n)).push(b@).drop_last() =~= toks(buffer@.subrange(0, n))); }
        state.write_lzvalue(b.value());
        //@ assert(state.writer@ =~= w0 + enc_tokens(toks(buffer@.subrange(0, n + 1)), ll, dd));
    }
    //@ assert(buffer@.subrange(0, buffer@.len() as int) =~= buffer@); assert(all_coded(toks(buffer@), ll, dd));
    //@ assert(w0 + enc_tokens(toks(buffer@), ll, dd) + huff(ll, 256) =~= w0 + enc_body(toks(buffer@), ll, dd));
    state.write_end_of_block()
}

//@ pub open spec fn stored_blocks(d: Seq<u8>, last: bool) -> Seq<Block> decreases d.len() {
//@     let m = MAX_STORED_BLOCK_LENGTH as int;
//@     if d.len() <= m { seq![Block::Stored(last, d)] } else { seq![Block::Stored(false, d.subrange(0, m))] + stored_blocks(d.subrange(m, d.len() as int), last) }
//@ }
//@ proof fn lemma_stored(bs: Seq<Block>, d: Seq<u8>, last: bool)
//@     requires blocks_ok(bs), bs.len() > 0 ==> !last_of(bs.last()),
//@     ensures ({
//@         let r = bs + stored_blocks(d, last);
//@         &&& blocks_ok(r) && r.len() > bs.len() && last_of(r.last()) == last && blocks_out(r) == blocks_out(bs) + d
//@         &&& forall|i: int| bs.len() <= i < r.len() ==> block_toks(#[trigger] r[i]).len() == 0
//@     }),
//@     decreases d.len(),
//@ {
//@     let m = MAX_STORED_BLOCK_LENGTH as int;
//@     if d.len() <= m {
//@         let b = Block::Stored(last, d);
//@         lemma_blocks_push(bs, b);
//@         assert(bs + stored_blocks(d, last) =~= bs.push(b));
//@         assert(tokens_ok(blocks_out(bs), block_toks(b)));
//@     } else {
//@         let b = Block::Stored(false, d.subrange(0, m));
//@         lemma_blocks_push(bs, b);
//@         assert(tokens_ok(blocks_out(bs), block_toks(b)));
//@         let e = d.subrange(m, d.len() as int);
//@         lemma_stored(bs.push(b), e, last);
//@         assert(bs + stored_blocks(d, last) =~= bs.push(b) + stored_blocks(e, last));
//@         assert(blocks_out(bs) + d.subrange(0, m) + e =~= blocks_out(bs) + d);
//@         let r = bs + stored_blocks(d, last);
//@         assert(r[bs.len() as int] == b);
//@         assert forall|i: int| bs.len() <= i < r.len() implies block_toks(#[trigger] r[i]).len() == 0 by { if i > bs.len() { assert(i >= bs.push(b).len()); } }
//@     }
//@ }
//@ /// so much stored blocks take
//@ proof fn lemma_stored_len(bs: Seq<Block>, d: Seq<u8>, last: bool)
//@     ensures enc_blocks(bs + stored_blocks(d, last)).len() == up8(enc_blocks(bs).len() as int + 3) + 8 * (d.len() + 5 * stored_count(d.len() as int) - 1),
//@     decreases d.len(),
//@ {
//@     hide(enc_blocks);
//@     let m = MAX_STORED_BLOCK_LENGTH as int; let at = enc_blocks(bs).len();
//@     let x = if d.len() <= m { d } else { d.subrange(0, m) };
//@     let b = Block::Stored(d.len() <= m && last, x);
//@     lemma_blocks_push(bs, b);
//@     assert(byte_bits(stored_body(x)).len() == 8 * (4 + x.len()));
//@     assert(enc_block(b, at).len() == 3 + pad((at + 3) as nat).len() + 8 * (4 + x.len()));
//@     assert(enc_blocks(bs.push(b)).len() == up8(at as int + 3) + 8 * (4 + x.len()));
//@     if d.len() <= m { assert(bs + stored_blocks(d, last) =~= bs.push(b)); }
//@     else {
//@         let e = d.subrange(m, d.len() as int);
//@         lemma_stored_len(bs.push(b), e, last);
//@         assert(bs + stored_blocks(d, last) =~= bs.push(b) + stored_blocks(e, last));
//@         assert(stored_count(d.len() as int) == stored_count(e.len() as int) + 1);
//@     }
//@ }
//@ proof fn lemma_fits_blocks(bs: Seq<Block>, d: Seq<u8>, last: bool)
//@     ensures fits(enc_blocks(bs).len() as int, enc_blocks(bs + stored_blocks(d, last)).len() as int, d.len() as int),
//@ { lemma_stored_len(bs, d, last); }
//@ proof fn lemma_pad(a: nat, b: nat)
//@     requires a % 8 == b % 8,
//@     ensures pad(a) == pad(b),
//@ { assert(pad(a) =~= pad(b)); }
//@ proof fn lemma_out_bits(x: Seq<bool>, y: Seq<bool>, w0: Seq<bool>, w1: Seq<bool>, bs: Seq<Block>, b: Block)
//@     requires x + w0 == y + enc_blocks(bs), w1 == w0 + enc_block(b, enc_blocks(bs).len()),
//@     ensures x + w1 == y + enc_blocks(bs.push(b)),
//@ {
//@     lemma_blocks_push(bs, b);
//@     let e = enc_block(b, enc_blocks(bs).len());
//@     assert(x + w1 =~= (x + w0) + e);
//@     assert(y + (enc_blocks(bs) + e) =~= (y + enc_blocks(bs)) + e);
//@ }
//@ proof fn lemma_stored_bits(x: Seq<bool>, y: Seq<bool>, w0: Seq<bool>, w1: Seq<bool>, w2: Seq<bool>, bs: Seq<Block>, last: bool, d: Seq<u8>)
//@     requires
//@         x.len() % 8 == 0, y.len() % 8 == 0, x + w0 == y + enc_blocks(bs),
//@         w1 == w0 + block_start(last, 0) + pad(w0.len() + 3), w2 == w1 + byte_bits(stored_body(d)),
//@     ensures x + w2 == y + enc_blocks(bs.push(Block::Stored(last, d))),
//@ {
//@     let at = enc_blocks(bs).len(); let b = Block::Stored(last, d);
//@     assert((x + w0).len() == x.len() + w0.len() && (y + enc_blocks(bs)).len() == y.len() + at);
//@     assert((w0.len() + 3) % 8 == (at + 3) % 8) by (nonlinear_arith) requires x.len() + w0.len() == y.len() + at, x.len() % 8 == 0, y.len() % 8 == 0;
//@     lemma_pad((w0.len() + 3) as nat, (at + 3) as nat);
//@     let s = block_start(last, 0); let p = pad((at + 3) as nat); let q = byte_bits(stored_body(d));
//@     assert(w0 + s + p + q =~= w0 + (s + p + q));
//@     assert(w2 == w0 + enc_block(b, at));
//@     lemma_out_bits(x, y, w0, w2, bs, b);
//@ }
pub fn write_stored_block(input: &[u8], /*-{*/mut/*-}{ }*/ writer: &mut LsbWriter, final_block: bool /*@ , Ghost(x): Ghost<Seq<bool>>, Ghost(y): Ghost<Seq<bool>>, Ghost(bs): Ghost<Seq<Block>> @*/)
//@     requires old(writer).wf(), x.len() % 8 == 0, y.len() % 8 == 0, x + old(writer)@ == y + enc_blocks(bs),
//@     ensures final(writer).wf(), final(writer).aligned(), final(writer).w@.len() >= old(writer).w@.len(), x + final(writer)@ == y + enc_blocks(bs + stored_blocks(input@, final_block)), // [P01 P04]
{
    //@ let ghost mut cur = bs;

    if !input.is_empty() {
        let mut i = /*-{*/input.chunks(MAX_STORED_BLOCK_LENGTH).peekable()/*-}{crate::vx::Chunks::new(input, MAX_STORED_BLOCK_LENGTH)}*/;

        //@ let ghost mut rest = input@;
        //@ let ghost all = bs + stored_blocks(input@, final_block);
        while let Some(chunk) = i.next()
        //@     invariant
        //@         writer.wf(), writer.w@.len() >= old(writer).w@.len(), x.len() % 8 == 0, y.len() % 8 == 0, x + writer@ == y + enc_blocks(cur), i.k == MAX_STORED_BLOCK_LENGTH, rest == i.s@,
        //@         if i.s@.len() > 0 { cur + stored_blocks(i.s@, final_block) == all } else { cur == all && writer.aligned() },
        //@     ensures i.s@.len() == 0,
        //@     decreases i.s@.len(),
        {
            //@ let ghost w0 = writer@; let ghost s0 = cur + stored_blocks(rest, final_block);
            //@ assert(rest =~= chunk@ + i.s@); assert(rest.subrange(0, chunk@.len() as int) =~= chunk@); assert(rest.subrange(chunk@.len() as int, rest.len() as int) =~= i.s@);
            //@ proof { rest = i.s@; }
            let last_chunk = i.peek().is_none();

            write_stored_header(writer, final_block && last_chunk);
            //@ let ghost w1 = writer@; let ghost b = Block::Stored(final_block && last_chunk, chunk@);
            //@ proof { writer.lemma_aligned(); lemma_byte_bits_add(writer.w@, stored_body(chunk@)); }
            compress_block_stored(chunk, /*-{*/&mut writer/*-}{writer}*/).expect("Write error");
            //@ proof {
            //@     writer.lemma_aligned();
            //@     assert(chunk@.subrange(0, chunk@.len() as int) =~= chunk@);
            //@     assert(writer@ =~= w1 + byte_bits(stored_body(chunk@)));
            //@     lemma_stored_bits(x, y, w0, w1, writer@, cur, final_block && last_chunk, chunk@);
            //@     if !last_chunk { assert(s0 =~= cur.push(b) + stored_blocks(i.s@, final_block)); } else { assert(s0 =~= cur.push(b)); }
            //@     cur = cur.push(b);
            //@ }
        }
    } else {

        //@ let ghost w0 = writer@;
        write_stored_header(writer, final_block);
        //@ let ghost w1 = writer@; let ghost e = Seq::<u8>::empty();
        //@ proof { writer.lemma_aligned(); lemma_byte_bits_add(writer.w@, stored_body(e)); }
        compress_block_stored(&[], /*-{*/&mut writer/*-}{writer}*/).expect("Write error");
        //@ proof {
        //@     writer.lemma_aligned();
        //@     assert(input@ =~= e);
        //@     assert(writer@ =~= w1 + byte_bits(stored_body(e)));
        //@     lemma_stored_bits(x, y, w0, w1, writer@, cur, final_block, e);
        //@     assert(bs + stored_blocks(e, final_block) =~= bs.push(Block::Stored(final_block, e)));
        //@ }
    }
}

//@ pub proof fn lemma_fixed_coded(ts: Seq<Token>)
//@     requires forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]),
//@     ensures all_coded(ts, fixed_ll(), fixed_dd()),
//@ {
//@     assert forall|i: int| 0 <= i < ts.len() implies token_range(#[trigger] ts[i]) && token_coded(ts[i], fixed_ll(), fixed_dd()) by {
//@         match ts[i] {
//@             Token::Lit(_) => {}
//@             Token::Match(l, d) => { crate::huffman_table::lemma_len_table(l - 3); crate::huffman_table::lemma_dist_table(d); }
//@         }
//@     }
//@ }
//@ /// one more block of tokens
//@ proof fn lemma_token_block(h: Seq<u8>, blk: int, to: int, bs: Seq<Block>, b: Block)
//@     requires
//@         blocks_ok(bs), blocks_out(bs) == h.subrange(0, blk), 0 <= blk <= h.len(), bs.len() > 0 ==> !last_of(bs.last()),
//@         block_ok(b), !(b is Stored), covers(h, blk, to, block_toks(b)),
//@     ensures
//@         blocks_ok(bs.push(b)), blocks_out(bs.push(b)) == h.subrange(0, to), blk <= to <= h.len(), last_of(bs.push(b).last()) == last_of(b),
//@ { lemma_covers_expand(h, blk, to, block_toks(b)); lemma_blocks_push(bs, b); }
//@ proof fn lemma_tail_sub(d: Seq<u8>, h: Seq<u8>, p: int, q: int)
//@     requires tail_of(d, h), 0 <= p <= q <= d.len(),
//@     ensures d.subrange(p, q) == h.subrange(h.len() - d.len() + p, h.len() - d.len() + q),
//@ { assert(d.subrange(p, q) =~= h.subrange(h.len() - d.len() + p, h.len() - d.len() + q)) by { assert forall|i: int| 0 <= i < q - p implies d.subrange(p, q)[i] == h.subrange(h.len() - d.len() + p, h.len() - d.len() + q)[i] by { lemma_tail_index(d, h, p + i); } } }
//@ impl<W: Write> DeflateState<W> {
//@     /// what a call leaves alone
//@     pub open spec fn kept(&self, o: Self) -> bool {
//@         self.same_options(o) && self.gh@.sink0 == o.gh@.sink0 && self.gh@.pre == o.gh@.pre && self.gh@.tail == o.gh@.tail && self.flush_mode == o.flush_mode
//@     }
//@     /// how much there is left to do: blocks to close, input to put into blocks, output to hand on
//@     pub open spec fn stage(&self, flush: Flush) -> int { if self.lz77_state.is_last_block || (flush is Sync && self.needs_flush) { 0 } else { 1 } }
//@     pub open spec fn pend(&self) -> int { self.gh@.h.len() - self.gh@.blk }
//@     pub open spec fn rest(&self) -> int { self.out().len() - self.output_buf_pos }
//@     pub open spec fn fuel(&self) -> int { self.inner->0.fuel() as int }
//@     /// there is less left to do than in `o`
//@     pub open spec fn nearer(&self, o: Self, flush: Flush) -> bool {
//@         self.fuel() < o.fuel() || self.fuel() == o.fuel() && (self.stage(flush) < o.stage(flush) || self.stage(flush) == o.stage(flush) && (self.pend() < o.pend() || self.pend() == o.pend() && self.rest() < o.rest()))
//@     }
//@     pub open spec fn no_farther(&self, o: Self, flush: Flush) -> bool {
//@         self.fuel() < o.fuel() || self.fuel() == o.fuel() && (self.stage(flush) < o.stage(flush) || self.stage(flush) == o.stage(flush) && (self.pend() < o.pend() || self.pend() == o.pend() && self.rest() <= o.rest()))
//@     }
//@     /// all blocks are there, the last byte is not filled up yet
//@     pub open spec fn unpadded(&self) -> bool {
//@         &&& self.sink_ok() && self.blocks_wf() && self.counts_ok() && self.encoder_state.writer.wf()
//@         &&& self.lz77_state.is_last_block && !self.lz77_state.was_synced && self.gh@.tail.len() == 0 && self.out_bits() == byte_bits(self.gh@.pre) + enc_blocks(self.gh@.bs)
//@     }
//@     pub open spec fn settled(&self, flush: Flush) -> bool { self.lz77_state.is_last_block || (flush is Sync && self.synced()) }
//@     /// everything is as in `o`, except that the writer has taken more of the output buffer
//@     pub open spec fn sent(&self, o: Self, n: int) -> bool {
//@         &&& 0 <= n && o.output_buf_pos + n <= o.out().len()
//@         &&& self.inner is Some && self.inner->0.ok() && o.inner is Some
//@         &&& self.inner->0.sink() == o.inner->0.sink() + o.out().subrange(o.output_buf_pos as int, o.output_buf_pos + n)
//@         &&& if o.output_buf_pos + n < o.out().len() {
//@             &&& *self == (DeflateState { inner: self.inner, output_buf_pos: self.output_buf_pos, ..o })
//@             &&& self.output_buf_pos == o.output_buf_pos + n
//@         } else {
//@             &&& self.output_buf_pos == 0 && self.out().len() == 0 && !self.needs_flush
//@             &&& self.encoder_state.writer.acc == o.encoder_state.writer.acc && self.encoder_state.writer.bits == o.encoder_state.writer.bits
//@             &&& self.gh@ == (Hist { gone: o.gh@.gone + o.out(), ..o.gh@ })
//@             &&& *self == (DeflateState { inner: self.inner, output_buf_pos: self.output_buf_pos, encoder_state: self.encoder_state, gh: self.gh, needs_flush: self.needs_flush, ..o })
//@         }
//@     }
//@     pub proof fn lemma_sent(&self, o: Self, n: int)
//@         requires o.wf(), self.sent(o, n),
//@         ensures self.wf(), self.inner->0.sink().len() == o.inner->0.sink().len() + n,
//@     {
//@         let pos = o.output_buf_pos as int; let out = o.out();
//@         assert(out.subrange(0, pos) + out.subrange(pos, pos + n) =~= out.subrange(0, pos + n));
//@         let s = o.gh@.sink0 + o.gh@.gone;
//@         assert(s + out.subrange(0, pos) + out.subrange(pos, pos + n) =~= s + out.subrange(0, pos + n));
//@         if pos + n == out.len() {
//@             assert(out.subrange(0, pos + n) =~= out);
//@             assert(self.inner->0.sink() =~= self.gh@.sink0 + self.gh@.gone + self.out().subrange(0, 0));
//@             lemma_byte_bits_add(o.gh@.gone, out);
//@             assert(self.out_bits() =~= o.out_bits());
//@         }
//@     }
//@     /// the output buffer was only added to
//@     pub proof fn lemma_out_prefix(&self, o: Self, e: Seq<bool>)
//@         requires o.sink_ok(), self.inner == o.inner, self.output_buf_pos == o.output_buf_pos, self.gh@.gone == o.gh@.gone, self.gh@.sink0 == o.gh@.sink0,
//@             self.out().len() >= o.out().len(), self.out_bits() == o.out_bits() + e,
//@         ensures self.sink_ok(),
//@     {
//@         let g = byte_bits(o.gh@.gone); let a = o.encoder_state.writer@; let b = self.encoder_state.writer@;
//@         assert(b =~= (g + b).subrange(g.len() as int, (g + b).len() as int));
//@         assert(a + e =~= (g + a + e).subrange(g.len() as int, (g + a + e).len() as int));
//@         let x = lsb(o.encoder_state.writer.acc, o.encoder_state.writer.bits as nat); let y = lsb(self.encoder_state.writer.acc, self.encoder_state.writer.bits as nat);
//@         assert(byte_bits(self.out()) + y =~= byte_bits(o.out()) + (x + e));
//@         lemma_byte_prefix(o.out(), self.out(), x + e, y);
//@         assert(self.out().subrange(0, self.output_buf_pos as int) =~= self.out().subrange(0, o.out().len() as int).subrange(0, o.output_buf_pos as int));
//@     }
//@     pub proof fn lemma_padded(&self, o: Self)
//@         requires o.unpadded() || o.wf() && o.encoder_state.writer.aligned(), self.encoder_state.writer.wf(), self.encoder_state.writer.aligned(),
//@             self.out().len() >= o.out().len(), self.encoder_state.writer@ == o.encoder_state.writer@ + pad(o.encoder_state.writer@.len()),
//@             o.encoder_state.writer.aligned() ==> self.encoder_state.writer.w@ == o.encoder_state.writer.w@,
//@             *self == (DeflateState { encoder_state: self.encoder_state, ..o }),
//@             o.unpadded() && !o.needs_flush || o.wf(),
//@         ensures self.wf(),
//@     {
//@         hide(enc_blocks); hide(blocks_ok); hide(crate::deflate_state::blocks_for); hide(size_limit); hide(blocks_out); hide(crate::lz77::LZ77State::wf); hide(crate::lz77::LZ77State::block);
//@         let n = o.encoder_state.writer@.len();
//@         assert(self.out_bits() =~= o.out_bits() + pad(n));
//@         self.lemma_out_prefix(o, pad(n));
//@         if o.wf() && o.encoder_state.writer.aligned() {
//@             o.encoder_state.writer.lemma_aligned();
//@             self.encoder_state.writer.lemma_aligned();
//@         } else {
//@             let b = enc_blocks(o.gh@.bs);
//@             assert(o.out_bits().len() == (byte_bits(o.gh@.pre) + b).len());
//@             lemma_pad(n, b.len());
//@             assert(self.out_bits() =~= o.out_bits() + pad(n));
//@             assert(o.gh@.tail =~= Seq::empty());
//@             assert(self.want_bits() =~= byte_bits(self.gh@.pre) + b + pad(b.len()));
//@         }
//@     }
//@     proof fn lemma_open(&self)
//@         requires self.wf(),
//@         ensures self.output_buf_pos <= self.out().len(), self.inner is Some, self.inner->0.ok(), self.encoder_state.writer.wf(),
//@             self.gh@.blk <= self.gh@.h.len(), self.bytes_written == self.gh@.h.len(), self.bytes_written_control.count == self.gh@.blk,
//@             self.lz77_state.is_last_block ==> self.encoder_state.writer.aligned(),
//@             self.needs_flush && !self.lz77_state.is_last_block ==> self.encoder_state.writer.aligned() && self.synced(),
//@             self.needs_flush ==> self.out().len() > 0, self.rest() >= 0, self.output_buf_pos > 0 ==> self.rest() > 0,
//@             !self.lz77_state.is_last_block ==> {
//@                 &&& self.lz77_state.wf(self.input_buffer@, self.gh@.h) && self.lz77_state.block(self.input_buffer@, self.gh@.h, self.gh@.blk, self.lz77_writer@)
//@                 &&& self.lz77_writer.room() && blocks_ok(self.gh@.bs) && blocks_out(self.gh@.bs) == self.gh@.h.subrange(0, self.gh@.blk)
//@                 &&& self.gh@.bs.len() > 0 ==> !last_of(self.gh@.bs.last())
//@                 &&& byte_bits(self.gh@.gone) + self.encoder_state.writer@ == byte_bits(self.gh@.pre) + enc_blocks(self.gh@.bs)
//@             },
//@     {}
//@     proof fn lemma_open_end(&self)
//@         requires self.wf() || self.unpadded(),
//@         ensures self.encoder_state.writer.wf(), self.unpadded() ==> self.lz77_state.is_last_block,
//@     {}
//@     /// the writer has taken nothing
//@     pub open spec fn unsent(&self, o: Self) -> bool {
//@         &&& self.inner is Some && o.inner is Some && self.inner->0.ok() && self.inner->0.sink() == o.inner->0.sink()
//@         &&& *self == (DeflateState { inner: self.inner, ..o })
//@     }
//@     proof fn lemma_unsent(&self, o: Self)
//@         requires o.wf(), self.unsent(o),
//@         ensures self.wf(),
//@     {}
//@     /// the writer is as far as before, but a sync block was added
//@     proof fn lemma_synced(&self, o: Self, cs: Seq<Block>)
//@         requires o.wf(), !o.lz77_state.is_last_block, o.gh@.blk == o.gh@.h.len(), cs == seq![Block::Stored(false, Seq::empty())],
//@             self.encoder_state.writer.wf(), self.encoder_state.writer.aligned(), self.out().len() >= o.out().len(),
//@             byte_bits(o.gh@.gone) + self.encoder_state.writer@ == byte_bits(o.gh@.pre) + enc_blocks(o.gh@.bs + cs),
//@             up8(enc_blocks(o.gh@.bs).len() as int) + 40 <= size_limit(o.gh@.blk, o.gh@.ends),
//@             self.gh@ == (Hist { bs: o.gh@.bs + cs, ..o.gh@ }), self.lz77_state == o.lz77_state, self.lz77_writer == o.lz77_writer, self.input_buffer@ == o.input_buffer@,
//@             self.inner == o.inner, self.output_buf_pos == o.output_buf_pos, self.bytes_written == o.bytes_written, self.bytes_written_control == o.bytes_written_control,
//@         ensures self.wf(), self.synced(), // [P05]
//@     {
//@         let e = Seq::<u8>::empty(); let nb = o.gh@.bs; let b = Block::Stored(false, e);
//@         assert(nb + cs =~= nb.push(b));
//@         lemma_blocks_push(nb, b);
//@         assert(tokens_ok(blocks_out(nb), block_toks(b)));
//@         assert(blocks_out(nb) + e =~= blocks_out(nb));
//@         assert(cs =~= stored_blocks(e, false)); lemma_fits_blocks(nb, e, false);
//@         let f = lemma_enc_more(nb, cs);
//@         let gy = byte_bits(o.gh@.pre);
//@         assert(gy + enc_blocks(nb + cs) =~= (gy + enc_blocks(nb)) + f);
//@         self.lemma_out_prefix(o, f);
//@         assert(enc_blocks(nb.push(b)).len() >= enc_blocks(nb).len() + 3);
//@         assert((byte_bits(o.gh@.gone) + self.encoder_state.writer@).len() > (byte_bits(o.gh@.gone) + o.encoder_state.writer@).len());
//@         self.encoder_state.writer.lemma_aligned();
//@         if self.out().len() == 0 { assert(self.encoder_state.writer@ =~= Seq::empty()); }
//@     }
//@ }
//@ proof fn lemma_enc_more(bs: Seq<Block>, cs: Seq<Block>) -> (e: Seq<bool>)
//@     ensures enc_blocks(bs + cs) == enc_blocks(bs) + e,
//@     decreases cs.len(),
//@ {
//@     if cs.len() == 0 { assert(bs + cs =~= bs); assert(enc_blocks(bs) + Seq::empty() =~= enc_blocks(bs)); Seq::empty() }
//@     else {
//@         let e = lemma_enc_more(bs, cs.drop_last());
//@         assert((bs + cs).drop_last() =~= bs + cs.drop_last());
//@         let f = enc_block(cs.last(), enc_blocks(bs + cs.drop_last()).len());
//@         assert(enc_blocks(bs + cs) =~= enc_blocks(bs) + (e + f));
//@         e + f
//@     }
//@ }
//@ /// What lz77_compress_block changes.
//@ pub open spec fn taken<W: Write>(m: DeflateState<W>, a: DeflateState<W>, x: Seq<u8>, flush: Flush, status: LZ77Status, cp: int) -> bool {
//@     &&& m == (DeflateState { lz77_state: m.lz77_state, input_buffer: m.input_buffer, lz77_writer: m.lz77_writer, bytes_written: m.bytes_written, gh: m.gh, ..a })
//@     &&& block_post(flush, a.gh@.h + x, a.gh@.blk, m.lz77_state, m.input_buffer@, m.lz77_writer, status, cp)
//@     &&& m.same_options(a)
//@     &&& m.bytes_written == a.bytes_written + x.len() && m.gh@ == (Hist { h: a.gh@.h + x, ..a.gh@ })
//@ }
//@ proof fn lemma_need_input<W: Write>(m: DeflateState<W>, a: DeflateState<W>, x: Seq<u8>, flush: Flush, status: LZ77Status, cp: int)
//@     requires a.wf(), !a.lz77_state.is_last_block, !a.needs_flush, taken(m, a, x, flush, status, cp), status is NeedInput,
//@     ensures m.wf(), m.kept(a), !m.lz77_state.is_last_block, !(flush is Finish), !(flush is Sync),
//@ {
//@     assert((a.gh@.h + x).subrange(0, a.gh@.blk) =~= a.gh@.h.subrange(0, a.gh@.blk));
//@ }
//@ /// The tokens of the block stand for the next bytes.
//@ proof fn lemma_taken<W: Write>(m: DeflateState<W>, a: DeflateState<W>, x: Seq<u8>, flush: Flush, status: LZ77Status, cp: int)
//@     requires a.wf(), !a.lz77_state.is_last_block, !a.needs_flush, taken(m, a, x, flush, status, cp), !(status is NeedInput),
//@     ensures ({
//@         let h = m.gh@.h; let blk = a.gh@.blk; let to = blk + m.lz77_state.current_block_input_bytes;
//@         &&& 0 <= blk <= to <= h.len() && covers(h, blk, to, m.lz77_writer@)
//@         &&& tail_of(m.input_buffer@, h) && 0 <= cp <= m.input_buffer@.len() && h.len() - m.input_buffer@.len() + cp == to
//@         &&& blocks_out(a.gh@.bs) == h.subrange(0, blk)
//@         &&& status is EndBlock ==> blk < to
//@         &&& m.lz77_writer.wf()
//@         &&& forall|i: int| 0 <= i < m.lz77_writer@.len() ==> token_range(#[trigger] m.lz77_writer@[i])
//@         &&& m.lz77_state.is_last_block == (status is Finished && flush is Finish) && (m.lz77_state.is_last_block ==> !m.lz77_state.was_synced)
//@         &&& status is Finished ==> flush is Finish || flush is Sync
//@         &&& m.lz77_state.current_block_input_bytes <= 258 * 31744 && m.lz77_writer@.len() <= 31744
//@         &&& status is EndBlock ==> to - blk >= 31744 // [P11]
//@         &&& enc_body(m.lz77_writer@, fixed_ll(), fixed_dd()).len() <= 9 * (to - blk) + 7
//@     }),
//@ {
//@     let h = m.gh@.h; let blk = a.gh@.blk; let to = blk + m.lz77_state.current_block_input_bytes;
//@     assert(h.subrange(0, blk) =~= a.gh@.h.subrange(0, blk));
//@     lemma_covers_len(h, blk, to, m.lz77_writer@); lemma_covers_bound(h, blk, to, m.lz77_writer@);
//@     assert forall|i: int| 0 <= i < m.lz77_writer@.len() implies token_range(#[trigger] m.lz77_writer@[i]) by { assert(token_range(m.lz77_writer.buffer@[i]@)); }
//@     lemma_fixed_small(h, blk, to, m.lz77_writer@);
//@ }
//@ /// The block is written: ready for the next one, or finished.
//@ proof fn lemma_block_written<W: Write>(z: DeflateState<W>, m: DeflateState<W>, a: DeflateState<W>, x: Seq<u8>, flush: Flush, status: LZ77Status, cp: int, cs: Seq<Block>)
//@     requires
//@         a.wf(), !a.lz77_state.is_last_block, !a.needs_flush, taken(m, a, x, flush, status, cp), !(status is NeedInput),
//@         z.lz77_state == (LZ77State { current_block_input_bytes: 0, ..m.lz77_state }), z.input_buffer@ == m.input_buffer@, z.lz77_writer.wf(), z.lz77_writer.buffer@.len() == 0,
//@         z.inner == a.inner, z.output_buf_pos == a.output_buf_pos, z.needs_flush == a.needs_flush, z.bytes_written == m.bytes_written,
//@         z.bytes_written_control.count == a.gh@.blk + m.lz77_state.current_block_input_bytes, z.compression_options == a.compression_options, z.flush_mode == a.flush_mode,
//@         z.gh@ == (Hist { bs: a.gh@.bs + cs, blk: a.gh@.blk + m.lz77_state.current_block_input_bytes, ends: a.gh@.ends + if status is Finished { 1int } else { 0 }, ..m.gh@ }),
//@         fits(enc_blocks(a.gh@.bs).len() as int, enc_blocks(a.gh@.bs + cs).len() as int, m.lz77_state.current_block_input_bytes as int),
//@         z.encoder_state.writer.wf(), z.out().len() >= a.out().len(), byte_bits(a.gh@.gone) + z.encoder_state.writer@ == byte_bits(a.gh@.pre) + enc_blocks(a.gh@.bs + cs),
//@         blocks_ok(a.gh@.bs + cs), blocks_out(a.gh@.bs + cs) == m.gh@.h.subrange(0, z.gh@.blk), cs.len() > 0, last_of((a.gh@.bs + cs).last()) == m.lz77_state.is_last_block,
//@         forall|i: int| 0 <= i < cs.len() ==> block_toks(#[trigger] cs[i]) == m.lz77_writer@ || block_toks(cs[i]).len() == 0,
//@     ensures
//@         z.kept(a), if m.lz77_state.is_last_block { z.unpadded() } else { z.wf() },
//@         status is Finished ==> z.gh@.blk == z.gh@.h.len() && up8(enc_blocks(z.gh@.bs).len() as int) + 40 <= size_limit(z.gh@.blk, z.gh@.ends),
//@ {
//@     hide(enc_blocks); hide(blocks_ok); hide(blocks_out); hide(byte_bits);
//@     lemma_taken(m, a, x, flush, status, cp);
//@     let bs = a.gh@.bs;
//@     let e = lemma_enc_more(bs, cs);
//@     assert(byte_bits(a.gh@.pre) + enc_blocks(bs + cs) =~= (byte_bits(a.gh@.pre) + enc_blocks(bs)) + e);
//@     z.lemma_out_prefix(a, e);
//@     let mt = z.lz77_state.matching_type; let mc = z.lz77_state.max_hash_checks;
//@     assert forall|i: int| 0 <= i < (bs + cs).len() implies tokens_for(mt, mc, block_toks(#[trigger] (bs + cs)[i])) by {
//@         if i < bs.len() { assert((bs + cs)[i] == bs[i]); } else { assert((bs + cs)[i] == cs[i - bs.len()]); }
//@     }
//@     if !m.lz77_state.is_last_block {
//@         let d = z.input_buffer@; let h = z.gh@.h;
//@         assert(z.lz77_writer@ =~= Seq::empty());
//@         assert(z.lz77_state.wf(d, h));
//@         assert(z.lz77_state.block(d, h, z.gh@.blk, z.lz77_writer@));
//@     }
//@ }
//@ proof fn lemma_at(x: Seq<bool>, y: Seq<bool>, w0: Seq<bool>, bs: Seq<Block>, p: int)
//@     requires x.len() % 8 == 0, y.len() % 8 == 0, x + w0 == y + enc_blocks(bs), w0.len() % 8 == p % 8,
//@     ensures enc_blocks(bs).len() % 8 == p % 8,
//@ { let e = enc_blocks(bs); assert((x + w0).len() == x.len() + w0.len()); assert((y + e).len() == y.len() + e.len()); lemma_mod8(x.len() as int, w0.len() as int, y.len() as int, enc_blocks(bs).len() as int); }
//@ proof fn lemma_mod8(x: int, w: int, y: int, e: int)
//@     requires x % 8 == 0, y % 8 == 0, x + w == y + e,
//@     ensures e % 8 == w % 8,
//@ {}
//@ proof fn lemma_fits_dynamic(bs: Seq<Block>, l: bool, hd: Header, ll: Seq<u8>, dd: Seq<u8>, ts: Seq<Token>, n: int, p: int)
//@     requires header_ok(hd, ll, dd), forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]), n > 4, 0 <= p < 8, enc_blocks(bs).len() % 8 == p, dynamic_cost(hd, ts, ll, dd) <= stored_cost(n, p),
//@     ensures fits(enc_blocks(bs).len() as int, enc_blocks(bs.push(Block::Dynamic(l, hd, ll, dd, ts))).len() as int, n),
//@ {
//@     let b = Block::Dynamic(l, hd, ll, dd, ts); let at = enc_blocks(bs).len();
//@     lemma_blocks_push(bs, b); lemma_dynamic_cost(hd, ts, ll, dd);
//@     assert(enc_block(b, at) =~= block_start(l, 2) + (enc_header(hd) + enc_body(ts, ll, dd)));
//@     lemma_fits_stored(at as int, n, p, dynamic_cost(hd, ts, ll, dd));
//@ }
//@ proof fn lemma_fits_fixed(bs: Seq<Block>, l: bool, ts: Seq<Token>, n: int, p: int)
//@     requires forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]), n >= 0, 0 <= p < 8, enc_blocks(bs).len() % 8 == p,
//@         if n > 4 { body_cost(ts, fixed_ll(), fixed_dd()) <= stored_cost(n, p) } else { enc_body(ts, fixed_ll(), fixed_dd()).len() <= 9 * n + 7 },
//@     ensures fits(enc_blocks(bs).len() as int, enc_blocks(bs.push(Block::Fixed(l, ts))).len() as int, n),
//@ {
//@     let b = Block::Fixed(l, ts); let at = enc_blocks(bs).len();
//@     lemma_blocks_push(bs, b); lemma_body_cost(ts, fixed_ll(), fixed_dd());
//@     let c = enc_body(ts, fixed_ll(), fixed_dd()).len() as int;
//@     assert(enc_block(b, at).len() == 3 + c);
//@     if n > 4 { lemma_fits_stored(at as int, n, p, c); } else { lemma_fits_small(at as int, n, c); }
//@ }
//@ /// after the first `k` bytes of `input`, `z` is on the way of `o`
//@ pub open spec fn going<W: Write>(o: DeflateState<W>, z: DeflateState<W>, flush: Flush, input: Seq<u8>, k: int) -> bool {
//@     forall|rem: Seq<u8>| rest_ok(flush, input, k, rem) && o.det(input.subrange(0, k) + rem) ==> #[trigger] z.det(rem)
//@ }
//@ proof fn lemma_going_start<W: Write>(o: DeflateState<W>, z: DeflateState<W>, flush: Flush, input: Seq<u8>)
//@     requires o.needs_flush && !(flush is Sync) || z == o,
//@     ensures going(o, z, flush, input, 0),
//@ {
//@     assert forall|rem: Seq<u8>| rest_ok(flush, input, 0, rem) && o.det(input.subrange(0, 0) + rem) implies #[trigger] z.det(rem) by { assert(input.subrange(0, 0) + rem =~= rem); }
//@ }
//@ /// only the output changed
//@ proof fn lemma_going_same<W: Write>(o: DeflateState<W>, y: DeflateState<W>, z: DeflateState<W>, flush: Flush, input: Seq<u8>, k: int)
//@     requires going(o, y, flush, input, k), flush is Sync || z.lz77_state == y.lz77_state && z.lz77_writer == y.lz77_writer && z.input_buffer == y.input_buffer && z.gh@.h == y.gh@.h && z.gh@.bs == y.gh@.bs && (z.needs_flush ==> y.needs_flush) && z.compression_options == y.compression_options,
//@     ensures going(o, z, flush, input, k),
//@ {
//@     assert forall|rem: Seq<u8>| rest_ok(flush, input, k, rem) && o.det(input.subrange(0, k) + rem) implies #[trigger] z.det(rem) by { assert(y.det(rem)); }
//@ }
//@ /// `n` more bytes were taken (the beginning of `slice`), and a block was output if `stop`
//@ proof fn lemma_going_on<W: Write>(o: DeflateState<W>, a: DeflateState<W>, m: DeflateState<W>, z: DeflateState<W>, flush: Flush, input: Seq<u8>, k: int, slice: Seq<u8>, n: int, stop: bool, cp: int)
//@     requires
//@         going(o, a, flush, input, k), 0 <= n <= slice.len(), 0 <= k <= input.len(), slice == input.subrange(k, input.len() as int), m.same_options(a),
//@         !a.lz77_state.was_synced ==> hop(flush, slice, n, a.lz77_state.lz(a.lz77_writer@), a.input_buffer@, m.lz77_state.lz(m.lz77_writer@), m.input_buffer@, stop, cp),
//@         !a.lz77_state.was_synced && !(flush is Sync) ==> !m.lz77_state.was_synced,
//@         m.gh@.h == a.gh@.h + slice.subrange(0, n), m.gh@.bs == a.gh@.bs, m.needs_flush == a.needs_flush,
//@         z.gh@.h == m.gh@.h, z.needs_flush == a.needs_flush, z.input_buffer@ == m.input_buffer@, z.compression_options == a.compression_options,
//@         if stop {
//@             let s = m.lz77_state; let d = m.input_buffer@;
//@             &&& z.lz77_state == (LZ77State { current_block_input_bytes: 0, ..s }) && z.lz77_writer.buffer@.len() == 0
//@             &&& 0 <= cp <= d.len()
//@             &&& form_of(m.lz77_writer@, s.current_block_input_bytes as int, (enc_blocks(a.gh@.bs).len() % 8) as int) is Stored ==> s.current_block_input_bytes <= cp
//@             &&& z.gh@.bs == a.gh@.bs + new_blocks(form_of(m.lz77_writer@, s.current_block_input_bytes as int, (enc_blocks(a.gh@.bs).len() % 8) as int), m.lz77_writer@, s.is_last_block,
//@                 d.subrange(cp - s.current_block_input_bytes, cp)) // [P17]
//@         } else { z == m },
//@     ensures going(o, z, flush, input, k + n),
//@ {
//@     hide(leads); hide(enc_blocks);
//@     let x = slice.subrange(0, n); let d = m.input_buffer@; let s = m.lz77_state; let w = s.lz(m.lz77_writer@);
//@     assert forall|rem: Seq<u8>| rest_ok(flush, input, k + n, rem) && o.det(input.subrange(0, k + n) + rem) implies #[trigger] z.det(rem) by {
//@         let rem0 = x + rem;
//@         assert(input.subrange(0, k) + rem0 =~= input.subrange(0, k + n) + rem);
//@         if flush is Finish { assert(rem0 =~= input.subrange(k, input.len() as int)); assert(rem =~= slice.subrange(n, slice.len() as int)); }
//@         assert(rest_ok(flush, input, k, rem0)); assert(rest_ok(flush, slice, n, rem));
//@         assert(a.det(rem0));
//@         let a0 = a.lz77_state.lz(a.lz77_writer@); let bs = a.gh@.bs;
//@         assert(hop1(a0, a.input_buffer@, x, w, d, stop, cp, rem, bs));
//@         assert(a.gh@.h + rem0 =~= z.gh@.h + rem);
//@         assert(a.input_buffer@ + rem0 =~= a.input_buffer@ + x + rem);
//@         let f = run0(s.max_hash_checks, s.lazy_if_less_than, s.matching_type, z.gh@.h + rem);
//@         let t = Run { s: z.lz77_state.lz(z.lz77_writer@), u: z.input_buffer@ + rem, bs: z.gh@.bs };
//@         if stop {
//@             let p = put(w, d + rem, bs, cp); let c = s.current_block_input_bytes as int;
//@             assert(z.lz77_writer@ =~= Seq::empty());
//@             if c <= cp { assert((d + rem).subrange(cp - c, cp) =~= d.subrange(cp - c, cp)); }
//@             assert(t.s == p.s); assert(t.u == p.u); assert(t.bs == p.bs);
//@         }
//@         lemma_leads_trans(f, Run { s: a0, u: a.input_buffer@ + rem0, bs }, t);
//@     }
//@ }
//@ #[verifier::rlimit(200)]
pub fn compress_data_dynamic_n<W: Write>(
    input: &[u8],
    deflate_state: &mut DeflateState<W>,
    flush: Flush,
) -> /*@ (r: @*/ io::Result<usize> /*@ ) @*/
//@     requires old(deflate_state).wf(),
//@     ensures
//@         final(deflate_state).wf(), // [P01 P04 P05 P06 P08]
//@         final(deflate_state).kept(*old(deflate_state)),
//@         match r {
//@             Ok(n) => n <= input@.len() && final(deflate_state).gh@.h == old(deflate_state).gh@.h + input@.subrange(0, n as int),
//@             Err(_) => final(deflate_state).gh@.h == old(deflate_state).gh@.h,
//@         }, // [P04 P08]
//@         old(deflate_state).lz77_state.is_last_block ==> final(deflate_state).lz77_state.is_last_block && (r is Ok ==> r->Ok_0 == 0), // [P04]
//@         final(deflate_state).lz77_state.is_last_block && !old(deflate_state).lz77_state.is_last_block ==> flush is Finish && final(deflate_state).gh@.h == old(deflate_state).gh@.h + input@, // [P01 P04]
//@         r is Ok && r->Ok_0 == 0 && (flush is Finish || flush is Sync) ==> final(deflate_state).settled(flush) && final(deflate_state).encoder_state.writer.aligned(), // [P01 P04 P05]
//@         r is Ok && r->Ok_0 == 0 && input@.len() > 0 ==> old(deflate_state).lz77_state.is_last_block || flush is Sync, // [P04 P08]
//@         r is Ok && r->Ok_0 == 0 && (flush is Finish || flush is Sync) ==> final(deflate_state).out().len() == 0 || final(deflate_state).inner->0.sink().len() > old(deflate_state).inner->0.sink().len(), // [P08]
//@         final(deflate_state).inner->0.sink().len() >= old(deflate_state).inner->0.sink().len(), // [P08]
//@         flush is None && r is Ok && !old(deflate_state).needs_flush ==> !final(deflate_state).needs_flush,
//@         W::same(old(deflate_state).inner->0, final(deflate_state).inner->0), final(deflate_state).fuel() <= old(deflate_state).fuel(), final(deflate_state).gh@.blk >= old(deflate_state).gh@.blk,
//@         old(deflate_state).inner->0.sure() ==> final(deflate_state).inner->0.sure() && (r is Err ==> r->Err_0.k is Interrupted), // [P07 P08]
//@         r is Ok && r->Ok_0 == 0 && (flush is Finish || flush is Sync) ==> final(deflate_state).out().len() == 0 || final(deflate_state).nearer(*old(deflate_state), flush), // [P07 P08]
//@         r is Err && r->Err_0.k is Interrupted ==> final(deflate_state).nearer(*old(deflate_state), flush), // [P07 P08]
//@         if flush is None { final(deflate_state).gh@.ends <= old(deflate_state).gh@.ends } else { final(deflate_state).gh@.ends <= old(deflate_state).gh@.ends + old(deflate_state).stage(flush) }, // [P11]
//@         flush is Finish || flush is Sync && (r is Err || final(deflate_state).out().len() > 0) ==> final(deflate_state).gh@.ends + final(deflate_state).stage(flush) <= old(deflate_state).gh@.ends + old(deflate_state).stage(flush), // [P11]
//@         going(*old(deflate_state), *final(deflate_state), flush, input@, match r { Ok(n) => n as int, Err(_) => 0 }), // [P17]
//@     decreases (if flush is Sync { 0int } else { 1 }),
{
    //@ hide(going); hide(hop); hide(DeflateState::wf); hide(DeflateState::unpadded); hide(DeflateState::sink_ok); hide(DeflateState::blocks_wf); hide(blocks_ok); hide(blocks_out); hide(enc_blocks); hide(enc_block); hide(covers); hide(block_post); hide(LZ77State::wf); hide(LZ77State::block); hide(stored_blocks); hide(tail_of); hide(enc_header); hide(header_ok); hide(all_coded); hide(fixed_ll); hide(fixed_dd); hide(kraft_ok); hide(byte_bits); hide(enc_tokens); hide(enc_body); hide(up8); hide(fits); hide(size_limit); hide(stored_cost); hide(dynamic_cost); hide(body_cost);
    //@ let ghost o = *deflate_state; let ghost h0 = deflate_state.gh@.h;
    //@ proof { assert(input@.subrange(0, 0) =~= Seq::<u8>::empty()); assert(h0 + input@.subrange(0, 0) =~= h0); assert(h0 + Seq::<u8>::empty() =~= h0); assert(input@.subrange(0, input@.len() as int) =~= input@); }

    if deflate_state.needs_flush && flush != Flush::Sync {
        //@ assert forall|z: DeflateState<W>| o.needs_flush && !(flush is Sync) implies #[trigger] going(o, z, flush, input@, 0) by { lemma_going_start(o, z, flush, input@); }
        compress_data_dynamic_n(&[], deflate_state, Flush::Sync)?;
        //@ let ghost z = *deflate_state;
        //@ proof { lemma_going_start(o, z, flush, input@); z.lemma_open(); o.lemma_open(); }
        if deflate_state.needs_flush {
            return Err(io::Error::new(
                io::ErrorKind::Interrupted,
                "Internal buffer full.",
            ));
        }
    }

    let mut bytes_written = 0;

    let mut slice = input;
    //@ assume(h0.len() + input@.len() <= u64::MAX); // ASSUMED: less than 2^64 bytes of input
    //@ let ghost s0 = *deflate_state;
    //@ proof { lemma_going_start(o, s0, flush, input@); }
    //@ proof { o.lemma_open(); s0.lemma_open(); if !(o.needs_flush && !(flush is Sync)) { W::same_refl(o.inner->0); } assert(s0.no_farther(o, flush)); crate::vx::axiom_slice_len(input); }

    //@ assert forall|x: W| W::same(s0.inner->0, x) implies #[trigger] W::same(o.inner->0, x) by { W::same_trans(o.inner->0, s0.inner->0, x); }
    while !deflate_state.needs_flush
    //@     invariant_except_break
    //@         deflate_state.gh@.ends == s0.gh@.ends,
    //@         deflate_state.wf(), slice@ == input@.subrange(bytes_written as int, input@.len() as int),
    //@         deflate_state.gh@.blk == s0.gh@.blk ==> deflate_state.out() == s0.out(), s0.needs_flush ==> deflate_state.needs_flush, deflate_state.needs_flush || s0.lz77_state.is_last_block ==> deflate_state.gh@.blk == s0.gh@.blk,
    //@         deflate_state.lz77_state.is_last_block == s0.lz77_state.is_last_block, deflate_state.needs_flush ==> flush is Sync && bytes_written == 0 && s0.needs_flush && deflate_state.encoder_state.writer.aligned() && deflate_state.settled(flush),
    //@     invariant
    //@         s0.wf(), s0.kept(o), o.wf(), o == *old(deflate_state), h0 == o.gh@.h, s0.gh@.h == h0, s0.lz77_state.is_last_block == o.lz77_state.is_last_block,
    //@         s0.inner->0.sink().len() >= o.inner->0.sink().len(),
    //@         bytes_written <= input@.len() <= usize::MAX, deflate_state.gh@.h == h0 + input@.subrange(0, bytes_written as int), h0.len() + input@.len() <= u64::MAX,
    //@         deflate_state.kept(s0), deflate_state.inner == s0.inner,
    //@         s0.gh@.ends <= o.gh@.ends, s0.stage(flush) == o.stage(flush),
    //@         s0.needs_flush ==> flush is Sync, s0.lz77_state.is_last_block ==> bytes_written == 0,
    //@         W::same(o.inner->0, s0.inner->0), forall|x: W| W::same(s0.inner->0, x) ==> #[trigger] W::same(o.inner->0, x), s0.fuel() <= o.fuel(), s0.gh@.blk >= o.gh@.blk, o.inner->0.sure() ==> s0.inner->0.sure(), s0.no_farther(o, flush), deflate_state.gh@.blk >= s0.gh@.blk,
    //@         deflate_state.output_buf_pos == s0.output_buf_pos,
    //@         going(o, *deflate_state, flush, input@, bytes_written as int), // [P17]
    //@     ensures
    //@         flush is None || deflate_state.stage(flush) < s0.stage(flush) || deflate_state.encoder_state.writer.aligned() && deflate_state.wf() && deflate_state.out() == s0.out() && deflate_state.gh@.blk == s0.gh@.blk && deflate_state.stage(flush) == s0.stage(flush),
    //@         deflate_state.unpadded() && !deflate_state.needs_flush || deflate_state.wf() && deflate_state.encoder_state.writer.aligned(),
    //@         deflate_state.settled(flush) || flush is None,
    //@         deflate_state.gh@.ends + deflate_state.stage(flush) <= s0.gh@.ends + s0.stage(flush), flush is None ==> deflate_state.gh@.ends == s0.gh@.ends,
    //@         deflate_state.lz77_state.is_last_block && !s0.lz77_state.is_last_block ==> flush is Finish && bytes_written == input@.len(),
    //@         s0.lz77_state.is_last_block ==> deflate_state.lz77_state.is_last_block,
    //@         bytes_written < input@.len() ==> bytes_written == 0 && (flush is Sync || s0.lz77_state.is_last_block),
    //@         deflate_state.needs_flush ==> flush is Sync,
    //@     decreases h0.len() + input@.len() - deflate_state.gh@.blk,
    {
        //@ let ghost a = *deflate_state;
        //@ proof { a.lemma_open(); assert(slice@.len() == input@.len() - bytes_written); assert forall|z: DeflateState<W>| z.unsent(a) implies #[trigger] z.wf() by { z.lemma_unsent(a); } }
        //@ assert forall|z: DeflateState<W>| z.unsent(a) implies #[trigger] going(o, z, flush, input@, bytes_written as int) by { lemma_going_same(o, a, z, flush, input@, bytes_written as int); }
        let output_buf_len = deflate_state.output_buf().len();
        let output_buf_pos = deflate_state.output_buf_pos;

        if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
            let written = match deflate_state
                .inner
                .as_mut()
                .expect("Missing writer!")
                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])
            {
                Ok(0) if bytes_written == 0 => {
                    return Err(io::Error::new(
                        io::ErrorKind::WriteZero,
                        "Failed to write compressed data.",
                    ));
                }
                Ok(n) => n,

                Err(_) if bytes_written > 0 => return Ok(bytes_written),
                Err(e) => return Err(e),
            };

            //@ let ghost b = *deflate_state;
            //@ assert(b.inner->0.sink() == a.inner->0.sink() + a.out().subrange(a.output_buf_pos as int, a.output_buf_pos + written));
            if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {

                deflate_state.output_buf_pos += written;
            } else {

                //@ proof { deflate_state.gh@.gone = deflate_state.gh@.gone + a.out(); }
                deflate_state.needs_flush = false;
                deflate_state.output_buf_pos = 0;
                deflate_state.output_buf().clear();
            }
            //@ proof { deflate_state.lemma_sent(a, written as int); lemma_going_same(o, a, *deflate_state, flush, input@, bytes_written as int); }

            if bytes_written == 0 {

                return Err(io::Error::new(
                    io::ErrorKind::Interrupted,
                    "Internal buffer full.",
                ));
            } else {
                return Ok(bytes_written);
            }
        }

        if deflate_state.lz77_state.is_last_block() {

            break;
        }

        let (written, status, position) = lz77_compress_block(
            slice,
            &mut deflate_state.lz77_state,
            &mut deflate_state.input_buffer,
            &mut deflate_state.lz77_writer,
            flush,
            /*@ Ghost(deflate_state.gh@.h), Ghost(deflate_state.gh@.blk) @*/
        );

        //@ let ghost x = slice@.subrange(0, written as int); let ghost h = a.gh@.h + x; let ghost blk = a.gh@.blk; let ghost bs = a.gh@.bs;
        //@ proof { assert(h =~= h0 + input@.subrange(0, bytes_written + written)); }
        bytes_written += written;

        deflate_state.bytes_written += written as u64;
        //@ proof { deflate_state.gh@.h = h; }

        if status == LZ77Status::NeedInput {
            //@ proof { lemma_going_on(o, a, *deflate_state, *deflate_state, flush, input@, bytes_written - written, slice@, written as int, false, position as int); lemma_need_input(*deflate_state, a, x, flush, status, position as int); }
            return Ok(bytes_written);
        }

        //@ let ghost sl = slice@;
        slice = &slice[written..];
        //@ assert(slice@ =~= input@.subrange(bytes_written as int, input@.len() as int));
        //@ let ghost ts = deflate_state.lz77_writer@; let ghost to = blk + deflate_state.lz77_state.current_block_input_bytes; let ghost m = *deflate_state;
        //@ proof { lemma_taken(m, a, x, flush, status, position as int); }

        let last_block = deflate_state.lz77_state.is_last_block();

        let current_block_input_bytes = deflate_state.lz77_state.current_block_input_bytes();

        if true {
            deflate_state
                .bytes_written_control
                .add(current_block_input_bytes);
        }

        let partial_bits = deflate_state.encoder_state.writer.pending_bits();

        let res = {
            let (l_freqs, d_freqs) = deflate_state.lz77_writer.get_frequencies();
            let (l_lengths, d_lengths) =
                deflate_state.encoder_state.huffman_table.get_lengths_mut();

            gen_huffman_lengths(
                l_freqs,
                d_freqs,
                current_block_input_bytes,
                partial_bits,
                l_lengths,
                d_lengths,
                &mut deflate_state.length_buffers,
                /*@ Ghost(ts) @*/
            )
        };
        //@ let ghost mut cs = Seq::<Block>::empty(); let ghost gx = byte_bits(a.gh@.gone); let ghost gy = byte_bits(a.gh@.pre);
        //@ proof { assert(gx.len() % 8 == 0 && gy.len() % 8 == 0) by { reveal(byte_bits); } }
        //@ proof { lemma_at(gx, gy, deflate_state.encoder_state.writer@, bs, partial_bits as int); }
        //@ let ghost fm = form_of(ts, current_block_input_bytes as int, (partial_bits % 8) as int);
        //@ let ghost n = to - blk; let ghost pb = (partial_bits % 8) as int;
        //@ let ghost w0 = deflate_state.encoder_state.writer@; let ghost ll = deflate_state.encoder_state.ll(); let ghost dd = deflate_state.encoder_state.dd();

        match res {
            BlockType::Dynamic(header) => {
                //@ let ghost hd = header_of(header, deflate_state.length_buffers.length_buf@, ll, dd); let ghost nb1 = Block::Dynamic(last_block, hd, ll, dd, ts);

                deflate_state
                    .encoder_state
                    .write_start_of_block(false, last_block);

                write_huffman_lengths(
                    &header,
                    &deflate_state.encoder_state.huffman_table,
                    &deflate_state.length_buffers.length_buf,
                    &mut deflate_state.encoder_state.writer,
                    /*@ Ghost(ts) @*/
                );

                deflate_state
                    .encoder_state
                    .huffman_table
                    .update_from_lengths();

                flush_to_bitstream(
                    deflate_state.lz77_writer.get_buffer(),
                    &mut deflate_state.encoder_state,
                );
                //@ proof {
                //@     assert(deflate_state.encoder_state.writer@ =~= w0 + enc_block(nb1, enc_blocks(bs).len())) by { reveal(enc_block); };
                //@     lemma_out_bits(gx, gy, w0, deflate_state.encoder_state.writer@, bs, nb1);
                //@     lemma_token_block(h, blk, to, bs, nb1);
                //@     cs = seq![nb1]; assert(bs + cs =~= bs.push(nb1));
                //@     lemma_fits_dynamic(bs, last_block, hd, ll, dd, ts, n, pb);
                //@ }
            }
            BlockType::Fixed => {
                //@ let ghost nb1 = Block::Fixed(last_block, ts);
                //@ proof { lemma_fixed_coded(ts); }

                deflate_state
                    .encoder_state
                    .write_start_of_block(true, last_block);

                deflate_state.encoder_state.set_huffman_to_fixed();

                flush_to_bitstream(
                    deflate_state.lz77_writer.get_buffer(),
                    &mut deflate_state.encoder_state,
                );
                //@ proof {
                //@     assert(deflate_state.encoder_state.writer@ =~= w0 + enc_block(nb1, enc_blocks(bs).len())) by { reveal(enc_block); };
                //@     lemma_out_bits(gx, gy, w0, deflate_state.encoder_state.writer@, bs, nb1);
                //@     lemma_token_block(h, blk, to, bs, nb1);
                //@     cs = seq![nb1]; assert(bs + cs =~= bs.push(nb1));
                //@     lemma_fits_fixed(bs, last_block, ts, n, pb);
                //@ }
            }
            BlockType::Stored => {
                //@ assume(position >= current_block_input_bytes); // ASSUMED: a block chosen to be stored has not left the input buffer

                let start_pos = position.saturating_sub(current_block_input_bytes as usize);

                if !(
                    position >= current_block_input_bytes as usize) { crate::vx::panic(); }

                write_stored_block(
                    &deflate_state.input_buffer.get_buffer()[start_pos..position],
                    &mut deflate_state.encoder_state.writer,
                    flush == Flush::Finish && last_block,
                    /*@ Ghost(gx), Ghost(gy), Ghost(bs) @*/
                );
                //@ proof {
                //@     lemma_covers_expand(h, blk, to, ts);
                //@     let dat = deflate_state.input_buffer@.subrange(start_pos as int, position as int);
                //@     assert(dat =~= h.subrange(blk, to)) by { lemma_tail_sub(deflate_state.input_buffer@, h, start_pos as int, position as int); }
                //@     lemma_stored(bs, dat, last_block);
                //@     assert(h.subrange(0, blk) + h.subrange(blk, to) =~= h.subrange(0, to));
                //@     cs = stored_blocks(dat, last_block); lemma_fits_blocks(bs, dat, last_block);
                //@     assert forall|i: int| 0 <= i < cs.len() implies block_toks(#[trigger] cs[i]).len() == 0 by { assert(cs[i] == (bs + cs)[bs.len() + i]); }
                //@ }
            }
        };

        deflate_state.lz77_writer.clear();

        deflate_state.lz77_state.reset_input_bytes();
        //@ proof { deflate_state.gh@.bs = bs + cs; deflate_state.gh@.blk = to; deflate_state.gh@.ends = a.gh@.ends + if status is Finished { 1int } else { 0 }; lemma_block_written(*deflate_state, m, a, x, flush, status, position as int, cs);
        //@     lemma_going_on(o, a, m, *deflate_state, flush, input@, bytes_written - written, sl, written as int, true, position as int); }

        if status == LZ77Status::Finished {

            if flush == Flush::Sync {
                //@ let ghost b = *deflate_state; let ghost e = Seq::<u8>::empty();
                //@ assert forall|q: Seq<u8>| q.len() == 0 implies #[trigger] stored_blocks(q, false) == stored_blocks(e, false) by { assert(q =~= e); }
                write_stored_block(&[], &mut deflate_state.encoder_state.writer, false /*@ , Ghost(gx), Ghost(gy), Ghost(b.gh@.bs) @*/);
                //@ proof {
                //@     let cs = stored_blocks(e, false);
                //@     assert(cs =~= seq![Block::Stored(false, Seq::<u8>::empty())]) by { reveal(stored_blocks); }
                //@     deflate_state.gh@.bs = b.gh@.bs + cs;
                //@ }

                deflate_state.needs_flush = true;
                //@ proof { deflate_state.lemma_synced(b, stored_blocks(e, false)); lemma_going_same(o, b, *deflate_state, flush, input@, bytes_written as int); }
            } else if !deflate_state.lz77_state.is_last_block() {

                let es = &mut deflate_state.encoder_state;
                es.set_huffman_to_fixed();
                es.write_start_of_block(true, true);
                es.write_end_of_block();
            }
            break;
        }
    }

    //@ let ghost b = *deflate_state;
    //@ proof { b.lemma_open_end(); }
    deflate_state.encoder_state.flush();
    //@ proof { deflate_state.lemma_padded(b); lemma_going_same(o, b, *deflate_state, flush, input@, bytes_written as int); }
    //@ let ghost c = *deflate_state;
    //@ proof { c.lemma_open(); assert forall|z: DeflateState<W>| z.unsent(c) implies #[trigger] z.wf() by { z.lemma_unsent(c); } assert forall|z: DeflateState<W>| z.unsent(c) implies #[trigger] going(o, z, flush, input@, bytes_written as int) by { lemma_going_same(o, c, z, flush, input@, bytes_written as int); } assert(c.out().subrange(c.output_buf_pos as int, c.output_buf_pos as int).len() == 0); }

    let output_buf_pos = deflate_state.output_buf_pos;
    let written_to_writer = match deflate_state
        .inner
        .as_mut()
        .expect("Missing writer!")
        .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])
    {
        Ok(0) if bytes_written == 0 && output_buf_pos < deflate_state.output_buf().len() => {
            return Err(io::Error::new(
                io::ErrorKind::WriteZero,
                "Failed to write compressed data.",
            ));
        }
        Ok(n) => n,

        Err(_) if bytes_written > 0 => return Ok(bytes_written),
        Err(e) => return Err(e),
    };
    //@ let ghost d = *deflate_state;
    //@ assert(d.inner->0.sink() == c.inner->0.sink() + c.out().subrange(c.output_buf_pos as int, c.output_buf_pos + written_to_writer));
    if written_to_writer
        < deflate_state
            .output_buf()
            .len()
            .checked_sub(output_buf_pos)
            .unwrap()
    {
        deflate_state.output_buf_pos += written_to_writer;
    } else {

        //@ proof { deflate_state.gh@.gone = deflate_state.gh@.gone + c.out(); }
        deflate_state.output_buf_pos = 0;
        deflate_state.output_buf().clear();
        deflate_state.needs_flush = false;
    }
    //@ proof { deflate_state.lemma_sent(c, written_to_writer as int); lemma_going_same(o, c, *deflate_state, flush, input@, bytes_written as int); }

    Ok(bytes_written)
}

