use crate::vx::io::Write;
use /*-{*/std::{io, thread}/*-}{crate::vx::{io, thread}}*/;
//@ use crate::rfc::*; use crate::stream::*; use crate::deflate_state::{Hist, hist0, deflated, lemma_deflated}; use crate::zlib::{zlib_header, zlib_head}; use crate::encoder_state::EncoderState; use crate::bitstream::LsbWriter; use crate::cost::{up8, size_limit}; use crate::compress::going; use crate::lz77::rest_ok;

use crate::checksum::{Adler32Checksum, RollingChecksum};
use crate::compress::compress_data_dynamic_n;
use crate::compress::Flush;
use crate::compression_options::CompressionOptions;
use crate::deflate_state::DeflateState;
use crate::zlib::{write_zlib_header, CompressionLevel};

pub const ERR_STR: & /*@ 'static @*/ str = "Error! The wrapped writer is missing.\
                       This is a bug, please file an issue.";

//@ /// the bytes are the framing `pre`, one complete RFC 1951 stream for `data`, and the framing `tail`, after what was there before
//@ pub open spec fn complete(sink: Seq<u8>, sink0: Seq<u8>, pre: Seq<u8>, data: Seq<u8>, tail: Seq<u8>) -> bool {
//@     exists|s: Seq<u8>, bs: Seq<Block>| #[trigger] is_stream(s, bs, data) && sink == sink0 + pre + s + tail
//@ }
//@ /// `data` has taken no more than itself, the framing, and ten bytes for every 31 KiB and for every time the stream was flushed or ended
//@ pub open spec fn sized(sink: Seq<u8>, sink0: Seq<u8>, frame: nat, data: Seq<u8>, k: int) -> bool {
//@     sink.len() <= sink0.len() + frame + data.len() + 10 * (data.len() as int / 31744) + 10 * k
//@ }
//@ /// The bytes are the framing and what is output for `data`: the options and the data decide it.
//@ pub open spec fn decided(sink: Seq<u8>, sink0: Seq<u8>, pre: Seq<u8>, o: CompressionOptions, data: Seq<u8>, tail: Seq<u8>) -> bool { sink == sink0 + pre + deflated(o, data) + tail }
//@ /// ... or a part of one that ends with an empty stored block, so that a decoder can output all of `data`
//@ pub open spec fn complete_so_far(sink: Seq<u8>, sink0: Seq<u8>, pre: Seq<u8>, data: Seq<u8>) -> bool {
//@     exists|s: Seq<u8>, bs: Seq<Block>| #[trigger] is_synced(s, bs, data) && sink == sink0 + pre + s
//@ }
//@ /// the bytes between, when the bits are known
//@ proof fn lemma_between(all: Seq<u8>, pre: Seq<u8>, x: Seq<bool>, tail: Seq<u8>) -> (s: Seq<u8>)
//@     requires byte_bits(all) == byte_bits(pre) + x + byte_bits(tail),
//@     ensures all == pre + s + tail, byte_bits(s) == x,
//@ {
//@     assert(byte_bits(all).len() == (byte_bits(pre) + x + byte_bits(tail)).len()); assert(8 * all.len() == 8 * pre.len() + x.len() + 8 * tail.len());
//@     let s = all.subrange(pre.len() as int, all.len() - tail.len());
//@     let r = all.subrange(pre.len() as int, all.len() as int);
//@     assert(byte_bits(all) + Seq::<bool>::empty() =~= byte_bits(pre) + (x + byte_bits(tail)));
//@     lemma_byte_prefix(pre, all, x + byte_bits(tail), Seq::empty());
//@     assert(all =~= pre + r);
//@     lemma_byte_bits_add(pre, r);
//@     let m = byte_bits(pre).len() as int;
//@     assert(byte_bits(r) =~= byte_bits(all).subrange(m, byte_bits(all).len() as int));
//@     assert(x + byte_bits(tail) =~= byte_bits(all).subrange(m, byte_bits(all).len() as int));
//@     let t = all.subrange(all.len() - tail.len(), all.len() as int);
//@     assert(r =~= s + t);
//@     lemma_byte_bits_add(s, t);
//@     assert(byte_bits(s) =~= (byte_bits(s) + byte_bits(t)).subrange(0, x.len() as int));
//@     assert(x =~= (x + byte_bits(tail)).subrange(0, x.len() as int));
//@     assert(byte_bits(t) =~= (byte_bits(s) + byte_bits(t)).subrange(x.len() as int, 8 * r.len() as int));
//@     assert(byte_bits(tail) =~= (x + byte_bits(tail)).subrange(x.len() as int, 8 * r.len() as int));
//@     assert(byte_bits(t) + Seq::<bool>::empty() =~= byte_bits(tail) + Seq::<bool>::empty());
//@     lemma_byte_prefix(tail, t, Seq::empty(), Seq::empty());
//@     assert(t =~= tail);
//@     assert(all =~= pre + s + tail);
//@     s
//@ }
//@ impl<W: Write> DeflateState<W> {
//@     /// what the writer has been given is all there is to give
//@     proof fn lemma_all_out(&self)
//@         requires self.wf(), self.out().len() == 0,
//@         ensures self.inner->0.sink() == self.gh@.sink0 + self.gh@.gone, self.lz77_state.is_last_block || self.needs_flush || self.synced() && self.encoder_state.writer.aligned() ==> byte_bits(self.gh@.gone) == self.want_bits(),
//@     {
//@         assert(self.out().subrange(0, 0) =~= Seq::<u8>::empty());
//@         assert(self.inner->0.sink() =~= self.gh@.sink0 + self.gh@.gone);
//@         self.encoder_state.writer.lemma_aligned();
//@         if self.encoder_state.writer.aligned() { assert(self.out_bits() =~= byte_bits(self.gh@.gone)); }
//@     }
//@     /// All blocks are with the writer: a complete stream is.
//@     pub proof fn lemma_complete(&self)
//@         requires self.wf(), self.out().len() == 0, self.lz77_state.is_last_block,
//@         ensures complete(self.inner->0.sink(), self.gh@.sink0, self.gh@.pre, self.gh@.h, self.gh@.tail),
//@     {
//@         let g = self.gh@; let b = enc_blocks(g.bs); let x = b + pad(b.len());
//@         self.lemma_all_out();
//@         assert(byte_bits(g.gone) =~= byte_bits(g.pre) + x + byte_bits(g.tail));
//@         let s = lemma_between(g.gone, g.pre, x, g.tail);
//@         assert(g.h.subrange(0, g.blk) =~= g.h);
//@         assert(is_stream(s, g.bs, g.h));
//@         assert(g.sink0 + (g.pre + s + g.tail) =~= g.sink0 + g.pre + s + g.tail);
//@     }
//@     /// No flush: it is decided by the options and the data.
//@     pub proof fn lemma_decided(&self)
//@         requires self.wf(), self.out().len() == 0, self.lz77_state.is_last_block, self.det(Seq::empty()),
//@         ensures decided(self.inner->0.sink(), self.gh@.sink0, self.gh@.pre, self.compression_options, self.gh@.h, self.gh@.tail), // [P17]
//@     {
//@         let g = self.gh@; let b = enc_blocks(g.bs); let x = b + pad(b.len());
//@         self.lemma_all_out(); self.lemma_det_end();
//@         assert(byte_bits(g.gone) =~= byte_bits(g.pre) + x + byte_bits(g.tail));
//@         let s = lemma_between(g.gone, g.pre, x, g.tail);
//@         lemma_deflated(self.compression_options, g.h, s);
//@         assert(g.sink0 + (g.pre + s + g.tail) =~= g.sink0 + g.pre + s + g.tail);
//@     }
//@     /// after the last block nothing comes
//@     pub proof fn lemma_plain_end(&self)
//@         requires self.plain(),
//@         ensures self.det(Seq::empty()),
//@     {}
//@     pub proof fn lemma_sized(&self)
//@         requires self.wf(), self.out().len() == 0, self.lz77_state.is_last_block,
//@         ensures sized(self.inner->0.sink(), self.gh@.sink0, self.gh@.pre.len() + self.gh@.tail.len(), self.gh@.h, self.gh@.ends), // [P11]
//@     {
//@         let g = self.gh@; let b = enc_blocks(g.bs);
//@         self.lemma_all_out();
//@         assert(byte_bits(g.gone).len() == 8 * g.pre.len() + (b + pad(b.len())).len() + 8 * g.tail.len());
//@     }
//@     pub proof fn lemma_synced_out(&self)
//@         requires self.wf(), self.out().len() == 0, self.synced(), !self.lz77_state.is_last_block, self.encoder_state.writer.aligned(),
//@         ensures complete_so_far(self.inner->0.sink(), self.gh@.sink0, self.gh@.pre, self.gh@.h),
//@     {
//@         let g = self.gh@; let x = enc_blocks(g.bs); let e = Seq::<u8>::empty();
//@         self.lemma_all_out();
//@         assert(byte_bits(g.gone) =~= byte_bits(g.pre) + x + byte_bits(e));
//@         let s = lemma_between(g.gone, g.pre, x, e);
//@         assert(g.h.subrange(0, g.blk) =~= g.h);
//@         assert(is_synced(s, g.bs, g.h));
//@         assert(g.sink0 + (g.pre + s + e) =~= g.sink0 + g.pre + s);
//@     }
//@     /// nothing has been output yet, or even been taken
//@     pub open spec fn untouched(&self) -> bool {
//@         let g = self.gh@;
//@         &&& g.h.len() == 0 && g.gone.len() == 0 && g.pre.len() == 0 && g.bs.len() == 0 && !self.lz77_state.is_last_block && !self.needs_flush
//@         &&& self.out().len() == 0 && self.encoder_state.writer.aligned()
//@     }
//@     /// `more` was added to the output buffer; nothing else
//@     pub open spec fn framed(&self, o: Self, more: Seq<u8>) -> bool {
//@         &&& self.out() == o.out() + more
//@         &&& self.encoder_state == (EncoderState { writer: LsbWriter { w: self.encoder_state.writer.w, ..o.encoder_state.writer }, ..o.encoder_state })
//@         &&& *self == (DeflateState { encoder_state: self.encoder_state, gh: self.gh, ..o })
//@     }
//@     /// The header comes first.
//@     pub proof fn lemma_header(&self, o: Self, hd: Seq<u8>)
//@         requires o.wf(), o.untouched(), self.framed(o, hd), self.gh@ == (Hist { pre: hd, ..o.gh@ }),
//@         ensures self.wf(),
//@     {
//@         o.encoder_state.writer.lemma_aligned(); self.encoder_state.writer.lemma_aligned();
//@         assert(self.out() =~= hd);
//@         assert(self.out_bits() =~= byte_bits(hd)); assert(self.want_bits() =~= byte_bits(hd));
//@         assert(self.out().subrange(0, 0) =~= o.out().subrange(0, 0));
//@     }
//@     /// The trailer comes after the last block.
//@     pub proof fn lemma_trailer(&self, o: Self, tl: Seq<u8>)
//@         requires o.wf(), o.lz77_state.is_last_block, o.gh@.tail.len() == 0, self.framed(o, tl), self.gh@ == (Hist { tail: tl, ..o.gh@ }),
//@         ensures self.wf(),
//@     {
//@         o.encoder_state.writer.lemma_aligned(); self.encoder_state.writer.lemma_aligned();
//@         lemma_byte_bits_add(o.out(), tl);
//@         assert(o.want_bits() + byte_bits(tl) =~= self.want_bits());
//@         assert(self.out_bits() =~= o.out_bits() + byte_bits(tl));
//@         assert(self.out().subrange(0, self.output_buf_pos as int) =~= o.out().subrange(0, o.output_buf_pos as int));
//@     }
//@ }
//@ proof fn lemma_next<W: Write>(o: DeflateState<W>, z: DeflateState<W>, flush: Flush, input: Seq<u8>, n: int, rest: Seq<u8>)
//@     requires going(o, z, flush, input, n), 0 <= n <= input.len(), flush is Finish && o.det(input), rest == input.subrange(n, input.len() as int),
//@     ensures z.det(rest),
//@ { assert(input.subrange(0, n) + rest =~= input); assert(rest_ok(flush, input, n, rest)); }
//@ /// the framing makes no difference
//@ proof fn lemma_framed_plain<W: Write>(z: DeflateState<W>, o: DeflateState<W>)
//@     requires z == (DeflateState { encoder_state: z.encoder_state, gh: z.gh, ..o }), z.gh@.h == o.gh@.h, z.gh@.bs == o.gh@.bs,
//@     ensures o.plain() ==> z.plain(), o.det(Seq::empty()) ==> z.det(Seq::empty()),
//@ { if o.plain() { assert forall|rem: Seq<u8>| #[trigger] z.det(rem) by { assert(o.det(rem)); } } }
//@ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
pub fn compress_until_done<W: Write>(
    mut input: &[u8],
    deflate_state: &mut DeflateState<W>,
    flush_mode: Flush,
) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
//@     requires old(deflate_state).wf(), !(flush_mode is None), input@.len() == 0 || flush_mode is Finish && !old(deflate_state).lz77_state.is_last_block,
//@         flush_mode is Finish || flush_mode is Sync,
//@     ensures
//@         final(deflate_state).wf(), // [P01 P04 P05 P06 P08]
//@         final(deflate_state).kept(*old(deflate_state)),
//@         W::same(old(deflate_state).inner->0, final(deflate_state).inner->0),
//@         old(deflate_state).lz77_state.is_last_block ==> final(deflate_state).lz77_state.is_last_block,
//@         input@.len() == 0 ==> final(deflate_state).gh@.h == old(deflate_state).gh@.h, // [P04 P08]
//@         r is Ok ==> final(deflate_state).gh@.h == old(deflate_state).gh@.h + input@, // [P01 P04 P08]
//@         r is Ok ==> final(deflate_state).out().len() == 0 && (final(deflate_state).encoder_state.writer.aligned() || flush_mode is Finish) && final(deflate_state).settled(flush_mode), // [P01 P04 P05 P08]
//@         old(deflate_state).inner->0.sure() ==> r is Ok && final(deflate_state).inner->0.sure(), // [P07 P08 P16]
//@         final(deflate_state).due() <= old(deflate_state).due() + if flush_mode is Sync { 1int } else { 0 }, // [P11]
//@         flush_mode is Finish && old(deflate_state).det(input@) && (r is Ok || input@.len() == 0) ==> final(deflate_state).det(Seq::empty()), // [P17]
{
    //@ hide(DeflateState::det); hide(going);
    //@ let ghost input0 = input@; let ghost h0 = deflate_state.gh@.h; let ghost o = *deflate_state;
    //@ proof { W::same_refl(o.inner->0); assert(input0.subrange(input0.len() as int, input0.len() as int) =~= Seq::<u8>::empty()); assert(h0 + Seq::<u8>::empty() =~= h0); }

    if !(flush_mode != Flush::None) { crate::vx::panic(); }
    loop
    //@     invariant_except_break deflate_state.gh@.ends + deflate_state.stage(flush_mode) <= o.gh@.ends + o.stage(flush_mode),
    //@     invariant
    //@         deflate_state.wf(), deflate_state.kept(o), o == *old(deflate_state), h0 == o.gh@.h, flush_mode is Finish || flush_mode is Sync,
    //@         W::same(o.inner->0, deflate_state.inner->0), deflate_state.gh@.h + input@ == h0 + input0,
    //@         o.lz77_state.is_last_block ==> deflate_state.lz77_state.is_last_block,
    //@         input0.len() == 0 || flush_mode is Finish && !o.lz77_state.is_last_block, input@.len() <= input0.len(),
    //@         deflate_state.lz77_state.is_last_block && !o.lz77_state.is_last_block ==> input@.len() == 0,
    //@         o.inner->0.sure() ==> deflate_state.inner->0.sure(),
    //@         flush_mode is Finish && o.det(input0) ==> deflate_state.det(input@), // [P17]
    //@         flush_mode is Finish ==> deflate_state.due() <= o.due(), deflate_state.gh@.ends <= o.gh@.ends + o.stage(flush_mode),
    //@     ensures
    //@         deflate_state.out().len() == 0, deflate_state.settled(flush_mode), deflate_state.encoder_state.writer.aligned() || flush_mode is Finish, deflate_state.gh@.h == h0 + input0,
    //@     decreases deflate_state.fuel(), input@.len(), deflate_state.stage(flush_mode), deflate_state.pend(), deflate_state.rest(),
    {
        //@ let ghost s0 = *deflate_state; let ghost in1 = input@;
        //@ assert forall|x: W| W::same(s0.inner->0, x) implies #[trigger] W::same(o.inner->0, x) by { W::same_trans(o.inner->0, s0.inner->0, x); }
        //@ assert forall|n: int| 0 <= n <= in1.len() implies #[trigger] (s0.gh@.h + in1.subrange(0, n)) + in1.subrange(n, in1.len() as int) == s0.gh@.h + in1 by { assert(in1.subrange(0, n) + in1.subrange(n, in1.len() as int) =~= in1); assert((s0.gh@.h + in1.subrange(0, n)) + in1.subrange(n, in1.len() as int) =~= s0.gh@.h + (in1.subrange(0, n) + in1.subrange(n, in1.len() as int))); }
        //@ proof { if input0.len() == 0 { assert(s0.gh@.h + in1 =~= s0.gh@.h); assert(h0 + input0 =~= h0); assert(s0.gh@.h == h0); } }
        //@ assert(in1.subrange(0, 0) =~= Seq::<u8>::empty()); assert(s0.gh@.h + Seq::<u8>::empty() =~= s0.gh@.h); assert(in1.subrange(in1.len() as int, in1.len() as int) =~= Seq::<u8>::empty()); assert(in1.subrange(0, in1.len() as int) =~= in1);
        match compress_data_dynamic_n(input, deflate_state, flush_mode) {
            Ok(0) => {
                //@ assert(flush_mode is Finish ==> in1.len() == 0);
                //@ proof { if flush_mode is Finish && s0.det(in1) { lemma_next(s0, *deflate_state, flush_mode, in1, 0, in1); } assert(in1.len() == 0 ==> in1 =~= Seq::empty()); }
                if deflate_state.output_buf().is_empty() {
                    break;
                } else {

                    input = &[];
                    //@ assert(flush_mode is Finish ==> input@ =~= in1);
                }
            }
            Ok(n) => {
                //@ proof { if flush_mode is Finish && s0.det(in1) { lemma_next(s0, *deflate_state, flush_mode, in1, n as int, in1.subrange(n as int, in1.len() as int)); } assert(n == in1.len() ==> in1.subrange(n as int, in1.len() as int) =~= Seq::empty()); }
                if n < input.len() {
                    input = &input[n..]
                } else {
                    input = &[];
                }
                //@ assert(input@ =~= in1.subrange(n as int, in1.len() as int));
            }
            Err(e) => {
                //@ proof { if flush_mode is Finish && s0.det(in1) { lemma_next(s0, *deflate_state, flush_mode, in1, 0, in1); } assert(in1.len() == 0 ==> in1 =~= Seq::empty()); assert(input0.len() == 0 ==> input0 =~= Seq::empty()); }
                //@ assert(deflate_state.gh@.h == s0.gh@.h); assert(input0.len() == 0 ==> s0.gh@.h == h0); assert(input0.len() == 0 ==> deflate_state.gh@.h == old(deflate_state).gh@.h);
                match e.kind() {

                    io::ErrorKind::Interrupted => (),
                    _ => return Err(e),
                }
            }
        }
    }

    if !(
        deflate_state.bytes_written ==
        deflate_state.bytes_written_control.get()) { crate::vx::panic(); }

    Ok(())
}

//@ proof fn lemma_still_plain<W: Write>(o: DeflateState<W>, z: DeflateState<W>, input: Seq<u8>, n: int)
//@     requires o.plain(), 0 <= n <= input.len(), going(o, z, Flush::None, input, n),
//@     ensures z.plain(), // [P17]
//@ {
//@     assert forall|rem: Seq<u8>| #[trigger] z.det(rem) by { assert(rest_ok(Flush::None, input, n, rem)); assert(o.det(input.subrange(0, n) + rem)); }
//@ }
pub struct DeflateEncoder<W: Write> {
    pub deflate_state: DeflateState<W>,
}

impl<W: Write> DeflateEncoder<W> {
    //@ pub open spec fn ok(&self) -> bool { self.deflate_state.wf() && self.deflate_state.flush_mode is None }

    pub fn new<O: Into<CompressionOptions>>(writer: W, options: O) -> /*@ (r: @*/ DeflateEncoder<W> /*@ ) @*/
    //@     requires writer.ok(),
    //@     ensures
    //@         r.ok() && r.deflate_state.gh@ == hist0(writer.sink()) && r.deflate_state.inner == Some(writer),
    //@         r.deflate_state.fresh(), // [P06]
    //@         r.deflate_state.plain() && call_ensures(<O as Into<CompressionOptions>>::into, (options,), r.deflate_state.compression_options), // [P17]
    {
        DeflateEncoder {
            deflate_state: DeflateState::new(options.into(), writer),
        }
    }

    pub fn finish(/*-{*/mut/*-}{ }*/ self) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
    //@     requires self.ok(),
    //@     ensures
    //@         r is Ok ==> r->Ok_0.ok() && W::same(self.deflate_state.inner->0, r->Ok_0),
    //@         r is Ok ==> complete(r->Ok_0.sink(), self.deflate_state.gh@.sink0, self.deflate_state.gh@.pre, self.deflate_state.gh@.h, self.deflate_state.gh@.tail), // [P01 P04]
    //@         r is Ok && self.deflate_state.det(Seq::empty()) ==> decided(r->Ok_0.sink(), self.deflate_state.gh@.sink0, self.deflate_state.gh@.pre, self.deflate_state.compression_options, self.deflate_state.gh@.h, self.deflate_state.gh@.tail), // [P17]
    //@         self.deflate_state.inner->0.sure() ==> r is Ok, // [P08]
    //@         r is Ok ==> sized(r->Ok_0.sink(), self.deflate_state.gh@.sink0, self.deflate_state.gh@.pre.len() + self.deflate_state.gh@.tail.len(), self.deflate_state.gh@.h, self.deflate_state.due()), // [P11]
    {
        //@ let mut this = self; let ghost o = self.deflate_state;
        /*-{*/self.output_all()?;/*-}{this.output_all()?;}*/
        //@ proof { this.deflate_state.lemma_complete(); this.deflate_state.lemma_sized(); if this.deflate_state.det(Seq::empty()) { this.deflate_state.lemma_decided(); } }

        Ok(/*-{*/self/*-}{this}*/.deflate_state.inner.take().expect(ERR_STR))
    }

    pub fn reset(&mut self, w: W) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
    //@     requires old(self).ok(), w.ok(),
    //@     ensures
    //@         final(self).ok(), final(self).deflate_state.same_options(old(self).deflate_state), // [P06]
    //@         r is Ok ==> final(self).deflate_state.gh@ == hist0(w.sink()) && final(self).deflate_state.inner == Some(w),
    //@         r is Ok ==> final(self).deflate_state.fresh(), // [P06]
    //@         r is Ok ==> r->Ok_0.ok() && complete(r->Ok_0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.pre, old(self).deflate_state.gh@.h, old(self).deflate_state.gh@.tail), // [P01 P06]
    //@         r is Ok && old(self).deflate_state.det(Seq::empty()) ==> decided(r->Ok_0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.pre, old(self).deflate_state.compression_options, old(self).deflate_state.gh@.h, old(self).deflate_state.gh@.tail), // [P17]
    //@         r is Ok && old(self).deflate_state.as_told() ==> final(self).deflate_state.plain(), // [P06 P17]
    //@         r is Ok ==> final(self).deflate_state.due() == 1 && sized(r->Ok_0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.pre.len() + old(self).deflate_state.gh@.tail.len(), old(self).deflate_state.gh@.h, old(self).deflate_state.due()), // [P11]
    //@         r is Err ==> final(self).deflate_state.kept(old(self).deflate_state) && final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h, // [P06 P08]
    {
        self.output_all()?;
        //@ proof { self.deflate_state.lemma_complete(); self.deflate_state.lemma_sized(); if self.deflate_state.det(Seq::empty()) { self.deflate_state.lemma_decided(); } assert(self.deflate_state.gh@.sink0 + self.deflate_state.gh@.gone + self.deflate_state.out() =~= self.deflate_state.inner->0.sink()); }
        self.deflate_state.reset(w)
    }

    pub fn output_all(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
    //@     requires old(self).ok(),
    //@     ensures
    //@         final(self).ok(), final(self).deflate_state.kept(old(self).deflate_state), final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h, // [P01 P08]
    //@         old(self).deflate_state.lz77_state.is_last_block ==> final(self).deflate_state.lz77_state.is_last_block,
    //@         W::same(old(self).deflate_state.inner->0, final(self).deflate_state.inner->0),
    //@         r is Ok ==> final(self).deflate_state.out().len() == 0 && final(self).deflate_state.lz77_state.is_last_block, // [P01 P08]
    //@         old(self).deflate_state.det(Seq::empty()) ==> final(self).deflate_state.det(Seq::empty()), // [P17]
    //@         final(self).deflate_state.due() <= old(self).deflate_state.due(), // [P11]
    //@         old(self).deflate_state.inner->0.sure() ==> r is Ok && final(self).deflate_state.inner->0.sure(), // [P07 P08 P16]
    {
        //@ proof { assert(self.deflate_state.gh@.h + Seq::<u8>::empty() =~= self.deflate_state.gh@.h); }
        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
    }
}

impl<W: Write> /*-{*/io::Write for/*-}{ }*/ DeflateEncoder<W> {
    fn write(&mut self, buf: &[u8]) -> /*@ (r: @*/ io::Result<usize> /*@ ) @*/
    //@     requires old(self).ok(),
    //@     ensures
    //@         final(self).ok(), final(self).deflate_state.kept(old(self).deflate_state), // [P01 P08]
    //@         old(self).deflate_state.lz77_state.is_last_block ==> final(self).deflate_state.lz77_state.is_last_block && (r is Ok ==> r->Ok_0 == 0),
    //@         match r {
    //@             Ok(n) => n <= buf@.len() && final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h + buf@.subrange(0, n as int),
    //@             Err(_) => final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h,
    //@         }, // [P04 P08]
    //@         final(self).deflate_state.due() <= old(self).deflate_state.due(), // [P11]
    //@         r is Ok && r->Ok_0 == 0 ==> buf@.len() == 0 || old(self).deflate_state.lz77_state.is_last_block, // [P04 P08]
    //@         old(self).deflate_state.plain() ==> final(self).deflate_state.plain(), // [P17]
    //@         old(self).deflate_state.inner->0.sure() ==> final(self).deflate_state.inner->0.sure() && (r is Err ==> r->Err_0.k is Interrupted), // [P08]
    {
        let flush_mode = self.deflate_state.flush_mode;
        //@ let ghost o = self.deflate_state;
        //@ assert forall|z: DeflateState<W>, n: int| o.plain() && 0 <= n <= buf@.len() && #[trigger] going(o, z, Flush::None, buf@, n) implies z.plain() by { lemma_still_plain(o, z, buf@, n); }
        compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode)
    }

    fn flush(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
    //@     requires old(self).ok(),
    //@     ensures
    //@         final(self).ok(), final(self).deflate_state.kept(old(self).deflate_state), final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h, // [P05 P08]
    //@         old(self).deflate_state.lz77_state.is_last_block ==> final(self).deflate_state.lz77_state.is_last_block,
    //@         r is Ok && !final(self).deflate_state.lz77_state.is_last_block ==> complete_so_far(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.pre, old(self).deflate_state.gh@.h), // [P05]
    //@         old(self).deflate_state.inner->0.sure() ==> r is Ok && final(self).deflate_state.inner->0.sure(), // [P05 P08]
    //@         final(self).deflate_state.due() <= old(self).deflate_state.due() + 1, // [P11]
    {
        //@ proof { assert(self.deflate_state.gh@.h + Seq::<u8>::empty() =~= self.deflate_state.gh@.h); }
        //@ assert forall|x: DeflateState<W>| #![trigger x.wf()] x.wf() && x.out().len() == 0 && x.synced() && !x.lz77_state.is_last_block && x.encoder_state.writer.aligned() implies complete_so_far(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre, x.gh@.h) by { x.lemma_synced_out(); }
        compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
    }
}

impl<W: Write> /*-{*/Drop for/*-}{ }*/ DeflateEncoder<W> {

    fn drop(&mut self)
    //@     requires old(self).deflate_state.inner is Some ==> old(self).ok(),
    //@     ensures
    //@         old(self).deflate_state.inner is Some && !thread::unwinding() ==> final(self).ok() && final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h, // [P16]
    //@         old(self).deflate_state.inner is Some && !thread::unwinding() && old(self).deflate_state.inner->0.sure()
    //@             ==> complete(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.pre, old(self).deflate_state.gh@.h, old(self).deflate_state.gh@.tail), // [P16]
    //@         old(self).deflate_state.inner is Some && !thread::unwinding() && old(self).deflate_state.inner->0.sure() && old(self).deflate_state.det(Seq::empty())
    //@             ==> decided(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.pre, old(self).deflate_state.compression_options, old(self).deflate_state.gh@.h, old(self).deflate_state.gh@.tail), // [P17]
    //@         old(self).deflate_state.inner is None || thread::unwinding() ==> *final(self) == *old(self), // [P16]
    {
        if self.deflate_state.inner.is_some() && !thread::panicking() {
            let _ = self.output_all();
            //@ proof { if self.deflate_state.out().len() == 0 && self.deflate_state.lz77_state.is_last_block { self.deflate_state.lemma_complete(); if self.deflate_state.det(Seq::empty()) { self.deflate_state.lemma_decided(); } } }
        }
    }
}

pub struct ZlibEncoder<W: Write> {
    pub deflate_state: DeflateState<W>,
    pub checksum: Adler32Checksum,
    pub header_written: bool,
    pub trailer_written: bool,
}

impl<W: Write> ZlibEncoder<W> {
    //@ pub open spec fn ok(&self) -> bool {
    //@     let g = self.deflate_state.gh@;
    //@     &&& self.deflate_state.wf() && self.deflate_state.flush_mode is None && self.checksum.data() == g.h
    //@     &&& if self.header_written { zlib_header(g.pre) } else { self.deflate_state.untouched() }
    //@     &&& if self.trailer_written { self.deflate_state.lz77_state.is_last_block && g.tail == be32(adler(g.h)) } else { g.tail.len() == 0 }
    //@ }
    //@ /// the writer has a complete RFC 1950 stream for `data`
    //@ pub open spec fn zlib_complete(sink: Seq<u8>, sink0: Seq<u8>, data: Seq<u8>) -> bool {
    //@     exists|hd: Seq<u8>| zlib_header(hd) && #[trigger] complete(sink, sink0, hd, data, be32(adler(data)))
    //@ }

    //@ /// no flush so far: what was output is decided by the options and the data, whatever comes
    //@ pub open spec fn plain(&self) -> bool { self.deflate_state.plain() && (self.header_written ==> self.deflate_state.gh@.pre == zlib_head()) }
    //@ /// ... if nothing comes
    //@ pub open spec fn plain_end(&self) -> bool { self.deflate_state.det(Seq::empty()) && (self.header_written ==> self.deflate_state.gh@.pre == zlib_head()) }
    //@ pub open spec fn zlib_decided(sink: Seq<u8>, sink0: Seq<u8>, o: CompressionOptions, data: Seq<u8>) -> bool { decided(sink, sink0, zlib_head(), o, data, be32(adler(data))) }

    pub fn new<O: Into<CompressionOptions>>(writer: W, options: O) -> /*@ (r: @*/ ZlibEncoder<W> /*@ ) @*/
    //@     requires writer.ok(),
    //@     ensures
    //@         r.ok() && r.deflate_state.gh@ == hist0(writer.sink()) && r.deflate_state.inner == Some(writer) && !r.header_written && !r.trailer_written,
    //@         r.deflate_state.fresh(), // [P06]
    //@         r.plain() && call_ensures(<O as Into<CompressionOptions>>::into, (options,), r.deflate_state.compression_options), // [P17]
    {
        ZlibEncoder {
            deflate_state: DeflateState::new(options.into(), writer),
            checksum: Adler32Checksum::new(),
            header_written: false,
            trailer_written: false,
        }
    }

    pub fn output_all(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
    //@     requires old(self).ok(),
    //@     ensures
    //@         final(self).ok(), final(self).deflate_state.same_options(old(self).deflate_state), final(self).deflate_state.gh@.sink0 == old(self).deflate_state.gh@.sink0, // [P02 P08]
    //@         final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h, // [P02 P04 P08]
    //@         W::same(old(self).deflate_state.inner->0, final(self).deflate_state.inner->0),
    //@         r is Ok ==> final(self).deflate_state.out().len() == 0 && final(self).deflate_state.lz77_state.is_last_block && final(self).trailer_written && final(self).header_written, // [P02 P08]
    //@         r is Ok ==> Self::zlib_complete(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.h), // [P02]
    //@         r is Ok && old(self).plain_end() ==> Self::zlib_decided(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.compression_options, old(self).deflate_state.gh@.h), // [P17]
    //@         old(self).plain_end() ==> final(self).plain_end(), // [P17]
    //@         final(self).deflate_state.due() <= old(self).deflate_state.due(), // [P11]
    //@         r is Ok ==> sized(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, 6, old(self).deflate_state.gh@.h, old(self).deflate_state.due()), // [P11]
    //@         old(self).deflate_state.inner->0.sure() ==> r is Ok && final(self).deflate_state.inner->0.sure(), // [P07 P08 P16]
    {
        //@ let ghost o = *self;
        //@ proof { assert(self.deflate_state.gh@.h + Seq::<u8>::empty() =~= self.deflate_state.gh@.h); W::same_refl(o.deflate_state.inner->0); }
        self.check_write_header()?;
        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)?;
        //@ let ghost s0 = *self;
        //@ assert forall|x: W| W::same(s0.deflate_state.inner->0, x) implies #[trigger] W::same(o.deflate_state.inner->0, x) by { W::same_trans(o.deflate_state.inner->0, s0.deflate_state.inner->0, x); }
        self.write_trailer()
    }

    pub fn finish(/*-{*/mut/*-}{ }*/ self) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
    //@     requires self.ok(),
    //@     ensures
    //@         r is Ok ==> r->Ok_0.ok() && W::same(self.deflate_state.inner->0, r->Ok_0),
    //@         r is Ok ==> Self::zlib_complete(r->Ok_0.sink(), self.deflate_state.gh@.sink0, self.deflate_state.gh@.h), // [P02 P04]
    //@         r is Ok && self.plain_end() ==> Self::zlib_decided(r->Ok_0.sink(), self.deflate_state.gh@.sink0, self.deflate_state.compression_options, self.deflate_state.gh@.h), // [P17]
    //@         r is Ok ==> sized(r->Ok_0.sink(), self.deflate_state.gh@.sink0, 6, self.deflate_state.gh@.h, self.deflate_state.due()), // [P11]
    //@         self.deflate_state.inner->0.sure() ==> r is Ok, // [P08]
    {
        //@ let mut this = self;
        /*-{*/self.output_all()?;/*-}{this.output_all()?;}*/

        Ok(/*-{*/self/*-}{this}*/.deflate_state.inner.take().expect(ERR_STR))
    }

    pub fn reset(&mut self, writer: W) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
    //@     requires old(self).ok(), writer.ok(),
    //@     ensures
    //@         final(self).ok(), final(self).deflate_state.same_options(old(self).deflate_state), // [P06]
    //@         r is Ok ==> final(self).deflate_state.gh@ == hist0(writer.sink()) && final(self).deflate_state.inner == Some(writer) && !final(self).header_written && !final(self).trailer_written, // [P02 P06]
    //@         r is Ok ==> final(self).deflate_state.fresh(), // [P06]
    //@         r is Ok ==> final(self).deflate_state.due() == 1 && sized(r->Ok_0.sink(), old(self).deflate_state.gh@.sink0, 6, old(self).deflate_state.gh@.h, old(self).deflate_state.due()), // [P11]
    //@         r is Ok ==> r->Ok_0.ok() && Self::zlib_complete(r->Ok_0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.h), // [P02 P06]
    //@         r is Ok && old(self).plain_end() ==> Self::zlib_decided(r->Ok_0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.compression_options, old(self).deflate_state.gh@.h), // [P17]
    //@         r is Ok && old(self).deflate_state.as_told() ==> final(self).plain(), // [P06 P17]
    //@         r is Err ==> final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h && final(self).deflate_state.gh@.sink0 == old(self).deflate_state.gh@.sink0, // [P06 P08]
    {
        self.output_all()?;
        //@ proof { assert(self.deflate_state.out().subrange(0, 0) =~= Seq::<u8>::empty()); assert(self.deflate_state.gh@.sink0 + self.deflate_state.gh@.gone + self.deflate_state.out() =~= self.deflate_state.inner->0.sink()); }
        self.header_written = false;
        self.trailer_written = false;
        self.checksum = Adler32Checksum::new();
        self.deflate_state.reset(writer)
    }

    pub fn check_write_header(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
    //@     requires old(self).ok(),
    //@     ensures
    //@         r is Ok, final(self).ok(), final(self).header_written, final(self).trailer_written == old(self).trailer_written, // [P02 P16]
    //@         final(self).deflate_state.inner == old(self).deflate_state.inner && final(self).deflate_state.lz77_state == old(self).deflate_state.lz77_state && final(self).deflate_state.same_options(old(self).deflate_state),
    //@         final(self).deflate_state.gh@ == (Hist { pre: final(self).deflate_state.gh@.pre, ..old(self).deflate_state.gh@ }),
    //@         old(self).plain() ==> final(self).plain(), old(self).plain_end() ==> final(self).plain_end(), // [P17]
    {
        //@ let ghost o = *self;
        if !self.header_written {
            write_zlib_header(self.deflate_state.output_buf(), CompressionLevel::Default)?;
            //@ let ghost hd = choose|hd: Seq<u8>| zlib_header(hd) && self.deflate_state.out() == o.deflate_state.out() + hd;
            //@ proof { let x = o.deflate_state.out(); assert(hd =~= (x + hd).subrange(x.len() as int, x.len() as int + 2)); assert(zlib_head() =~= (x + zlib_head()).subrange(x.len() as int, x.len() as int + 2)); }
            //@ proof { self.deflate_state.gh@.pre = hd; self.deflate_state.lemma_header(o.deflate_state, hd); lemma_framed_plain(self.deflate_state, o.deflate_state); }
            self.header_written = true;
        }
        Ok(())
    }

    pub fn write_trailer(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
    //@     requires old(self).ok(), old(self).header_written, old(self).deflate_state.lz77_state.is_last_block,
    //@     ensures
    //@         final(self).ok(), final(self).trailer_written, final(self).header_written, final(self).deflate_state.same_options(old(self).deflate_state), final(self).deflate_state.gh@.sink0 == old(self).deflate_state.gh@.sink0,
    //@         final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h, // [P02 P08]
    //@         W::same(old(self).deflate_state.inner->0, final(self).deflate_state.inner->0),
    //@         r is Ok ==> final(self).deflate_state.out().len() == 0 && final(self).deflate_state.lz77_state.is_last_block, // [P02 P08]
    //@         r is Ok ==> Self::zlib_complete(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.h), // [P02]
    //@         r is Ok && old(self).plain_end() ==> Self::zlib_decided(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.compression_options, old(self).deflate_state.gh@.h), // [P17]
    //@         old(self).plain_end() ==> final(self).plain_end(), // [P17]
    //@         final(self).deflate_state.due() <= old(self).deflate_state.due(), // [P11]
    //@         r is Ok ==> sized(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, 6, old(self).deflate_state.gh@.h, old(self).deflate_state.due()), // [P11]
    //@         old(self).deflate_state.inner->0.sure() ==> r is Ok && final(self).deflate_state.inner->0.sure(), // [P07 P08 P16]
    {
        //@ let ghost o = *self;

        if !self.trailer_written {
            let hash = self.checksum.current_hash();
            self.deflate_state
                .output_buf()
                .extend_from_slice(&hash.vx_to_be_bytes());
            self.trailer_written = true;
            //@ let ghost tl = be32(adler(o.deflate_state.gh@.h));
            //@ assert(hash == adler(o.checksum.data())); assert(self.deflate_state.out() =~= o.deflate_state.out() + tl); 
            //@ proof { self.deflate_state.gh@.tail = tl; self.deflate_state.lemma_trailer(o.deflate_state, tl); lemma_framed_plain(self.deflate_state, o.deflate_state); }
        }
        //@ proof { assert(self.deflate_state.gh@.h + Seq::<u8>::empty() =~= self.deflate_state.gh@.h); }
        //@ assert forall|x: DeflateState<W>| #![trigger x.wf()] x.wf() && x.out().len() == 0 && x.lz77_state.is_last_block && x.det(Seq::empty()) implies decided(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre, x.compression_options, x.gh@.h, x.gh@.tail) by { x.lemma_decided(); }
        //@ assert forall|x: DeflateState<W>| #![trigger x.wf()] x.wf() && x.out().len() == 0 && x.lz77_state.is_last_block implies complete(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre, x.gh@.h, x.gh@.tail) && sized(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre.len() + x.gh@.tail.len(), x.gh@.h, x.gh@.ends) by { x.lemma_complete(); x.lemma_sized(); }
        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
    }

    pub fn checksum(&self) -> /*@ (r: @*/ u32 /*@ ) @*/
    //@     requires self.ok(),
    //@     ensures r == adler(self.deflate_state.gh@.h), // [P15]
    {
        self.checksum.current_hash()
    }
}

impl<W: Write> /*-{*/io::Write for/*-}{ }*/ ZlibEncoder<W> {
    fn write(&mut self, buf: &[u8]) -> /*@ (r: @*/ io::Result<usize> /*@ ) @*/
    //@     requires old(self).ok(),
    //@     ensures
    //@         final(self).ok(), // [P02 P08 P15]
    //@         final(self).deflate_state.same_options(old(self).deflate_state), final(self).deflate_state.gh@.sink0 == old(self).deflate_state.gh@.sink0,
    //@         match r {
    //@             Ok(n) => n <= buf@.len() && final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h + buf@.subrange(0, n as int),
    //@             Err(_) => final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h,
    //@         }, // [P02 P04 P08 P15]
    //@         final(self).deflate_state.due() <= old(self).deflate_state.due(), // [P11]
    //@         r is Ok && r->Ok_0 == 0 ==> buf@.len() == 0 || old(self).deflate_state.lz77_state.is_last_block, // [P04 P08]
    //@         old(self).plain() ==> final(self).plain(), // [P17]
    //@         old(self).deflate_state.inner->0.sure() ==> final(self).deflate_state.inner->0.sure() && (r is Err ==> r->Err_0.k is Interrupted), // [P08]
    {
        //@ let ghost o = *self;
        //@ assert(<Adler32Checksum as RollingChecksum>::real());
        self.check_write_header()?;
        let flush_mode = self.deflate_state.flush_mode;
        //@ let ghost o1 = self.deflate_state;
        //@ assert forall|z: DeflateState<W>, n: int| o1.plain() && 0 <= n <= buf@.len() && #[trigger] going(o1, z, Flush::None, buf@, n) implies z.plain() by { lemma_still_plain(o1, z, buf@, n); }
        let res = compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode);
        match res {

            Ok(n) => self.checksum.update_from_slice(&buf[0..n]),
            _ => (),
        };
        //@ assert(self.deflate_state.wf()); assert(self.checksum.data() == self.deflate_state.gh@.h);
        res
    }

    fn flush(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
    //@     requires old(self).ok(),
    //@     ensures
    //@         final(self).ok(), final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h, final(self).deflate_state.gh@.sink0 == old(self).deflate_state.gh@.sink0, // [P05 P08]
    //@         r is Ok && !final(self).deflate_state.lz77_state.is_last_block ==> final(self).header_written && complete_so_far(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, final(self).deflate_state.gh@.pre, old(self).deflate_state.gh@.h), // [P05]
    //@         old(self).deflate_state.inner->0.sure() ==> r is Ok && final(self).deflate_state.inner->0.sure(), // [P05 P08]
    //@         final(self).deflate_state.due() <= old(self).deflate_state.due() + 1, // [P11]
    {
        //@ proof { assert(self.deflate_state.gh@.h + Seq::<u8>::empty() =~= self.deflate_state.gh@.h); }
        //@ assert forall|x: DeflateState<W>| #![trigger x.wf()] x.wf() && x.out().len() == 0 && x.synced() && !x.lz77_state.is_last_block && x.encoder_state.writer.aligned() implies complete_so_far(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre, x.gh@.h) by { x.lemma_synced_out(); }
        self.check_write_header()?;
        compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
    }
}

impl<W: Write> /*-{*/Drop for/*-}{ }*/ ZlibEncoder<W> {

    fn drop(&mut self)
    //@     requires old(self).deflate_state.inner is Some ==> old(self).ok(),
    //@     ensures
    //@         old(self).deflate_state.inner is Some && !thread::unwinding() ==> final(self).ok() && final(self).deflate_state.gh@.h == old(self).deflate_state.gh@.h, // [P16]
    //@         old(self).deflate_state.inner is Some && !thread::unwinding() && old(self).deflate_state.inner->0.sure()
    //@             ==> Self::zlib_complete(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.gh@.h), // [P16]
    //@         old(self).deflate_state.inner is Some && !thread::unwinding() && old(self).deflate_state.inner->0.sure() && old(self).plain_end()
    //@             ==> Self::zlib_decided(final(self).deflate_state.inner->0.sink(), old(self).deflate_state.gh@.sink0, old(self).deflate_state.compression_options, old(self).deflate_state.gh@.h), // [P17]
    //@         old(self).deflate_state.inner is None || thread::unwinding() ==> *final(self) == *old(self), // [P16]
    {
        if self.deflate_state.inner.is_some() && !thread::panicking() {
            let _ = self.output_all();
        }
    }
}
pub mod gzip {

    use crate::vx::io::Write;
    use /*-{*/std::{io, thread}/*-}{crate::vx::{io, thread}}*/;
    //@ use vstd::prelude::*; use crate::rfc::*; use crate::stream::*; use crate::deflate_state::{Hist, hist0, deflated, lemma_deflated};

    use super::*;

    use crate::vx::gzip_header::{Crc, GzBuilder};

    //@ /// RFC 1952 2.3.1: CRC32, ISIZE
    //@ pub open spec fn gz_tail(d: Seq<u8>) -> Seq<u8> { le32(crc(d)) + le32((d.len() % 0x1_0000_0000) as u32) }
    pub struct GzEncoder<W: Write> {
        pub inner: DeflateEncoder<W>,
        pub checksum: Crc,
        pub header: Vec<u8>,
        pub trailer_written: bool,
    }

    impl<W: Write> GzEncoder<W> {
        //@ pub open spec fn ok(&self) -> bool {
        //@     let g = self.inner.deflate_state.gh@;
        //@     &&& self.inner.ok() && self.checksum.data() == g.h
        //@     &&& self.header@.len() == 0 || self.inner.deflate_state.untouched()
        //@     &&& if self.trailer_written { self.inner.deflate_state.lz77_state.is_last_block && g.tail == gz_tail(g.h) } else { g.tail.len() == 0 }
        //@ }
        //@ /// the header of the member: still to be written, or written
        //@ pub open spec fn head(&self) -> Seq<u8> { if self.header@.len() > 0 { self.header@ } else { self.inner.deflate_state.gh@.pre } }

        //@ pub open spec fn gz_decided(sink: Seq<u8>, sink0: Seq<u8>, hd: Seq<u8>, o: CompressionOptions, data: Seq<u8>) -> bool { decided(sink, sink0, hd, o, data, gz_tail(data)) }

        pub fn new<O: Into<CompressionOptions>>(writer: W, options: O) -> /*@ (r: @*/ GzEncoder<W> /*@ ) @*/
        //@     requires writer.ok(),
        //@     ensures
        //@         r.ok() && r.inner.deflate_state.gh@ == hist0(writer.sink()) && r.inner.deflate_state.inner == Some(writer) && !r.trailer_written,
        //@         r.header@ == crate::vx::gzip_header::blank(), // [P03]
        //@         r.inner.deflate_state.fresh(), // [P06]
        //@         r.inner.deflate_state.plain() && call_ensures(<O as Into<CompressionOptions>>::into, (options,), r.inner.deflate_state.compression_options), // [P17]
        {
            GzEncoder::from_builder(GzBuilder::new(), writer, options)
        }

        pub fn from_builder<O: Into<CompressionOptions>>(
            builder: GzBuilder,
            writer: W,
            options: O,
        ) -> /*@ (r: @*/ GzEncoder<W> /*@ ) @*/
        //@     requires writer.ok(),
        //@     ensures
        //@         r.ok() && r.inner.deflate_state.gh@ == hist0(writer.sink()) && r.inner.deflate_state.inner == Some(writer) && !r.trailer_written,
        //@         r.header@ == builder.header(), // [P03]
        //@         r.inner.deflate_state.fresh(), // [P06]
        //@         r.inner.deflate_state.plain() && call_ensures(<O as Into<CompressionOptions>>::into, (options,), r.inner.deflate_state.compression_options), // [P17]
        {
            GzEncoder {
                inner: DeflateEncoder::new(writer, options),
                checksum: Crc::new(),
                header: builder.into_header(),
                trailer_written: false,
            }
        }

        pub fn check_write_header(&mut self)
        //@     requires old(self).ok(),
        //@     ensures
        //@         final(self).ok(), final(self).header@.len() == 0, final(self).trailer_written == old(self).trailer_written, // [P03 P16]
        //@         final(self).head() == old(self).head(), // [P03]
        //@         final(self).inner.deflate_state.inner == old(self).inner.deflate_state.inner && final(self).inner.deflate_state.lz77_state == old(self).inner.deflate_state.lz77_state && final(self).inner.deflate_state.same_options(old(self).inner.deflate_state),
        //@         final(self).inner.deflate_state.gh@ == (Hist { pre: final(self).inner.deflate_state.gh@.pre, ..old(self).inner.deflate_state.gh@ }),
        //@         old(self).inner.deflate_state.plain() ==> final(self).inner.deflate_state.plain(), old(self).inner.deflate_state.det(Seq::empty()) ==> final(self).inner.deflate_state.det(Seq::empty()), // [P17]
        {
            //@ let ghost o = *self;
            if !self.header.is_empty() {
                self.inner
                    .deflate_state
                    .output_buf()
                    .extend_from_slice(&self.header);
                self.header.clear();
                //@ assert(self.inner.deflate_state.out() =~= o.inner.deflate_state.out() + o.header@);
                //@ proof { self.inner.deflate_state.gh@.pre = o.header@; self.inner.deflate_state.lemma_header(o.inner.deflate_state, o.header@); lemma_framed_plain(self.inner.deflate_state, o.inner.deflate_state); }
            }
        }

        pub fn output_all(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
        //@     requires old(self).ok(),
        //@     ensures
        //@         final(self).ok(), final(self).header@.len() == 0, final(self).head() == old(self).head(), final(self).inner.deflate_state.same_options(old(self).inner.deflate_state), final(self).inner.deflate_state.gh@.sink0 == old(self).inner.deflate_state.gh@.sink0, // [P03 P08]
        //@         final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h, // [P03 P04 P08]
        //@         W::same(old(self).inner.deflate_state.inner->0, final(self).inner.deflate_state.inner->0),
        //@         r is Ok ==> final(self).inner.deflate_state.out().len() == 0 && final(self).inner.deflate_state.lz77_state.is_last_block && final(self).trailer_written, // [P03 P08]
        //@         r is Ok ==> complete(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.gh@.h, gz_tail(old(self).inner.deflate_state.gh@.h)), // [P03]
        //@         r is Ok && old(self).inner.deflate_state.det(Seq::empty()) ==> Self::gz_decided(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.compression_options, old(self).inner.deflate_state.gh@.h), // [P17]
        //@         old(self).inner.deflate_state.det(Seq::empty()) ==> final(self).inner.deflate_state.det(Seq::empty()), // [P17]
        //@         final(self).inner.deflate_state.due() <= old(self).inner.deflate_state.due(), // [P11]
        //@         r is Ok ==> sized(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head().len() + 8, old(self).inner.deflate_state.gh@.h, old(self).inner.deflate_state.due()), // [P11]
        //@         old(self).inner.deflate_state.inner->0.sure() ==> r is Ok && final(self).inner.deflate_state.inner->0.sure(), // [P07 P08 P16]
        {
            //@ let ghost o = *self;
            self.check_write_header();
            self.inner.output_all()?;
            //@ let ghost s0 = *self;
            //@ assert forall|x: W| W::same(s0.inner.deflate_state.inner->0, x) implies #[trigger] W::same(o.inner.deflate_state.inner->0, x) by { W::same_trans(o.inner.deflate_state.inner->0, s0.inner.deflate_state.inner->0, x); }
            self.write_trailer()
        }

        pub fn finish(/*-{*/mut/*-}{ }*/ self) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
        //@     requires self.ok(),
        //@     ensures
        //@         r is Ok ==> r->Ok_0.ok() && W::same(self.inner.deflate_state.inner->0, r->Ok_0),
        //@         r is Ok ==> complete(r->Ok_0.sink(), self.inner.deflate_state.gh@.sink0, self.head(), self.inner.deflate_state.gh@.h, gz_tail(self.inner.deflate_state.gh@.h)), // [P03 P04]
        //@         r is Ok && self.inner.deflate_state.det(Seq::empty()) ==> Self::gz_decided(r->Ok_0.sink(), self.inner.deflate_state.gh@.sink0, self.head(), self.inner.deflate_state.compression_options, self.inner.deflate_state.gh@.h), // [P17]
        //@         r is Ok ==> sized(r->Ok_0.sink(), self.inner.deflate_state.gh@.sink0, self.head().len() + 8, self.inner.deflate_state.gh@.h, self.inner.deflate_state.due()), // [P11]
        //@         self.inner.deflate_state.inner->0.sure() ==> r is Ok, // [P08]
        {
            //@ let mut this = self;
            /*-{*/self.output_all()?;/*-}{this.output_all()?;}*/

            Ok(/*-{*/self/*-}{this}*/.inner.deflate_state.inner.take().expect(ERR_STR))
        }

        pub fn reset_no_header(&mut self, writer: W) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
        //@     requires old(self).ok(), writer.ok(),
        //@     ensures
        //@         final(self).ok(), final(self).inner.deflate_state.same_options(old(self).inner.deflate_state), // [P06]
        //@         r is Ok ==> final(self).inner.deflate_state.gh@ == hist0(writer.sink()) && final(self).inner.deflate_state.inner == Some(writer) && !final(self).trailer_written, // [P03 P06]
        //@         r is Ok ==> final(self).inner.deflate_state.fresh(), // [P06]
        //@         r is Ok ==> final(self).header@ == Seq::<u8>::empty(), // [P03 P06]
        //@         r is Ok ==> final(self).inner.deflate_state.due() == 1 && sized(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head().len() + 8, old(self).inner.deflate_state.gh@.h, old(self).inner.deflate_state.due()), // [P11]
        //@         r is Ok ==> r->Ok_0.ok() && complete(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.gh@.h, gz_tail(old(self).inner.deflate_state.gh@.h)), // [P03 P06]
        //@         r is Ok && old(self).inner.deflate_state.det(Seq::empty()) ==> Self::gz_decided(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.compression_options, old(self).inner.deflate_state.gh@.h), // [P17]
        //@         r is Ok && old(self).inner.deflate_state.as_told() ==> final(self).inner.deflate_state.plain(), // [P06 P17]
        //@         r is Err ==> final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h && final(self).inner.deflate_state.gh@.sink0 == old(self).inner.deflate_state.gh@.sink0 && final(self).head() == old(self).head(), // [P06 P08]
        {
            self.output_all()?;
            //@ proof { assert(self.inner.deflate_state.out().subrange(0, 0) =~= Seq::<u8>::empty()); assert(self.inner.deflate_state.gh@.sink0 + self.inner.deflate_state.gh@.gone + self.inner.deflate_state.out() =~= self.inner.deflate_state.inner->0.sink()); assert(self.header@ =~= Seq::<u8>::empty()); }
            self.trailer_written = false;
            self.checksum = Crc::new();
            self.inner.deflate_state.reset(writer)
        }

        pub fn reset(&mut self, writer: W) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
        //@     requires old(self).ok(), writer.ok(),
        //@     ensures
        //@         final(self).ok(), final(self).inner.deflate_state.same_options(old(self).inner.deflate_state), // [P06]
        //@         r is Ok ==> final(self).inner.deflate_state.gh@ == hist0(writer.sink()) && final(self).inner.deflate_state.inner == Some(writer) && !final(self).trailer_written, // [P03 P06]
        //@         r is Ok ==> final(self).inner.deflate_state.fresh(), // [P06]
        //@         r is Ok ==> final(self).header@ == crate::vx::gzip_header::blank(), // [P03 P06]
        //@         r is Ok ==> final(self).inner.deflate_state.due() == 1 && sized(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head().len() + 8, old(self).inner.deflate_state.gh@.h, old(self).inner.deflate_state.due()), // [P11]
        //@         r is Ok ==> r->Ok_0.ok() && complete(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.gh@.h, gz_tail(old(self).inner.deflate_state.gh@.h)), // [P03 P06]
        //@         r is Ok && old(self).inner.deflate_state.det(Seq::empty()) ==> Self::gz_decided(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.compression_options, old(self).inner.deflate_state.gh@.h), // [P17]
        //@         r is Ok && old(self).inner.deflate_state.as_told() ==> final(self).inner.deflate_state.plain(), // [P06 P17]
        //@         r is Err ==> final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h && final(self).inner.deflate_state.gh@.sink0 == old(self).inner.deflate_state.gh@.sink0 && final(self).head() == old(self).head(), // [P06 P08]
        {
            let w = self.reset_no_header(writer)?;
            self.header = GzBuilder::new().into_header();
            Ok(w)
        }

        pub fn reset_with_builder(&mut self, writer: W, builder: GzBuilder) -> /*@ (r: @*/ io::Result<W> /*@ ) @*/
        //@     requires old(self).ok(), writer.ok(),
        //@     ensures
        //@         final(self).ok(), final(self).inner.deflate_state.same_options(old(self).inner.deflate_state), // [P06]
        //@         r is Ok ==> final(self).inner.deflate_state.gh@ == hist0(writer.sink()) && final(self).inner.deflate_state.inner == Some(writer) && !final(self).trailer_written, // [P03 P06]
        //@         r is Ok ==> final(self).inner.deflate_state.fresh(), // [P06]
        //@         r is Ok ==> final(self).header@ == builder.header(), // [P03 P06]
        //@         r is Ok ==> final(self).inner.deflate_state.due() == 1 && sized(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head().len() + 8, old(self).inner.deflate_state.gh@.h, old(self).inner.deflate_state.due()), // [P11]
        //@         r is Ok ==> r->Ok_0.ok() && complete(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.gh@.h, gz_tail(old(self).inner.deflate_state.gh@.h)), // [P03 P06]
        //@         r is Ok && old(self).inner.deflate_state.det(Seq::empty()) ==> Self::gz_decided(r->Ok_0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.compression_options, old(self).inner.deflate_state.gh@.h), // [P17]
        //@         r is Ok && old(self).inner.deflate_state.as_told() ==> final(self).inner.deflate_state.plain(), // [P06 P17]
        //@         r is Err ==> final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h && final(self).inner.deflate_state.gh@.sink0 == old(self).inner.deflate_state.gh@.sink0 && final(self).head() == old(self).head(), // [P06 P08]
        {
            let w = self.reset_no_header(writer)?;
            self.header = builder.into_header();
            Ok(w)
        }

        pub fn write_trailer(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
        //@     requires old(self).ok(), old(self).header@.len() == 0, old(self).inner.deflate_state.lz77_state.is_last_block,
        //@     ensures
        //@         final(self).ok(), final(self).header@.len() == 0, final(self).head() == old(self).head(), final(self).inner.deflate_state.same_options(old(self).inner.deflate_state), final(self).inner.deflate_state.gh@.sink0 == old(self).inner.deflate_state.gh@.sink0, // [P03 P08]
        //@         final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h, // [P03 P04 P08]
        //@         W::same(old(self).inner.deflate_state.inner->0, final(self).inner.deflate_state.inner->0),
        //@         r is Ok ==> final(self).inner.deflate_state.out().len() == 0 && final(self).inner.deflate_state.lz77_state.is_last_block && final(self).trailer_written, // [P03 P08]
        //@         r is Ok ==> complete(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.gh@.h, gz_tail(old(self).inner.deflate_state.gh@.h)), // [P03]
        //@         r is Ok && old(self).inner.deflate_state.det(Seq::empty()) ==> Self::gz_decided(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.compression_options, old(self).inner.deflate_state.gh@.h), // [P17]
        //@         old(self).inner.deflate_state.det(Seq::empty()) ==> final(self).inner.deflate_state.det(Seq::empty()), // [P17]
        //@         final(self).inner.deflate_state.due() <= old(self).inner.deflate_state.due(), // [P11]
        //@         r is Ok ==> sized(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head().len() + 8, old(self).inner.deflate_state.gh@.h, old(self).inner.deflate_state.due()), // [P11]
        //@         old(self).inner.deflate_state.inner->0.sure() ==> r is Ok && final(self).inner.deflate_state.inner->0.sure(), // [P07 P08 P16]
        {
            //@ let ghost o = *self;

            if !self.trailer_written {
                let crc = self.checksum.sum();
                let amount = self.checksum.amt_as_u32();
                let buf = self.inner.deflate_state.output_buf();
                buf.extend_from_slice(&crc.vx_to_le_bytes());
                buf.extend_from_slice(&amount.vx_to_le_bytes());
                self.trailer_written = true;
                //@ let ghost tl = gz_tail(o.inner.deflate_state.gh@.h);
                //@ proof { let x = o.inner.deflate_state.out(); let l = le32(crate::rfc::crc(o.inner.deflate_state.gh@.h)); let m = le32((o.inner.deflate_state.gh@.h.len() % 0x1_0000_0000) as u32); assert(x + l + m =~= x + tl); assert(self.inner.deflate_state.out() =~= x + tl); self.inner.deflate_state.gh@.tail = tl; self.inner.deflate_state.lemma_trailer(o.inner.deflate_state, tl); lemma_framed_plain(self.inner.deflate_state, o.inner.deflate_state); }
            }
            //@ assert forall|x: DeflateState<W>| #![trigger x.wf()] x.wf() && x.out().len() == 0 && x.lz77_state.is_last_block && x.det(Seq::empty()) implies decided(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre, x.compression_options, x.gh@.h, x.gh@.tail) by { x.lemma_decided(); }
            //@ assert forall|x: DeflateState<W>| #![trigger x.wf()] x.wf() && x.out().len() == 0 && x.lz77_state.is_last_block implies complete(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre, x.gh@.h, x.gh@.tail) && sized(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre.len() + x.gh@.tail.len(), x.gh@.h, x.gh@.ends) by { x.lemma_complete(); x.lemma_sized(); }
            self.inner.output_all()
        }

        pub fn checksum(&self) -> /*@ (r: @*/ u32 /*@ ) @*/
        //@     requires self.ok(),
        //@     ensures r == crc(self.inner.deflate_state.gh@.h), // [P15]
        {
            self.checksum.sum()
        }
    }

    impl<W: Write> /*-{*/io::Write for/*-}{ }*/ GzEncoder<W> {
        fn write(&mut self, buf: &[u8]) -> /*@ (r: @*/ io::Result<usize> /*@ ) @*/
        //@     requires old(self).ok(),
        //@     ensures
        //@         final(self).ok(), final(self).head() == old(self).head(), // [P03 P08 P15]
        //@         final(self).inner.deflate_state.same_options(old(self).inner.deflate_state), final(self).inner.deflate_state.gh@.sink0 == old(self).inner.deflate_state.gh@.sink0,
        //@         match r {
        //@             Ok(n) => n <= buf@.len() && final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h + buf@.subrange(0, n as int),
        //@             Err(_) => final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h,
        //@         }, // [P03 P04 P08 P15]
        //@         final(self).inner.deflate_state.due() <= old(self).inner.deflate_state.due(), // [P11]
        //@         r is Ok && r->Ok_0 == 0 ==> buf@.len() == 0 || old(self).inner.deflate_state.lz77_state.is_last_block, // [P04 P08]
        //@         old(self).inner.deflate_state.plain() ==> final(self).inner.deflate_state.plain(), // [P17]
        //@         old(self).inner.deflate_state.inner->0.sure() ==> final(self).inner.deflate_state.inner->0.sure() && (r is Err ==> r->Err_0.k is Interrupted), // [P08]
        {
            self.check_write_header();
            let res = self.inner.write(buf);
            match res {
                Ok(n) => self.checksum.update(&buf[0..n]),
                _ => (),
            };
            res
        }

        fn flush(&mut self) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
        //@     requires old(self).ok(),
        //@     ensures
        //@         final(self).ok(), final(self).head() == old(self).head(), final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h, final(self).inner.deflate_state.gh@.sink0 == old(self).inner.deflate_state.gh@.sink0, // [P05 P08]
        //@         r is Ok && !final(self).inner.deflate_state.lz77_state.is_last_block ==> complete_so_far(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.gh@.h), // [P05]
        //@         old(self).inner.deflate_state.inner->0.sure() ==> r is Ok && final(self).inner.deflate_state.inner->0.sure(), // [P05 P08]
        //@         final(self).inner.deflate_state.due() <= old(self).inner.deflate_state.due() + 1, // [P11]
        {
            self.check_write_header();
            self.inner.flush()
        }
    }

    impl<W: Write> /*-{*/Drop for/*-}{ }*/ GzEncoder<W> {

        fn drop(&mut self)
        //@     requires old(self).inner.deflate_state.inner is Some ==> old(self).ok(),
        //@     ensures
        //@         old(self).inner.deflate_state.inner is Some && !thread::unwinding() ==> final(self).ok() && final(self).inner.deflate_state.gh@.h == old(self).inner.deflate_state.gh@.h, // [P16]
        //@         old(self).inner.deflate_state.inner is Some && !thread::unwinding() && old(self).inner.deflate_state.inner->0.sure()
        //@             ==> complete(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.gh@.h, gz_tail(old(self).inner.deflate_state.gh@.h)), // [P16]
        //@         old(self).inner.deflate_state.inner is Some && !thread::unwinding() && old(self).inner.deflate_state.inner->0.sure() && old(self).inner.deflate_state.det(Seq::empty())
        //@             ==> Self::gz_decided(final(self).inner.deflate_state.inner->0.sink(), old(self).inner.deflate_state.gh@.sink0, old(self).head(), old(self).inner.deflate_state.compression_options, old(self).inner.deflate_state.gh@.h), // [P17]
        //@         old(self).inner.deflate_state.inner is None || thread::unwinding() ==> *final(self) == *old(self), // [P16]
        {
            if self.inner.deflate_state.inner.is_some() && !thread::panicking() {
                let _ = self.output_all();
            }
        }
    }
}

