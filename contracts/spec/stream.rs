pub mod stream {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
use crate::rfc::*;
verus! {

// --- RFC 1951 3.2.3 - 3.2.7: blocks and streams (trusted) -----------------------

pub open spec fn block_start(last: bool, btype: u64) -> Seq<bool> { seq![last] + lsb(btype, 2) }

/// 3.2.7: the code length alphabet.
pub enum ClSym { Len(u8), Copy(u8), Zero3(u8), Zero7(u8) }
pub open spec fn cl_num(s: ClSym) -> int {
    match s { ClSym::Len(l) => l as int, ClSym::Copy(_) => 16, ClSym::Zero3(_) => 17, ClSym::Zero7(_) => 18 }
}
/// ... with the ranges its extra bits allow
pub open spec fn cl_sym_ok(s: ClSym) -> bool {
    match s { ClSym::Len(l) => l <= 15, ClSym::Copy(n) => 3 <= n <= 6, ClSym::Zero3(n) => 3 <= n <= 10, ClSym::Zero7(n) => 11 <= n <= 138 }
}
/// what a decoder appends to the lengths it has
pub open spec fn cl_expand1(out: Seq<u8>, s: ClSym) -> Seq<u8> {
    match s {
        ClSym::Len(l) => out.push(l),
        ClSym::Copy(n) => out + Seq::new(n as nat, |i: int| out.last()),
        ClSym::Zero3(n) => out + Seq::new(n as nat, |i: int| 0u8),
        ClSym::Zero7(n) => out + Seq::new(n as nat, |i: int| 0u8),
    }
}
pub open spec fn cl_expand(ss: Seq<ClSym>) -> Seq<u8> decreases ss.len() {
    if ss.len() == 0 { Seq::empty() } else { cl_expand1(cl_expand(ss.drop_last()), ss.last()) }
}
/// every symbol is in range, and a copy has something to copy
pub open spec fn cl_ok(ss: Seq<ClSym>) -> bool decreases ss.len() {
    ss.len() == 0 || (cl_ok(ss.drop_last()) && cl_sym_ok(ss.last()) && (ss.last() is Copy ==> cl_expand(ss.drop_last()).len() > 0))
}
pub open spec fn cl_extra(s: ClSym) -> Seq<bool> {
    match s {
        ClSym::Len(_) => Seq::empty(),
        ClSym::Copy(n) => lsb((n - 3) as u64, 2),
        ClSym::Zero3(n) => lsb((n - 3) as u64, 3),
        ClSym::Zero7(n) => lsb((n - 11) as u64, 7),
    }
}
pub open spec fn enc_cl(ss: Seq<ClSym>, cl: Seq<u8>) -> Seq<bool> decreases ss.len() {
    if ss.len() == 0 { Seq::empty() } else { enc_cl(ss.drop_last(), cl) + huff(cl, cl_num(ss.last())) + cl_extra(ss.last()) }
}
/// 3.2.7: the order in which the code length code lengths are sent.
pub open spec fn cl_order() -> Seq<u8> { seq![16u8, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] }
pub open spec fn enc_cl_lens(cl: Seq<u8>, n: int) -> Seq<bool> decreases n {
    if n <= 0 { Seq::empty() } else { enc_cl_lens(cl, n - 1) + lsb(cl[cl_order()[n - 1] as int] as u64, 3) }
}
/// How the header of a dynamic block describes its codes.
pub struct Header { pub hlit: int, pub hdist: int, pub hclen: int, pub cl: Seq<u8>, pub syms: Seq<ClSym> }
pub open spec fn enc_header(h: Header) -> Seq<bool> {
    lsb((h.hlit - 257) as u64, 5) + lsb((h.hdist - 1) as u64, 5) + lsb((h.hclen - 4) as u64, 4)
        + enc_cl_lens(h.cl, h.hclen) + enc_cl(h.syms, h.cl)
}
/// Reading the header gives exactly the code lengths ll and dd.
pub open spec fn header_ok(h: Header, ll: Seq<u8>, dd: Seq<u8>) -> bool {
    &&& 257 <= h.hlit <= 286 && 1 <= h.hdist <= 30 && 4 <= h.hclen <= 19
    &&& ll.len() == 288 && dd.len() == 32 && h.cl.len() == 19
    &&& kraft_ok(h.cl, 7)
    &&& forall|i: int| h.hclen <= i < 19 ==> #[trigger] h.cl[cl_order()[i] as int] == 0
    &&& cl_ok(h.syms)
    &&& forall|i: int| 0 <= i < h.syms.len() ==> h.cl[cl_num(#[trigger] h.syms[i])] > 0
    &&& cl_expand(h.syms) == ll.subrange(0, h.hlit) + dd.subrange(0, h.hdist)
    &&& forall|i: int| h.hlit <= i < 288 ==> ll[i] == 0
    &&& forall|i: int| h.hdist <= i < 32 ==> dd[i] == 0
}

pub open spec fn all_coded(ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>) -> bool {
    ll[256] > 0 && forall|i: int| 0 <= i < ts.len() ==> token_range(#[trigger] ts[i]) && token_coded(ts[i], ll, dd)
}

pub enum Block {
    Stored(bool, Seq<u8>),
    Fixed(bool, Seq<Token>),
    Dynamic(bool, Header, Seq<u8>, Seq<u8>, Seq<Token>),
}
pub open spec fn last_of(b: Block) -> bool { match b { Block::Stored(l, _) => l, Block::Fixed(l, _) => l, Block::Dynamic(l, _, _, _, _) => l } }
pub open spec fn block_ok(b: Block) -> bool {
    match b {
        Block::Stored(_, d) => d.len() <= 65535,
        Block::Fixed(_, ts) => all_coded(ts, fixed_ll(), fixed_dd()),
        Block::Dynamic(_, h, ll, dd, ts) => header_ok(h, ll, dd) && kraft_ok(ll, 15) && kraft_ok(dd, 15) && all_coded(ts, ll, dd),
    }
}
pub open spec fn enc_body(ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>) -> Seq<bool> { enc_tokens(ts, ll, dd) + huff(ll, 256) }
/// The bits of a block that starts after `at` bits.
pub open spec fn enc_block(b: Block, at: nat) -> Seq<bool> {
    match b {
        Block::Stored(l, d) => block_start(l, 0) + pad(at + 3) + byte_bits(stored_body(d)),
        Block::Fixed(l, ts) => block_start(l, 1) + enc_body(ts, fixed_ll(), fixed_dd()),
        Block::Dynamic(l, h, ll, dd, ts) => block_start(l, 2) + enc_header(h) + enc_body(ts, ll, dd),
    }
}
pub open spec fn enc_blocks(bs: Seq<Block>) -> Seq<bool> decreases bs.len() {
    if bs.len() == 0 { Seq::empty() } else {
        let a = enc_blocks(bs.drop_last());
        a + enc_block(bs.last(), a.len())
    }
}
/// What a decoder has output after the block.
pub open spec fn block_out(out: Seq<u8>, b: Block) -> Seq<u8> {
    match b {
        Block::Stored(_, d) => out + d,
        Block::Fixed(_, ts) => expand(out, ts),
        Block::Dynamic(_, _, _, _, ts) => expand(out, ts),
    }
}
pub open spec fn blocks_out(bs: Seq<Block>) -> Seq<u8> decreases bs.len() {
    if bs.len() == 0 { Seq::empty() } else { block_out(blocks_out(bs.drop_last()), bs.last()) }
}
pub open spec fn block_toks(b: Block) -> Seq<Token> { match b { Block::Stored(_, _) => Seq::empty(), Block::Fixed(_, ts) => ts, Block::Dynamic(_, _, _, _, ts) => ts } }
/// Every block is valid, back-references stay inside the stream, no block follows a final one.
pub open spec fn blocks_ok(bs: Seq<Block>) -> bool decreases bs.len() {
    bs.len() == 0 || {
        &&& blocks_ok(bs.drop_last())
        &&& block_ok(bs.last())
        &&& tokens_ok(blocks_out(bs.drop_last()), block_toks(bs.last()))
        &&& bs.len() > 1 ==> !last_of(bs[bs.len() - 2])
    }
}
/// `s` is a complete RFC 1951 stream for `data`.
pub open spec fn is_stream(s: Seq<u8>, bs: Seq<Block>, data: Seq<u8>) -> bool {
    &&& blocks_ok(bs) && bs.len() > 0 && last_of(bs.last())
    &&& blocks_out(bs) == data
    &&& byte_bits(s) == enc_blocks(bs) + pad(enc_blocks(bs).len())
}
/// `s` ends with an empty stored block, on a byte boundary, and everything before it stands for `data`.
pub open spec fn is_synced(s: Seq<u8>, bs: Seq<Block>, data: Seq<u8>) -> bool {
    &&& blocks_ok(bs) && bs.len() > 0 && bs.last() == Block::Stored(false, Seq::empty())
    &&& blocks_out(bs) == data
    &&& byte_bits(s) == enc_blocks(bs)
}

pub proof fn lemma_blocks_push(bs: Seq<Block>, b: Block)
    ensures
        enc_blocks(bs.push(b)) == enc_blocks(bs) + enc_block(b, enc_blocks(bs).len()),
        blocks_out(bs.push(b)) == block_out(blocks_out(bs), b),
        blocks_ok(bs) && block_ok(b) && tokens_ok(blocks_out(bs), block_toks(b)) && (bs.len() > 0 ==> !last_of(bs.last()))
            ==> blocks_ok(bs.push(b)),
{
    assert(bs.push(b).drop_last() =~= bs);
}

} // verus!
}
