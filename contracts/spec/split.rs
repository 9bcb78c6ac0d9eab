pub mod split {
#[allow(unused_imports)] use vstd::prelude::*;
use crate::rfc::*;
use crate::lz77::{b2n, at_most, ChunkState, ProcessStatus, MatchingType};
use crate::stream::*;
use crate::compress::stored_blocks;
verus! {

// The compressor as a function of the data: what it does is decided by the options and by the data still to come, taken
// as a whole (`u`: from the start of the input buffer to the end of all data), not by the pieces in which the data arrives.

/// a hash table
pub ghost struct Tab { pub cur: u16, pub head: Seq<u16>, pub prev: Seq<u16> }
pub open spec fn tab_hash(cur: u16, b: u8) -> u16 { ((cur << 5u16) ^ (b as u16)) & 32767u16 }
pub open spec fn tab_put(t: Tab, pos: int, hash: u16) -> Tab {
    Tab { cur: t.cur, head: t.head.update(hash as int, pos as u16), prev: t.prev.update(((pos as usize) & 32767usize) as int, t.head[hash as int]) }
}
pub open spec fn tab_add(t: Tab, pos: int, b: u8) -> Tab { let h = tab_hash(t.cur, b); Tab { cur: h, ..tab_put(t, pos, h) } }
pub open spec fn tab_slid(t: Tab, n: u16) -> Tab { Tab { cur: t.cur, head: slid(t.head, n), prev: slid(t.prev, n) } }
pub open spec fn slid(a: Seq<u16>, n: u16) -> Seq<u16> { Seq::new(a.len(), |i: int| if a[i] >= n { (a[i] - n) as u16 } else { i as u16 }) }
/// the first `n` bytes of the upper window, added up to the place of the third byte after each
pub open spec fn tab_adds(t: Tab, d: Seq<u8>, n: int) -> Tab decreases n { if n <= 0 { t } else { tab_add(tab_adds(t, d, n - 1), 32768 + n - 1, d[32770 + n - 1]) } }
pub open spec fn tab0() -> Tab { Tab { cur: 0, head: Seq::new(32768, |i: int| i as u16), prev: Seq::new(32768, |i: int| i as u16) } }

/// what lz77_compress_block goes by, apart from the data
pub ghost struct Lz { pub tab: Tab, pub first: bool, pub last: bool, pub overlap: int, pub count: int, pub ms: ChunkState, pub tohash: int, pub ts: Seq<Token>, pub checks: u16, pub lazy: u16, pub mt: MatchingType }
pub ghost struct Chunk { pub r: (usize, ProcessStatus), pub ms: ChunkState, pub tab: Tab, pub ts: Seq<Token> }
/// process_chunk (for `start..end` of `d`) as a function
pub uninterp spec fn chunk_of(d: Seq<u8>, start: int, end: int, ms: ChunkState, tab: Tab, ts: Seq<Token>, checks: u16, lazy: u16, mt: MatchingType) -> Chunk;
/// the form gen_huffman_lengths chooses for a block, as a function of its tokens, its number of input bytes, and where in a byte it starts
pub ghost enum Form { Fixed, Stored, Dynamic(Header, Seq<u8>, Seq<u8>) }
pub uninterp spec fn form_of(ts: Seq<Token>, n: int, p: int) -> Form;

/// the code lengths in_place_lengths gives for these frequencies, with this longest length, in `n` places
pub uninterp spec fn lens_of(f: Seq<u16>, longest: int, n: int) -> Seq<u8>;
/// how encode_lengths_m describes code lengths
pub uninterp spec fn enc_of(all: Seq<u8>) -> (Seq<crate::length_encode::EncodedLength>, Seq<u16>);

pub open spec fn slide(t: Tab, checks: u16) -> Tab { if checks > 0 { tab_slid(t, 32768) } else { t } }
pub open spec fn window(u: Seq<u8>) -> Seq<u8> { u.subrange(0, at_most(65794, u.len() as int)) }
pub open spec fn hashed(s: Lz, d: Seq<u8>) -> Tab {
    if s.first {
        if d.len() >= 2 && s.count == 0 { Tab { cur: tab_hash(tab_hash(s.tab.cur, d[0]), d[1]), ..s.tab } } else { s.tab }
    } else if d.len() >= 32770 { tab_adds(s.tab, d, at_most(s.tohash, d.len() - 32770)) } else { s.tab }
}
/// One step: the next window is processed as far as it goes. Where a block ends, its end in `u` is given.
pub open spec fn lz_step(s: Lz, u: Seq<u8>) -> (Lz, Seq<u8>, Option<int>) {
    if s.overlap > 32768 {
        (Lz { tab: slide(s.tab, s.checks), overlap: s.overlap - 32768, ..s }, u.subrange(32768, u.len() as int), None)
    } else {
        let d = window(u);
        let ws = if s.first { 0int } else { 32768 };
        let start = ws + s.overlap;
        let end = at_most(32768 + ws, d.len() as int);
        let c = chunk_of(d, start, end, s.ms, hashed(s, d), s.ts, s.checks, s.lazy, s.mt);
        let b = Lz { tab: c.tab, ms: c.ms, ts: c.ts, tohash: c.r.0 as int, ..s };
        match c.r.1 {
            ProcessStatus::BufferFull(x) =>
                (Lz { count: s.count + x - start + b2n(s.ms.add) - b2n(c.ms.add), first: s.first && c.r.0 == 0, overlap: if c.r.0 > 0 && s.first { c.r.0 as int } else { x - ws }, ..b }, u, Some(x - b2n(c.ms.add))),
            ProcessStatus::Ok => {
                let e = Lz { count: s.count + end - start + c.r.0 + b2n(s.ms.add) - b2n(c.ms.add), overlap: c.r.0 as int, first: false, ..b };
                if end >= d.len() { (Lz { last: true, ..e }, u, Some(if s.first { end - b2n(c.ms.add) } else { d.len() as int })) }
                else if s.first { (e, u, None) }
                else { (Lz { tab: slide(c.tab, s.checks), ..e }, u.subrange(32768, u.len() as int), None) }
            }
        }
    }
}

/// the compressor, with the blocks output so far
pub ghost struct Run { pub s: Lz, pub u: Seq<u8>, pub bs: Seq<Block> }
pub open spec fn new_blocks(f: Form, ts: Seq<Token>, last: bool, data: Seq<u8>) -> Seq<Block> {
    match f {
        Form::Fixed => seq![Block::Fixed(last, ts)],
        Form::Stored => stored_blocks(data, last),
        Form::Dynamic(hd, ll, dd) => seq![Block::Dynamic(last, hd, ll, dd, ts)],
    }
}
/// the block is output
pub open spec fn put(s: Lz, u: Seq<u8>, bs: Seq<Block>, end: int) -> Run {
    Run { s: Lz { ts: Seq::empty(), count: 0, ..s }, u, bs: bs + new_blocks(form_of(s.ts, s.count, (enc_blocks(bs).len() % 8) as int), s.ts, s.last, u.subrange(end - s.count, end)) }
}
pub open spec fn step(r: Run) -> Run {
    if r.s.last { r } else {
        let z = lz_step(r.s, r.u);
        match z.2 { None => Run { s: z.0, u: z.1, bs: r.bs }, Some(p) => put(z.0, z.1, r.bs, p) }
    }
}
pub open spec fn run(r: Run, n: nat) -> Run decreases n { if n == 0 { r } else { step(run(r, (n - 1) as nat)) } }
pub open spec fn leads(a: Run, b: Run) -> bool { exists|n: nat| #[trigger] run(a, n) == b }
pub open spec fn lz0(checks: u16, lazy: u16, mt: MatchingType) -> Lz {
    Lz { tab: tab0(), first: true, last: false, overlap: 0, count: 0, ms: ChunkState { current_length: 0, current_distance: 0, prev_byte: 0, cur_byte: 0, add: false }, tohash: 0, ts: Seq::empty(), checks, lazy, mt }
}
pub open spec fn run0(checks: u16, lazy: u16, mt: MatchingType, h: Seq<u8>) -> Run { Run { s: lz0(checks, lazy, mt), u: h, bs: Seq::empty() } }
/// The blocks for the data `h`.
pub open spec fn blocks_of(checks: u16, lazy: u16, mt: MatchingType, h: Seq<u8>) -> Seq<Block> {
    let n = choose|n: nat| (#[trigger] run(run0(checks, lazy, mt, h), n)).s.last;
    run(run0(checks, lazy, mt, h), n).bs
}

pub proof fn lemma_leads_refl(a: Run)
    ensures leads(a, a),
{ assert(run(a, 0) == a); }
pub proof fn lemma_run_add(a: Run, m: nat, n: nat)
    ensures run(run(a, m), n) == run(a, m + n),
    decreases n,
{ if n > 0 { lemma_run_add(a, m, (n - 1) as nat); } }
pub proof fn lemma_leads_trans(a: Run, b: Run, c: Run)
    requires leads(a, b), leads(b, c),
    ensures leads(a, c),
{
    let m = choose|n: nat| #[trigger] run(a, n) == b; let n = choose|n: nat| #[trigger] run(b, n) == c;
    lemma_run_add(a, m, n);
    assert(run(a, m + n) == c);
}
pub proof fn lemma_leads_step(a: Run, b: Run)
    requires leads(a, b),
    ensures leads(a, step(b)),
{
    let m = choose|n: nat| #[trigger] run(a, n) == b;
    assert(run(a, (m + 1) as nat) == step(b));
}
/// after the last block nothing changes
pub proof fn lemma_end(a: Run, m: nat, n: nat)
    requires run(a, m).s.last, m <= n,
    ensures run(a, n) == run(a, m),
    decreases n - m,
{ if m < n { lemma_end(a, m, (n - 1) as nat); } }
/// What is reached at the end is decided by the options and the data.
pub proof fn lemma_blocks_of(checks: u16, lazy: u16, mt: MatchingType, h: Seq<u8>, z: Run)
    requires leads(run0(checks, lazy, mt, h), z), z.s.last,
    ensures z.bs == blocks_of(checks, lazy, mt, h),
{
    let a = run0(checks, lazy, mt, h);
    let m = choose|n: nat| #[trigger] run(a, n) == z;
    assert(run(a, m).s.last);
    let n = choose|n: nat| (#[trigger] run(a, n)).s.last;
    if m <= n { lemma_end(a, m, n); } else { lemma_end(a, n, m); }
}

} // verus!
}
