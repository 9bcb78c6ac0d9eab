pub mod rfc {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
verus! {

// --- RFC 1951 as specification functions (trusted) --------------------------

pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }

/// 3.2.5: length symbols 257 + c.
pub open spec fn len_extra(c: int) -> int { if c < 8 || c == 28 { 0 } else { c / 4 - 1 } }
pub open spec fn len_base(c: int) -> int {
    if c < 8 { c + 3 } else if c == 28 { 258 } else { 3 + (4 + c % 4) * p2(c / 4 - 1) }
}
/// 3.2.5: distance symbols.
pub open spec fn dist_extra(c: int) -> int { if c < 4 { 0 } else { c / 2 - 1 } }
pub open spec fn dist_base(c: int) -> int {
    if c < 4 { c + 1 } else { 1 + (2 + c % 2) * p2(c / 2 - 1) }
}
/// The last symbol (of 0..=c) whose range starts at or below the length / distance.
pub open spec fn len_find(len: int, c: int) -> int decreases c {
    if c <= 0 || len_base(c) <= len { c } else { len_find(len, c - 1) }
}
pub open spec fn dist_find(dist: int, c: int) -> int decreases c {
    if c <= 0 || dist_base(c) <= dist { c } else { dist_find(dist, c - 1) }
}
pub open spec fn len_sym(len: int) -> int { len_find(len, 28) }
pub open spec fn dist_sym(dist: int) -> int { dist_find(dist, 29) }

/// 3.2.2: how many of the first k lengths are l.
pub open spec fn cnt(lens: Seq<u8>, l: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { cnt(lens, l, k - 1) + if lens[k - 1] == l { 1int } else { 0 } }
}
/// 3.2.2: the smallest code of length l.
pub open spec fn first_code(lens: Seq<u8>, l: int) -> int decreases l {
    if l <= 0 { 0 } else { 2 * (first_code(lens, l - 1) + if l >= 2 { cnt(lens, l - 1, lens.len() as int) } else { 0 }) }
}
/// 3.2.2: the code of symbol n.
pub open spec fn canon(lens: Seq<u8>, n: int) -> int {
    first_code(lens, lens[n] as int) + cnt(lens, lens[n] as int, n)
}
/// The lengths are at most m and do not over-subscribe the code space.
pub open spec fn kraft_ok(lens: Seq<u8>, m: int) -> bool {
    &&& forall|i: int| 0 <= i < lens.len() ==> lens[i] <= m
    &&& first_code(lens, m) + cnt(lens, m, lens.len() as int) <= p2(m)
}
/// Huffman codes are packed starting from the most significant bit of the code.
pub open spec fn msb(code: u64, n: nat) -> Seq<bool> {
    Seq::new(n, |i: int| bit(code, n - 1 - i))
}
pub open spec fn huff(lens: Seq<u8>, n: int) -> Seq<bool> {
    msb(canon(lens, n) as u64, lens[n] as nat)
}

/// 3.2.6
pub open spec fn fixed_ll() -> Seq<u8> {
    Seq::new(288, |i: int| if i < 144 { 8u8 } else if i < 256 { 9u8 } else if i < 280 { 7u8 } else { 8u8 })
}
pub open spec fn fixed_dd() -> Seq<u8> { Seq::new(32, |i: int| 5u8) }

// --- tokens -------------------------------------------------------------------

pub enum Token { Lit(u8), Match(int, int) }

/// The token stands for the next bytes after `out`.
pub open spec fn token_ok(t: Token, pos: int) -> bool {
    match t {
        Token::Lit(_) => true,
        Token::Match(l, d) => 3 <= l <= 258 && 1 <= d <= 32768 && d <= pos,
    }
}
/// What a decoder appends (overlapping copies repeat the last d bytes).
pub open spec fn expand_token(out: Seq<u8>, t: Token) -> Seq<u8> {
    match t {
        Token::Lit(b) => out.push(b),
        Token::Match(l, d) => out + Seq::new(l as nat, |i: int| out[out.len() - d + i % d]),
    }
}
pub open spec fn expand(out: Seq<u8>, ts: Seq<Token>) -> Seq<u8> decreases ts.len() {
    if ts.len() == 0 { out } else { expand_token(expand(out, ts.drop_last()), ts.last()) }
}
pub open spec fn tokens_ok(out: Seq<u8>, ts: Seq<Token>) -> bool decreases ts.len() {
    ts.len() == 0 || (tokens_ok(out, ts.drop_last()) && token_ok(ts.last(), expand(out, ts.drop_last()).len() as int))
}

pub open spec fn enc_token(t: Token, ll: Seq<u8>, dd: Seq<u8>) -> Seq<bool> {
    match t {
        Token::Lit(b) => huff(ll, b as int),
        Token::Match(l, d) => {
            let lc = len_sym(l);
            let dc = dist_sym(d);
            huff(ll, 257 + lc) + lsb((l - len_base(lc)) as u64, len_extra(lc) as nat)
                + huff(dd, dc) + lsb((d - dist_base(dc)) as u64, dist_extra(dc) as nat)
        }
    }
}
pub open spec fn enc_tokens(ts: Seq<Token>, ll: Seq<u8>, dd: Seq<u8>) -> Seq<bool> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else { enc_tokens(ts.drop_last(), ll, dd) + enc_token(ts.last(), ll, dd) }
}
/// Every symbol the token needs has a code.
pub open spec fn token_coded(t: Token, ll: Seq<u8>, dd: Seq<u8>) -> bool {
    match t {
        Token::Lit(b) => ll[b as int] > 0,
        Token::Match(l, d) => ll[257 + len_sym(l)] > 0 && dd[dist_sym(d)] > 0,
    }
}

/// The symbol a token counts for.
pub open spec fn ll_sym(t: Token) -> int { match t { Token::Lit(b) => b as int, Token::Match(l, _) => 257 + len_sym(l) } }
pub open spec fn dd_sym(t: Token) -> int { match t { Token::Lit(_) => -1, Token::Match(_, d) => dist_sym(d) } }
pub open spec fn freq_ll(ts: Seq<Token>, s: int) -> int decreases ts.len() {
    if ts.len() == 0 { if s == 256 { 1 } else { 0 } } else { freq_ll(ts.drop_last(), s) + if ll_sym(ts.last()) == s { 1int } else { 0 } }
}
pub open spec fn freq_dd(ts: Seq<Token>, s: int) -> int decreases ts.len() {
    if ts.len() == 0 { 0 } else { freq_dd(ts.drop_last(), s) + if dd_sym(ts.last()) == s { 1int } else { 0 } }
}
/// Length and distance are in range.
pub open spec fn token_range(t: Token) -> bool {
    match t { Token::Lit(_) => true, Token::Match(l, d) => 3 <= l <= 258 && 1 <= d <= 32768 }
}

// --- RFC 1950 / 1952 ----------------------------------------------------------

/// RFC 1950: s1 and s2 after the bytes.
pub open spec fn adler_s1(d: Seq<u8>) -> int decreases d.len() { if d.len() == 0 { 1 } else { (adler_s1(d.drop_last()) + d.last()) % 65521 } }
pub open spec fn adler_s2(d: Seq<u8>) -> int decreases d.len() { if d.len() == 0 { 0 } else { (adler_s2(d.drop_last()) + adler_s1(d)) % 65521 } }
pub open spec fn adler(d: Seq<u8>) -> u32 { (adler_s2(d) * 65536 + adler_s1(d)) as u32 }

/// RFC 1952: the CRC register after the bytes (reflected polynomial).
pub open spec fn crc_step(c: u32, k: int) -> u32 decreases k {
    if k <= 0 { c } else { let d = crc_step(c, k - 1); if d & 1 == 1 { 0xedb88320u32 ^ (d >> 1) } else { d >> 1 } }
}
pub open spec fn crc_reg(d: Seq<u8>) -> u32 decreases d.len() {
    if d.len() == 0 { 0xffff_ffff } else { let c = crc_reg(d.drop_last()); crc_step((c ^ d.last() as u32) & 0xff, 8) ^ (c >> 8) }
}
pub open spec fn crc(d: Seq<u8>) -> u32 { crc_reg(d) ^ 0xffff_ffff }

pub open spec fn le16(v: u16) -> Seq<u8> { seq![v as u8, (v >> 8) as u8] }
pub open spec fn le32(v: u32) -> Seq<u8> { seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8] }
pub open spec fn be32(v: u32) -> Seq<u8> { seq![(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8] }

/// 3.2.4: LEN, NLEN and the bytes of a stored block.
pub open spec fn stored_body(d: Seq<u8>) -> Seq<u8> {
    le16(d.len() as u16) + le16(!(d.len() as u16)) + d
}

} // verus!
}
