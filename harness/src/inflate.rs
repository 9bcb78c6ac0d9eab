//! Strict RFC 1951 decoder which records blocks, headers and tokens.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Token {
    Lit(u8),
    Match { len: u16, dist: u32 },
}

#[derive(Clone, Debug)]
pub struct Block {
    pub last: bool,
    /// 0 stored, 1 fixed, 2 dynamic
    pub kind: u8,
    pub bit_start: usize,
    pub bit_end: usize,
    pub out_start: usize,
    pub out_end: usize,
    pub tokens: Vec<Token>,
    pub ll: Vec<u8>,
    pub dd: Vec<u8>,
    pub cl: Vec<u8>,
    pub header_bits: usize,
}

pub struct Decoded {
    pub out: Vec<u8>,
    pub blocks: Vec<Block>,
    pub complete: bool,
    /// bytes used (only meaningful when complete), or byte position when the input ended at a block boundary
    pub used: usize,
    pub bit_pos: usize,
}

struct Bits<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> Bits<'a> {
    fn left(&self) -> usize {
        self.d.len() * 8 - self.p
    }
    fn get(&mut self, n: usize) -> Result<u32, String> {
        if self.left() < n {
            return Err(format!("unexpected end of stream at bit {}", self.p));
        }
        let mut v = 0;
        for i in 0..n {
            let b = (self.d[self.p >> 3] >> (self.p & 7)) & 1;
            v |= (b as u32) << i;
            self.p += 1;
        }
        Ok(v)
    }
}

/// Canonical decoding tables: count per length, symbols in order.
struct Huff {
    count: [u16; 16],
    syms: Vec<u16>,
    /// lookup of 10 bits: (sym, len) or len 0
    fast: Vec<(u16, u8)>,
}

/// Kraft sum in units of 2^-15; checks over-subscription.
pub fn kraft(lens: &[u8]) -> u32 {
    lens.iter().filter(|&&l| l > 0).map(|&l| 1u32 << (15 - l as u32)).sum()
}

/// RFC 1951 3.2.2 canonical codes (MSB-first values).
pub fn canonical(lens: &[u8]) -> Vec<u16> {
    let mut bl = [0u32; 17];
    for &l in lens {
        if l > 0 {
            bl[l as usize] += 1;
        }
    }
    let mut next = [0u32; 17];
    let mut code = 0u32;
    for b in 1..=15 {
        code = (code + bl[b - 1]) << 1;
        next[b] = code;
    }
    lens.iter()
        .map(|&l| {
            if l == 0 {
                0
            } else {
                let c = next[l as usize];
                next[l as usize] += 1;
                c as u16
            }
        })
        .collect()
}

impl Huff {
    fn new(lens: &[u8], what: &str, max: u8, need_complete: bool) -> Result<Huff, String> {
        if let Some(l) = lens.iter().find(|&&l| l > max) {
            return Err(format!("{what}: code length {l} above limit {max}"));
        }
        let used = lens.iter().filter(|&&l| l > 0).count();
        let k = kraft(lens);
        if k > 1 << 15 {
            return Err(format!("{what}: over-subscribed code set"));
        }
        if need_complete && used >= 2 && k != 1 << 15 {
            return Err(format!("{what}: incomplete code set"));
        }
        if used == 1 && lens.iter().any(|&l| l > 1) {
            return Err(format!("{what}: single code with length other than 1"));
        }
        let mut count = [0u16; 16];
        for &l in lens {
            count[l as usize] += 1;
        }
        count[0] = 0;
        let mut offs = [0usize; 17];
        for i in 1..16 {
            offs[i + 1] = offs[i] + count[i] as usize;
        }
        let mut syms = vec![0u16; used];
        for (s, &l) in lens.iter().enumerate() {
            if l > 0 {
                syms[offs[l as usize]] = s as u16;
                offs[l as usize] += 1;
            }
        }
        let mut fast = vec![(0u16, 0u8); 1024];
        let codes = canonical(lens);
        for (s, &l) in lens.iter().enumerate() {
            if l > 0 && l <= 10 {
                let mut rev = 0usize;
                for i in 0..l {
                    if codes[s] >> i & 1 == 1 {
                        rev |= 1 << (l - 1 - i);
                    }
                }
                let mut x = rev;
                while x < 1024 {
                    fast[x] = (s as u16, l);
                    x += 1 << l;
                }
            }
        }
        Ok(Huff { count, syms, fast })
    }
    fn decode(&self, b: &mut Bits) -> Result<u16, String> {
        if b.left() >= 16 {
            let i = b.p >> 3;
            let w = b.d[i] as u32
                | (b.d[i + 1] as u32) << 8
                | (*b.d.get(i + 2).unwrap_or(&0) as u32) << 16;
            let x = (w >> (b.p & 7)) & 1023;
            let (s, l) = self.fast[x as usize];
            if l > 0 {
                b.p += l as usize;
                return Ok(s);
            }
        }
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for len in 1..16 {
            code |= b.get(1)? as i32;
            let c = self.count[len] as i32;
            if code - c < first {
                return Ok(self.syms[(index + (code - first)) as usize]);
            }
            index += c;
            first += c;
            first <<= 1;
            code <<= 1;
        }
        Err(format!("invalid code at bit {}", b.p))
    }
}

pub const LBASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258,
];
pub const LEXT: [u8; 29] = [
    0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
];
pub const DBASE: [u32; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145,
    8193, 12289, 16385, 24577,
];
pub const DEXT: [u8; 30] = [
    0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13,
];
pub const CLORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

pub fn fixed_ll() -> Vec<u8> {
    let mut v = vec![8u8; 144];
    v.extend(vec![9; 112]);
    v.extend(vec![7; 24]);
    v.extend(vec![8; 8]);
    v
}

/// RFC symbol of a match length, by range search.
pub fn len_sym(len: u16) -> (usize, u8, u16) {
    assert!((3..=258).contains(&len));
    if len == 258 {
        return (285, 0, 0);
    }
    let i = (0..28).rev().find(|&i| LBASE[i] <= len).unwrap();
    (257 + i, LEXT[i], len - LBASE[i])
}
pub fn dist_sym(dist: u32) -> (usize, u8, u16) {
    assert!((1..=32768).contains(&dist));
    let i = (0..30).rev().find(|&i| DBASE[i] <= dist).unwrap();
    (i, DEXT[i], (dist - DBASE[i]) as u16)
}

/// Number of bits of the tokens (with end of block) under the given lengths.
pub fn token_bits(tokens: &[Token], ll: &[u8], dd: &[u8]) -> usize {
    let mut n = ll[256] as usize;
    for t in tokens {
        match *t {
            Token::Lit(b) => n += ll[b as usize] as usize,
            Token::Match { len, dist } => {
                let (s, e, _) = len_sym(len);
                let (ds, de, _) = dist_sym(dist);
                n += ll[s] as usize + e as usize + dd[ds] as usize + de as usize;
            }
        }
    }
    n
}

/// Decode. With `partial`, the data may end at a byte-aligned block boundary after a non-final block.
pub fn inflate(d: &[u8], partial: bool) -> Result<Decoded, String> {
    let mut b = Bits { d, p: 0 };
    let mut out: Vec<u8> = Vec::new();
    let mut blocks = Vec::new();
    loop {
        if partial && b.left() == 0 {
            return Ok(Decoded { out, blocks, complete: false, used: d.len(), bit_pos: b.p });
        }
        let bit_start = b.p;
        let out_start = out.len();
        let last = b.get(1)? == 1;
        let kind = b.get(2)? as u8;
        let mut blk = Block {
            last,
            kind,
            bit_start,
            bit_end: 0,
            out_start,
            out_end: 0,
            tokens: vec![],
            ll: vec![],
            dd: vec![],
            cl: vec![],
            header_bits: 0,
        };
        match kind {
            0 => {
                b.p = (b.p + 7) & !7;
                let len = b.get(16)?;
                let nlen = b.get(16)?;
                if len ^ nlen != 0xffff {
                    return Err(format!("stored block at bit {bit_start}: LEN/NLEN mismatch"));
                }
                let s = b.p / 8;
                if s + len as usize > d.len() {
                    return Err("unexpected end in stored block".into());
                }
                out.extend_from_slice(&d[s..s + len as usize]);
                b.p += len as usize * 8;
            }
            1 | 2 => {
                if kind == 1 {
                    blk.ll = fixed_ll();
                    blk.dd = vec![5; 32];
                } else {
                    let hlit = b.get(5)? as usize + 257;
                    let hdist = b.get(5)? as usize + 1;
                    let hclen = b.get(4)? as usize + 4;
                    if hlit > 286 || hdist > 30 {
                        return Err(format!("too many lengths {hlit} {hdist}"));
                    }
                    let mut cl = vec![0u8; 19];
                    for i in 0..hclen {
                        cl[CLORDER[i]] = b.get(3)? as u8;
                    }
                    let h = Huff::new(&cl, "code length code", 7, true)?;
                    let mut lens: Vec<u8> = vec![];
                    while lens.len() < hlit + hdist {
                        let s = h.decode(&mut b)?;
                        match s {
                            0..=15 => lens.push(s as u8),
                            16 => {
                                let p = *lens.last().ok_or("repeat with no previous length")?;
                                let n = 3 + b.get(2)?;
                                for _ in 0..n {
                                    lens.push(p)
                                }
                            }
                            17 => {
                                let n = 3 + b.get(3)?;
                                for _ in 0..n {
                                    lens.push(0)
                                }
                            }
                            _ => {
                                let n = 11 + b.get(7)?;
                                for _ in 0..n {
                                    lens.push(0)
                                }
                            }
                        }
                    }
                    if lens.len() != hlit + hdist {
                        return Err("run of lengths goes past the end".into());
                    }
                    blk.dd = lens.split_off(hlit);
                    blk.ll = lens;
                    blk.cl = cl;
                    if blk.ll[256] == 0 {
                        return Err("no code for end of block".into());
                    }
                }
                blk.header_bits = b.p - bit_start;
                let ll = Huff::new(&blk.ll, "literal/length code", 15, true)?;
                let dd = Huff::new(&blk.dd, "distance code", 15, true)?;
                loop {
                    let s = ll.decode(&mut b)? as usize;
                    if s < 256 {
                        out.push(s as u8);
                        blk.tokens.push(Token::Lit(s as u8));
                    } else if s == 256 {
                        break;
                    } else {
                        if s > 285 {
                            return Err(format!("invalid length symbol {s}"));
                        }
                        let len = LBASE[s - 257] + b.get(LEXT[s - 257] as usize)? as u16;
                        if s != 285 && len > 257 {
                            return Err("length 258 coded with symbol 284".into());
                        }
                        let ds = dd.decode(&mut b)? as usize;
                        if ds > 29 {
                            return Err(format!("invalid distance symbol {ds}"));
                        }
                        let dist = DBASE[ds] + b.get(DEXT[ds] as usize)?;
                        if dist as usize > out.len() {
                            return Err(format!(
                                "distance {dist} too far back at output position {}",
                                out.len()
                            ));
                        }
                        let st = out.len() - dist as usize;
                        for k in 0..len as usize {
                            let x = out[st + k];
                            out.push(x);
                        }
                        blk.tokens.push(Token::Match { len, dist });
                    }
                }
            }
            _ => return Err(format!("reserved block type at bit {bit_start}")),
        }
        blk.bit_end = b.p;
        blk.out_end = out.len();
        blocks.push(blk);
        if last {
            return Ok(Decoded { out, blocks, complete: true, used: (b.p + 7) / 8, bit_pos: b.p });
        }
    }
}

/// A complete stream with nothing after it.
pub fn inflate_exact(d: &[u8]) -> Result<Decoded, String> {
    let r = inflate(d, false)?;
    if r.used != d.len() {
        return Err(format!("{} bytes after the final block", d.len() - r.used));
    }
    Ok(r)
}
