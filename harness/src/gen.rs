//! Deterministic generators of data, options and splits, aimed at window, block and code-length boundaries.
use crate::Rng;
use deflate::{Compression, CompressionOptions, MatchingType};

/// Interesting sizes: around block (31744 tokens), window (32768), buffer (65794) and output-buffer limits.
pub fn size(r: &mut Rng, big: bool) -> usize {
    let near = |r: &mut Rng, c: usize, w: u64| (c + r.below(2 * w + 1) as usize).saturating_sub(w as usize);
    match r.below(if big { 14 } else { 8 }) {
        0 => r.below(8) as usize,
        1 => r.below(40) as usize,
        2..=4 => r.below(600) as usize,
        5 | 6 => r.below(6000) as usize,
        7 => r.below(20000) as usize,
        8 => near(r, 31744, 6),
        9 => {
            let c = r.pick(&[32768usize, 32768 * 2, 32768 * 3]);
            near(r, c, 5)
        }
        10 => {
            let c = r.pick(&[65536usize + 258, 65536 + 258 + 32768, 65536 + 258 + 65536]);
            near(r, c, 5)
        }
        11 => {
            let c = r.pick(&[63488usize, 32768 + 258, 33026, 65535, 98304, 131072]);
            near(r, c, 300)
        }
        12 => r.range(60000, 180000) as usize,
        _ => r.range(20000, 70000) as usize,
    }
}

fn fibo_freqs(r: &mut Rng, total: usize) -> Vec<(u8, usize)> {
    // Frequencies growing like Fibonacci numbers (deep Huffman trees), possibly perturbed.
    let (mut a, mut b) = (1usize, r.range(1, 2) as usize);
    let mut v = vec![];
    let mut sum = 0;
    let base = r.below(200) as u8;
    let mut i = 0u8;
    while sum + a <= total && i < 40 {
        v.push((base.wrapping_add(i.wrapping_mul(5)), a));
        sum += a;
        let n = a + b;
        a = b;
        b = n;
        i += 1;
        if r.chance(1, 12) {
            v.push((base.wrapping_add(i.wrapping_mul(5)).wrapping_add(1), 1));
            sum += 1;
        }
    }
    v
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

const WORDS: &[&str] = &[
    "the ", "of ", "compression ", "data", "window", " block", "stored", "literal ", "length", "distance ", "huffman ",
    "code\n", "a", "e", "  ", "and ", "deflate", "stream. ", "0123456789", "<tag attr=\"x\">", "</tag>",
];

fn segment(r: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let end = out.len() + n;
    match r.below(15) {
        0 => {
            let b = r.next() as u8;
            out.resize(end, b);
        }
        1 => {
            while out.len() < end {
                out.push(r.next() as u8)
            }
        }
        2 => {
            let k = r.range(1, 6);
            while out.len() < end {
                out.push(b'a' + r.below(k) as u8)
            }
        }
        3 => {
            let p = r.pick(&[2usize, 3, 4, 5, 7, 16, 31, 100, 255, 256, 257, 258, 259, 260, 300, 1000, 8191, 8192, 8193]);
            let pat: Vec<u8> = (0..p).map(|_| r.next() as u8).collect();
            let mut i = 0;
            while out.len() < end {
                out.push(pat[i % p]);
                i += 1;
            }
        }
        4 => {
            while out.len() < end {
                let w = r.pick(WORDS);
                out.extend_from_slice(w.as_bytes());
            }
            out.truncate(end);
        }
        5 | 6 => {
            // skewed frequencies
            let f = fibo_freqs(r, n);
            let mut v: Vec<u8> = f.iter().flat_map(|&(s, c)| std::iter::repeat(s).take(c)).collect();
            shuffle(r, &mut v);
            out.extend(v);
            while out.len() < end {
                out.push(0)
            }
            out.truncate(end);
        }
        7 => {
            // copies from far back mixed with noise
            while out.len() < end {
                let l = r.range(1, 40) as usize;
                for _ in 0..l {
                    out.push(r.next() as u8)
                }
                if out.len() > 10 {
                    let maxd = out.len().min(40000);
                    let d = match r.below(6) {
                        0 => r.range(1, 8) as usize,
                        1 => r.range(32760, 32776) as usize,
                        2 => r.range(8188, 8196) as usize,
                        3 => r.pick(&[1usize, 2, 3, 4, 5, 256, 257, 258, 512, 513, 16384, 16385, 24576, 24577, 32768]),
                        _ => r.range(1, maxd as u64) as usize,
                    };
                    let d = d.clamp(1, out.len());
                    let l = match r.below(4) {
                        0 => r.range(3, 5) as usize,
                        1 => r.range(250, 262) as usize,
                        2 => r.range(3, 300) as usize,
                        _ => r.range(3, 20) as usize,
                    };
                    for _ in 0..l {
                        let b = out[out.len() - d];
                        out.push(b)
                    }
                }
            }
            out.truncate(end);
        }
        8 => {
            // runs of varied length
            while out.len() < end {
                let b = if r.chance(1, 3) { *out.last().unwrap_or(&0) } else { r.next() as u8 };
                let l = match r.below(5) {
                    0 => r.range(1, 4) as usize,
                    1 => r.range(255, 262) as usize,
                    2 => r.range(514, 520) as usize,
                    _ => r.range(1, 30) as usize,
                };
                for _ in 0..l {
                    out.push(b)
                }
            }
            out.truncate(end);
        }
        9 => {
            // noise with few len-3 repeats: long blocks close to incompressible
            let every = r.range(20, 120) as usize;
            while out.len() < end {
                for _ in 0..every {
                    out.push(r.next() as u8)
                }
                let p = out.len();
                let d = r.range(every as u64, 8192).min(p as u64) as usize;
                for k in 0..3 {
                    let b = out[p - d + k];
                    out.push(b)
                }
            }
            out.truncate(end);
        }
        10 => {
            // 7 to 9 bit entropy, slightly skewed
            let k = r.range(100, 256);
            while out.len() < end {
                let a = r.below(k);
                let b = r.below(k);
                out.push(if r.chance(1, 8) { a.min(b) } else { a } as u8)
            }
        }
        11 => {
            // every byte once, then repeated phrases
            while out.len() < end {
                for b in 0..=255u8 {
                    out.push(b)
                }
                let l = r.range(1, 2000) as usize;
                for _ in 0..l {
                    let d = r.range(1, 256) as usize;
                    let b = out[out.len() - d];
                    out.push(b)
                }
            }
            out.truncate(end);
        }
        12 => {
            // increasing lazily improvable matches: abc, abcd, abcde...
            let base: Vec<u8> = (0..400).map(|_| r.below(4) as u8).collect();
            while out.len() < end {
                let s = r.below(200) as usize;
                let l = r.range(2, 190) as usize;
                out.extend_from_slice(&base[s..s + l]);
                if r.chance(1, 3) {
                    out.push(r.next() as u8)
                }
            }
            out.truncate(end);
        }
        13 => {
            // zero bytes with sparse others (length runs in headers)
            while out.len() < end {
                let z = r.range(0, 50) as usize;
                for _ in 0..z {
                    out.push(0)
                }
                out.push((r.below(16) * 16) as u8);
            }
            out.truncate(end);
        }
        _ => {
            // exact copy of an earlier part at the edge of the window
            let d = r.pick(&[32768usize, 32767, 32766, 32769, 32510, 32500, 31744, 16384]);
            while out.len() < end {
                if out.len() >= d {
                    let b = out[out.len() - d];
                    out.push(b)
                } else {
                    out.push(r.next() as u8)
                }
            }
        }
    }
    out.truncate(end);
}

pub fn data(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 512);
    if n == 0 {
        return v;
    }
    let segs = match r.below(4) {
        0 | 1 => 1,
        2 => r.range(2, 4),
        _ => r.range(2, 9),
    };
    for i in 0..segs {
        let left = n - v.len();
        let l = if i + 1 == segs { left } else { r.below(left as u64 + 1) as usize };
        if l > 0 {
            segment(r, &mut v, l);
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub enum Opt {
    Preset(u8),
    Custom(u16, u16, bool),
}
impl Opt {
    pub fn get(self) -> CompressionOptions {
        match self {
            Opt::Preset(0) => Compression::Fast.into(),
            Opt::Preset(1) => Compression::Default.into(),
            Opt::Preset(2) => Compression::Best.into(),
            Opt::Preset(3) => CompressionOptions::rle(),
            Opt::Preset(4) => CompressionOptions::huffman_only(),
            Opt::Preset(5) => CompressionOptions::high(),
            Opt::Preset(6) => CompressionOptions::fast(),
            Opt::Preset(_) => CompressionOptions::default(),
            Opt::Custom(c, l, g) => {
                let mut o = CompressionOptions::default();
                o.max_hash_checks = c;
                o.lazy_if_less_than = l;
                o.matching_type = if g { MatchingType::Greedy } else { MatchingType::Lazy };
                o
            }
        }
    }
}
pub fn opt(r: &mut Rng) -> Opt {
    if r.chance(3, 5) {
        Opt::Preset(r.pick(&[0, 1, 2, 3, 4, 0, 1, 2, 7]))
    } else {
        let c = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.below(10) as u16,
            3 => r.below(300) as u16,
            _ => r.pick(&[4096u16, 32767, 32768, 65535]),
        };
        let l = match r.below(6) {
            0 => 0,
            1 => r.range(1, 5) as u16,
            2 => r.range(250, 262) as u16,
            3 => r.range(1, 258) as u16,
            4 => r.pick(&[43212u16, 65535, 32768, 32767]),
            _ => 32,
        };
        Opt::Custom(c, l, r.chance(1, 3))
    }
}

/// A cut of n into write lengths.
/// A run of longest matches around the end of a window, and a write that ends a lookahead after it.
pub fn window_edge(r: &mut Rng) -> (Vec<u8>, Vec<usize>) {
    let edge = 32768 * r.range(1, 3) as usize;
    let n = edge + 600 + r.below(1500) as usize;
    let syms = r.range(4, 40);
    let mut d: Vec<u8> = (0..n).map(|_| 10 + r.below(syms) as u8).collect();
    let from = if r.chance(2, 3) { edge - r.below(5) as usize - 258 * r.below(4) as usize } else { edge - r.below(900) as usize };
    let to = (from + 1 + r.below(2000) as usize).min(n);
    for b in &mut d[from..to] {
        *b = 7
    }
    let cut = edge + if r.chance(2, 3) { 252 + r.below(10) as usize } else { r.below(300) as usize };
    let mut v = vec![];
    if r.chance(1, 3) {
        let c = r.below(cut as u64) as usize;
        v.push(c);
        v.push(cut - c)
    } else {
        v.push(cut)
    }
    v.push(n - cut);
    (d, v)
}

pub fn splits(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    let style = r.below(6);
    while left > 0 && v.len() < 4000 {
        let l = match style {
            0 => left as u64,
            1 => r.range(1, 3),
            2 => r.range(0, 1000),
            3 => r.pick(&[32768u64, 65536, 65794, 258, 32767, 32769, 1, 2, 3]),
            4 => r.range(0, 70000),
            _ => {
                if r.chance(1, 2) {
                    r.below(4)
                } else {
                    r.below(n as u64 + 1)
                }
            }
        } as usize;
        let l = l.min(left);
        v.push(l);
        left -= l;
    }
    if left > 0 {
        v.push(left)
    }
    v
}

/// Noise in which no three bytes occur twice: nothing but literals for every matcher (up to about 60 KiB apart).
pub fn unique_noise(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut seen = vec![0u64; 1 << 18];
    let mut v: Vec<u8> = Vec::with_capacity(n);
    while v.len() < n {
        let k = v.len();
        let mut b = r.next() as u8;
        if k >= 2 {
            for _ in 0..400 {
                let t = (v[k - 2] as usize) << 16 | (v[k - 1] as usize) << 8 | b as usize;
                if seen[t >> 6] >> (t & 63) & 1 == 0 && b != v[k - 1] {
                    seen[t >> 6] |= 1 << (t & 63);
                    break;
                }
                b = r.next() as u8;
            }
        }
        v.push(b);
    }
    v
}

/// Data whose second block is incompressible, fills the token buffer with its last match, and ends near a
/// window edge. Returns the data and a position for a sync flush which starts that block (if the first
/// block is not to be ended by the run of zeros in front).
pub fn edge_block(r: &mut Rng) -> (Vec<u8>, usize) {
    let edge = 32768 * r.range(1, 3) as usize;
    let mlen = match r.below(4) {
        0 => r.range(3, 258) as usize,
        _ => r.range(3, 6) as usize,
    };
    let over = r.below(mlen as u64 + 2) as usize;
    let jitter = r.pick(&[0usize, 0, 0, 0, 1, 2]);
    let end = (edge + over).max(31743 + mlen + 4);
    let mpos = end - mlen;
    let start = (mpos + jitter).saturating_sub(31743);
    let flush = r.chance(1, 2);
    let noise = unique_noise(r, mpos);
    let mut v = noise;
    if !flush {
        // run + literals of the first block: 31744 tokens ending at `start` (per run length, see below)
        let mut l = 0;
        for x in 1..start {
            let t = if x < 4 { x } else { 1 + (x - 1 + 257) / 258 };
            if x <= start && t + (start - x) == 31744 {
                l = x;
                break;
            }
        }
        for b in v.iter_mut().take(l) {
            *b = 0
        }
    }
    let d = r.pick(&[1usize, 1, 2, 100, 1000, 8000]).min(v.len().max(1));
    for _ in 0..mlen {
        let b = if v.is_empty() { 0 } else { v[v.len() - d] };
        v.push(b);
    }
    let tail = r.pick(&[0usize, 0, 1, 2, 3, 300, 700, 33000, 40000]);
    let t = unique_noise(r, tail);
    v.extend(t);
    (v, if flush { start } else { 0 })
}

/// Bytes whose counts make an unlimited Huffman code very deep.
pub fn deep(r: &mut Rng) -> Vec<u8> {
    let n = r.pick(&[400usize, 2000, 8000, 20000, 31743, 31743, 31743]);
    let f = fibo_freqs(r, n);
    let mut v: Vec<u8> = f.iter().flat_map(|&(s, c)| std::iter::repeat(s).take(c)).collect();
    shuffle(r, &mut v);
    v
}
