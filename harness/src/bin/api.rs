//! Failing-input search and bounded stand-in at the level of the public API.
//! usage: api run <PID> <first_seed> <seconds> <out.json>   |  api replay <PID> <seed>
use deflate::write::{DeflateEncoder, GzEncoder, ZlibEncoder};
use deflate::*;
use gzip_header::GzBuilder;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vharness::gen::{self, Opt};
use vharness::inflate::*;
use vharness::*;

type R = Result<(), String>;
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn diff(a: &[u8], b: &[u8]) -> String {
    let p = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {}", a.len(), b.len(), p)
}
fn same(what: &str, got: &[u8], want: &[u8]) -> R {
    ck!(got == want, "{what}: {}", diff(got, want));
    Ok(())
}

// ---------------------------------------------------------------- writers
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Good,
    /// short writes only
    Short,
    /// short writes and interruptions only
    Soft,
    /// also other errors
    Hard,
    /// accept nothing (Ok(0))
    Zero,
    /// fail every call with this error
    Fail(ErrorKind),
}
struct Sink {
    got: Vec<u8>,
    mode: Mode,
    rng: Rng,
    calls: u64,
    hard: u64,
    zero: u64,
    streak: u32,
    total: u64,
}
#[derive(Clone)]
struct W(Rc<RefCell<Sink>>);
impl W {
    fn new(seed: u64, mode: Mode) -> W {
        W(Rc::new(RefCell::new(Sink { got: vec![], mode, rng: Rng::new(seed), calls: 0, hard: 0, zero: 0, streak: 0, total: 0 })))
    }
    fn set(&self, m: Mode) {
        self.0.borrow_mut().mode = m
    }
    fn begin(&self) {
        let mut s = self.0.borrow_mut();
        s.calls = 0;
        s.hard = 0;
        s.zero = 0;
    }
    fn got(&self) -> Vec<u8> {
        self.0.borrow().got.clone()
    }
    fn len(&self) -> usize {
        self.0.borrow().got.len()
    }
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        s.total += 1;
        if s.calls > 500_000 {
            panic!("HANG: 500000 calls of the wrapped writer in one operation");
        }
        let n = b.len() as u64;
        let mut k = n;
        let act = s.rng.below(10);
        if let Mode::Fail(k) = s.mode {
            s.hard += 1;
            return Err(k.into());
        }
        let mode = if s.streak >= 3 && s.mode != Mode::Zero { Mode::Good } else { s.mode };
        match mode {
            Mode::Fail(_) => {}
            Mode::Good => s.streak = 0,
            Mode::Short => {
                s.streak = 0;
                if n > 0 && act < 8 {
                    k = 1 + s.rng.below(if act < 4 { n } else { n.min(3000) })
                }
            }
            Mode::Zero => {
                if n > 0 {
                    s.zero += 1;
                }
                return Ok(0);
            }
            Mode::Soft | Mode::Hard => match act {
                0..=2 => s.streak = 0,
                3..=5 if n > 0 => {
                    k = 1 + s.rng.below(n);
                    s.streak = 0
                }
                6 if n > 0 => {
                    k = 1 + s.rng.below(n.min(5));
                    s.streak = 0
                }
                7 if mode == Mode::Hard => {
                    s.streak += 1;
                    s.hard += 1;
                    return Err(if act % 2 == 0 { ErrorKind::WouldBlock } else { ErrorKind::Other }.into());
                }
                8 if mode == Mode::Hard && n > 0 && s.rng.chance(1, 4) => {
                    s.streak += 1;
                    s.zero += 1;
                    return Ok(0);
                }
                _ => {
                    s.streak += 1;
                    return Err(ErrorKind::Interrupted.into());
                }
            },
        }
        s.got.extend_from_slice(&b[..k as usize]);
        Ok(k as usize)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- encoders
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Raw,
    Zlib,
    Gz(u64),
}
fn builder(seed: u64) -> GzBuilder {
    let mut r = Rng::new(seed);
    let mut b = GzBuilder::new();
    let txt = |r: &mut Rng| -> Vec<u8> {
        let n = r.below(30);
        (0..n).map(|_| 1 + r.below(255) as u8).collect()
    };
    if seed != 0 {
        if r.chance(1, 2) {
            b = b.mtime(r.next() as u32);
        }
        if r.chance(1, 3) {
            b = b.extra(txt(&mut r));
        }
        if r.chance(1, 3) {
            b = b.filename(txt(&mut r));
        }
        if r.chance(1, 3) {
            b = b.comment(txt(&mut r));
        }
    }
    b
}
enum Enc {
    Raw(DeflateEncoder<W>),
    Zlib(ZlibEncoder<W>),
    Gz(GzEncoder<W>),
}
impl Enc {
    fn new(k: Kind, o: Opt, w: W) -> Enc {
        match k {
            Kind::Raw => Enc::Raw(DeflateEncoder::new(w, o.get())),
            Kind::Zlib => Enc::Zlib(ZlibEncoder::new(w, o.get())),
            Kind::Gz(0) => Enc::Gz(GzEncoder::new(w, o.get())),
            Kind::Gz(s) => Enc::Gz(GzEncoder::from_builder(builder(s), w, o.get())),
        }
    }
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self {
            Enc::Raw(e) => e.write(b),
            Enc::Zlib(e) => e.write(b),
            Enc::Gz(e) => e.write(b),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self {
            Enc::Raw(e) => e.flush(),
            Enc::Zlib(e) => e.flush(),
            Enc::Gz(e) => e.flush(),
        }
    }
    fn reset(&mut self, w: W, k: Kind) -> io::Result<W> {
        match self {
            Enc::Raw(e) => e.reset(w),
            Enc::Zlib(e) => e.reset(w),
            Enc::Gz(e) => match k {
                Kind::Gz(s) if s != 0 => e.reset_with_builder(w, builder(s)),
                _ => e.reset(w),
            },
        }
    }
    fn finish(self) -> io::Result<W> {
        match self {
            Enc::Raw(e) => e.finish(),
            Enc::Zlib(e) => e.finish(),
            Enc::Gz(e) => e.finish(),
        }
    }
    fn checksum(&self) -> Option<u32> {
        match self {
            Enc::Raw(_) => None,
            Enc::Zlib(e) => Some(e.checksum()),
            Enc::Gz(e) => Some(e.checksum()),
        }
    }
}
fn sum_of(k: Kind, d: &[u8]) -> Option<u32> {
    match k {
        Kind::Raw => None,
        Kind::Zlib => Some(adler32(d)),
        Kind::Gz(_) => Some(crc32(d)),
    }
}

/// Split framing: returns the raw part; checks header and, if complete, trailer.
fn unframe<'a>(k: Kind, d: &'a [u8], data: &[u8], complete: bool) -> Result<&'a [u8], String> {
    match k {
        Kind::Raw => Ok(d),
        Kind::Zlib => {
            ck!(d.len() >= 2, "zlib header missing");
            ck!(d[0] & 0x0f == 8, "zlib CM is {}", d[0] & 15);
            ck!(d[0] >> 4 == 7, "zlib CINFO is {}", d[0] >> 4);
            ck!((d[0] as u32 * 256 + d[1] as u32) % 31 == 0, "zlib header {:02x}{:02x} not divisible by 31", d[0], d[1]);
            ck!(d[1] & 0x20 == 0, "zlib FDICT set");
            if complete {
                ck!(d.len() >= 6, "zlib trailer missing");
                let t = &d[d.len() - 4..];
                ck!(t == adler32(data).to_be_bytes(), "zlib trailer {:02x?}, Adler-32 {:08x}", t, adler32(data));
                Ok(&d[2..d.len() - 4])
            } else {
                Ok(&d[2..])
            }
        }
        Kind::Gz(s) => {
            let h = builder(s).into_header();
            ck!(d.len() >= h.len() && d[..h.len()] == h[..], "gzip header differs from the builder's");
            ck!(d[0] == 0x1f && d[1] == 0x8b && d[2] == 8, "gzip magic");
            if complete {
                ck!(d.len() >= h.len() + 8, "gzip trailer missing");
                let t = &d[d.len() - 8..];
                ck!(t[..4] == crc32(data).to_le_bytes(), "gzip CRC {:02x?}, CRC-32 {:08x}", &t[..4], crc32(data));
                ck!(t[4..] == (data.len() as u32).to_le_bytes(), "gzip ISIZE {:02x?}, length {}", &t[4..], data.len());
                Ok(&d[h.len()..d.len() - 8])
            } else {
                Ok(&d[h.len()..])
            }
        }
    }
}

fn check_complete(k: Kind, d: &[u8], data: &[u8]) -> Result<Decoded, String> {
    let raw = unframe(k, d, data, true)?;
    let r = inflate_exact(raw)?;
    same("decoded data", &r.out, data)?;
    Ok(r)
}

fn one_shot(k: Kind, o: Opt, d: &[u8]) -> Vec<u8> {
    match (k, o) {
        (Kind::Raw, Opt::Preset(7)) => deflate_bytes(d),
        (Kind::Raw, Opt::Preset(0)) => deflate_bytes_conf(d, Compression::Fast),
        (Kind::Raw, _) => deflate_bytes_conf(d, o.get()),
        (Kind::Zlib, Opt::Preset(7)) => deflate_bytes_zlib(d),
        (Kind::Zlib, _) => deflate_bytes_zlib_conf(d, o.get()),
        (Kind::Gz(0), Opt::Preset(7)) => deflate_bytes_gzip(d),
        (Kind::Gz(s), _) => deflate_bytes_gzip_conf(d, o.get(), builder(s)),
    }
}

fn kind(r: &mut Rng) -> Kind {
    match r.below(3) {
        0 => Kind::Raw,
        1 => Kind::Zlib,
        _ => Kind::Gz(if r.chance(1, 2) { 0 } else { 1 + r.below(1000) }),
    }
}

/// write everything, retrying on errors; counts what was reported as consumed
fn write_all(e: &mut Enc, w: &W, mut d: &[u8], consumed: &mut Vec<u8>) -> R {
    let mut tries = 0;
    let mut zeros = 0;
    while !d.is_empty() {
        w.begin();
        match e.write(d) {
            Ok(n) => {
                ck!(n <= d.len(), "write returned {n} for {} bytes", d.len());
                consumed.extend_from_slice(&d[..n]);
                if n == 0 {
                    zeros += 1;
                    ck!(zeros < 50, "write keeps returning Ok(0) for {} bytes", d.len());
                } else {
                    zeros = 0;
                }
                d = &d[n..];
            }
            Err(_) => {
                tries += 1;
                ck!(tries < 100_000, "write never succeeds");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- cases
fn big(r: &mut Rng) -> bool {
    r.chance(1, 3)
}
fn gen_data(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 60) {
        return gen::edge_block(r).0;
    }
    if r.chance(1, 60) {
        return gen::deep(r);
    }
    let b = big(r);
    let n = gen::size(r, b);
    gen::data(r, n)
}

/// Lengths at and around large powers of two.
fn big_buffer(r: &mut Rng) -> Vec<u8> {
    let n = (1usize << r.range(16, 22)) * r.pick(&[1usize, 1, 1, 3]);
    let n = match r.below(4) {
        0 => n - 1 - r.below(3) as usize,
        1 => n + 1 + r.below(3) as usize,
        _ => n,
    };
    let m = r.pick(&[1usize, 251, 5000, 70000]);
    let pat: Vec<u8> = (0..m).map(|_| r.next() as u8).collect();
    (0..n).map(|i| pat[i % m]).collect()
}

fn block_checks(dec: &Decoded, rle: bool, none: bool) -> R {
    let nb = dec.blocks.len();
    for (i, b) in dec.blocks.iter().enumerate() {
        ck!(b.last == (i + 1 == nb), "final flag on block {i} of {nb}");
        for t in &b.tokens {
            if let Token::Match { len, dist } = *t {
                ck!(!none, "back-reference ({len},{dist}) with the Huffman-only settings");
                ck!(!rle || dist == 1, "distance {dist} with the RLE settings");
                ck!((3..=258).contains(&len) && (1..=32768).contains(&dist), "bad pair ({len},{dist})");
            }
        }
    }
    Ok(())
}
fn is_rle(o: Opt) -> bool {
    matches!(o, Opt::Preset(3)) || matches!(o, Opt::Custom(0, _, false))
}
fn is_none(o: Opt) -> bool {
    matches!(o, Opt::Preset(4)) || matches!(o, Opt::Custom(0, _, true))
}

fn code_checks(b: &Block) -> R {
    // P10: used symbols have codes, unused have none, complete when two or more.
    if b.kind != 2 {
        return Ok(());
    }
    let mut ul = vec![false; 288];
    let mut ud = vec![false; 32];
    ul[256] = true;
    for t in &b.tokens {
        match *t {
            Token::Lit(x) => ul[x as usize] = true,
            Token::Match { len, dist } => {
                ul[len_sym(len).0] = true;
                ud[dist_sym(dist).0] = true;
            }
        }
    }
    for (i, &l) in b.ll.iter().enumerate() {
        ck!((l > 0) == ul[i], "literal/length symbol {i}: used {} but length {l}", ul[i]);
        ck!(l <= 15, "length {l} above 15");
    }
    for (i, &l) in b.dd.iter().enumerate() {
        ck!((l > 0) == ud[i], "distance symbol {i}: used {} but length {l}", ud[i]);
        ck!(l <= 15, "length {l} above 15");
    }
    for (n, v) in [("literal/length", &b.ll), ("distance", &b.dd), ("code length", &b.cl)] {
        let used = v.iter().filter(|&&l| l > 0).count();
        if used >= 2 {
            ck!(kraft(v) == 1 << 15, "{n} code does not fill the code space: {}", kraft(v));
        } else if used == 1 {
            ck!(v.iter().all(|&l| l <= 1), "{n}: single symbol with longer code");
        }
    }
    Ok(())
}

fn size_checks(dec: &Decoded, n: usize, len: usize, flushes: usize) -> R {
    let bound = n + 10 * (n / 31744) + 10 + 10 * flushes;
    ck!(len <= bound, "{n} bytes became {len}, bound {bound}");
    let fll = fixed_ll();
    let fdd = vec![5u8; 32];
    let stored_cost = |start: usize, bytes: usize| -> usize {
        // bits of the data as stored blocks beginning at this bit
        let chunks = ((bytes + 32766) / 32767).max(1);
        let mut p = start;
        for _ in 0..chunks {
            p = (p + 3 + 7) & !7;
            p += 32;
        }
        p + bytes * 8 - start
    };
    for (i, b) in dec.blocks.iter().enumerate() {
        let bits = b.bit_end - b.bit_start;
        let bytes = b.out_end - b.out_start;
        if b.kind != 0 {
            let f = 3 + token_bits(&b.tokens, &fll, &fdd);
            ck!(bits <= f, "block {i} ({}) takes {bits} bits, {f} with the fixed codes", b.kind);
            if bytes > 0 || !b.last {
                let s = stored_cost(b.bit_start, bytes);
                ck!(bits <= s, "block {i} (type {}) takes {bits} bits for {bytes} bytes, {s} stored", b.kind);
            }
        }
    }
    Ok(())
}

/// More than 2^32 bytes through one gzip encoder. Takes a few seconds.
const GIANT: u64 = 0x6169_4769_616e_74;
fn giant_case(desc: &mut String) -> R {
    struct Tail(Vec<u8>);
    impl Write for Tail {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.extend_from_slice(b);
            let l = self.0.len();
            if l > 8 {
                self.0.drain(..l - 8);
            }
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    *desc = "2^32 + 5 zero bytes through a gzip encoder".into();
    let z = vec![0u8; 1 << 20];
    let mut e = GzEncoder::new(Tail(vec![]), CompressionOptions::rle());
    for i in 0..4097 {
        let mut d = if i < 4096 { &z[..] } else { &z[..5] };
        while !d.is_empty() {
            let n = e.write(d).map_err(|e| e.to_string())?;
            d = &d[n..];
        }
    }
    let t = e.finish().map_err(|e| e.to_string())?.0;
    ck!(t.len() == 8 && t[4..] == 5u32.to_le_bytes(), "gzip ISIZE after 2^32 + 5 bytes: {:02x?}", t);
    Ok(())
}

fn case(pid: &str, seed: u64, desc: &mut String) -> R {
    if seed == GIANT {
        return giant_case(desc);
    }
    let mut rr = Rng::new(seed ^ 0xA5A5_0000);
    let r = &mut rr;
    match pid {
        "P01" | "P09" | "P10" | "P11" | "P12" | "P13" | "P14" | "P02o" | "P03o" => {
            let k = match pid {
                "P02o" => Kind::Zlib,
                "P03o" => Kind::Gz(if r.chance(1, 2) { 0 } else { 1 + r.below(1000) }),
                _ => Kind::Raw,
            };
            let o = if pid == "P12" {
                Opt::Preset(3 + r.below(2) as u8)
            } else {
                gen::opt(r)
            };
            let mut d = gen_data(r);
            let mut o = o;
            if matches!(pid, "P10" | "P11" | "P13") && r.chance(1, 4) {
                d = gen::deep(r);
                if pid == "P10" || r.chance(1, 2) {
                    o = Opt::Preset(4);
                }
            }
            if matches!(pid, "P02o" | "P03o") && r.chance(1, 100) {
                // large buffers
                d = big_buffer(r);
                o = Opt::Preset(r.pick(&[4, 0, 3]));
            }
            *desc = format!("one-shot {k:?} {o:?} {} bytes", d.len());
            if r.chance(1, if pid == "P12" { 2 } else { 4 }) {
                // streamed
                let w = W::new(seed, Mode::Good);
                let mut e = Enc::new(k, o, w.clone());
                let mut c = vec![];
                let mut at = 0;
                let mut flushes = 0;
                for l in gen::splits(r, d.len()) {
                    write_all(&mut e, &w, &d[at..at + l], &mut c)?;
                    at += l;
                    if r.chance(1, 6) {
                        flushes += 1;
                        w.begin();
                        e.flush().map_err(|e| e.to_string())?;
                    }
                }
                w.begin();
                e.finish().map_err(|e| e.to_string())?;
                let dec = check_complete(k, &w.got(), &d)?;
                return match pid {
                    "P10" => dec.blocks.iter().try_for_each(code_checks),
                    "P11" => size_checks(&dec, d.len(), w.got().len(), flushes),
                    "P12" => block_checks(&dec, is_rle(o), is_none(o)),
                    _ => block_checks(&dec, false, false),
                };
            }
            let out = one_shot(k, o, &d);
            let dec = check_complete(k, &out, &d)?;
            match pid {
                "P01" | "P02o" | "P03o" => block_checks(&dec, false, false),
                "P09" => block_checks(&dec, false, false),
                "P12" => block_checks(&dec, is_rle(o), is_none(o)),
                "P10" => dec.blocks.iter().try_for_each(code_checks),
                "P11" => size_checks(&dec, d.len(), out.len(), 0),
                _ => Ok(()),
            }
        }
        "P02" | "P03" => {
            if r.chance(1, 2) {
                return case(if pid == "P02" { "P02o" } else { "P03o" }, seed, desc);
            }
            let k = if pid == "P02" { Kind::Zlib } else { Kind::Gz(if r.chance(1, 2) { 0 } else { 1 + r.below(1000) }) };
            stream_case(k, r, seed, desc, true, true)
        }
        "P04" => {
            let k = kind(r);
            stream_case(k, r, seed, desc, false, false)
        }
        "P05" => {
            let k = kind(r);
            stream_case(k, r, seed, desc, true, false)
        }
        "P06" => {
            let k = kind(r);
            stream_case(k, r, seed, desc, true, true)
        }
        "P07" => {
            let k = kind(r);
            if r.chance(1, 2) {
                let o = gen::opt(r);
                let d = gen_data(r);
                *desc = format!("one-shot {k:?} {o:?} {} bytes", d.len());
                let out = one_shot(k, o, &d);
                ck!(!out.is_empty(), "no output");
                Ok(())
            } else {
                stream_case(k, r, seed, desc, true, true)
            }
        }
        "P08" => fault_case(r, seed, desc),
        "P15" => checksum_case(r, seed, desc),
        "P16" => drop_case(r, seed, desc),
        "P17" => {
            let k = kind(r);
            let o = gen::opt(r);
            let (d, sp) = if r.chance(1, 5) {
                gen::window_edge(r)
            } else {
                let d = gen_data(r);
                let sp = gen::splits(r, d.len());
                (d, sp)
            };
            *desc = format!("split {k:?} {o:?} {} bytes, {} writes", d.len(), sp.len());
            let w = W::new(seed, if r.chance(1, 4) { Mode::Short } else { Mode::Good });
            let mut e = Enc::new(k, o, w.clone());
            let mut at = 0;
            let mut c = vec![];
            for l in sp {
                write_all(&mut e, &w, &d[at..at + l], &mut c)?;
                at += l;
            }
            w.begin();
            e.finish().map_err(|e| e.to_string())?;
            same("streamed and one-shot output", &w.got(), &one_shot(k, o, &d))
        }
        _ => Err(format!("unknown property {pid}")),
    }
}

/// Writes, flushes and resets over a reliable writer, with comparison against fresh encoders.
fn stream_case(k0: Kind, r: &mut Rng, seed: u64, desc: &mut String, flushes: bool, resets: bool) -> R {
    let mut o = gen::opt(r);
    if r.chance(1, 10) {
        o = Opt::Custom(r.pick(&[1u16, 4, 128, 4096]), r.below(4) as u16, r.chance(1, 4));
    }
    let rounds = if resets { r.range(1, 3) } else { 1 };
    let mut k = k0;
    let short = !resets && r.chance(1, 4);
    let mut w = W::new(seed, if short { Mode::Short } else { Mode::Good });
    let mut e = Enc::new(k, o, w.clone());
    *desc = format!("stream {k:?} {o:?}{}", if short { " to a writer that accepts a part" } else { "" });
    let mut prev: Vec<u8> = vec![];
    let checked = |k: Kind| k != Kind::Raw;
    for round in 0..rounds {
        // the same operations on a fresh encoder
        let fw = W::new(seed, Mode::Good);
        let mut fresh = if round > 0 { Some(Enc::new(k, o, fw.clone())) } else { None };
        let small = r.chance(1, 4);
        let d = if small {
            let n = r.below(30) as usize;
            (0..n).map(|_| if r.chance(1, 2) { 0 } else { r.below(3) as u8 }).collect()
        } else {
            gen_data(r)
        };
        let (mut d, mut sp) = {
            let sp = gen::splits(r, d.len());
            (d, sp)
        };
        let mut forced = usize::MAX;
        if r.chance(1, 30) {
            let (v, f) = gen::edge_block(r);
            sp = if f > 0 && f < v.len() { vec![f, v.len() - f] } else { vec![v.len()] };
            forced = f;
            d = v;
        } else if round > 0 && r.chance(1, 3) {
            d = prev.clone();
            sp = gen::splits(r, d.len());
        } else if checked(k) && r.chance(1, 150) {
            d = big_buffer(r);
            sp = vec![d.len()];
        }
        prev = d.clone();
        *desc += &format!("; {} bytes in {} writes", d.len(), sp.len());
        let mut c = vec![];
        let mut at = 0;
        let fl = if flushes { r.pick(&[0u64, 1, 2, 8]) } else { 0 };
        let do_flush = |e: &mut Enc, w: &W, k: Kind, c: &[u8]| -> R {
            w.begin();
            e.flush().map_err(|x| format!("flush: {x}"))?;
            let g = w.got();
            ck!(g.ends_with(&[0, 0, 0xff, 0xff]), "output after flush does not end with 00 00 FF FF");
            let raw = unframe(k, &g, c, false)?;
            let dec = inflate(raw, true).map_err(|x| format!("after flush: {x}"))?;
            ck!(!dec.complete, "final block before finish");
            same("data decodable after flush", &dec.out, c)?;
            let b = dec.blocks.last().ok_or("no block after flush")?;
            ck!(b.kind == 0 && b.out_start == b.out_end && !b.last, "flush does not end with an empty stored block");
            Ok(())
        };
        if fl > 0 && r.chance(1, 4) {
            do_flush(&mut e, &w, k, &c)?;
            if let Some(f) = &mut fresh {
                f.flush().map_err(|x| x.to_string())?;
            }
        }
        let mut nfl = 0;
        for l in sp {
            if l == 0 && !short {
                w.begin();
                ck!(matches!(e.write(&[]), Ok(0)), "empty write");
                // An empty write after a flush can change which matches are found later.
                if let Some(f) = &mut fresh {
                    ck!(matches!(f.write(&[]), Ok(0)), "empty write");
                }
            }
            write_all(&mut e, &w, &d[at..at + l], &mut c)?;
            if let Some(f) = &mut fresh {
                let mut c2 = vec![];
                write_all(f, &fw, &d[at..at + l], &mut c2)?;
            }
            at += l;
            if flushes && at == forced || nfl < 12 && r.below(8) < fl {
                nfl += 1;
                do_flush(&mut e, &w, k, &c)?;
                if let Some(f) = &mut fresh {
                    f.flush().map_err(|x| x.to_string())?;
                }
                if r.chance(1, 5) {
                    do_flush(&mut e, &w, k, &c)?;
                    if let Some(f) = &mut fresh {
                        f.flush().map_err(|x| x.to_string())?;
                    }
                }
            }
        }
        if let Some(s) = e.checksum() {
            ck!(Some(s) == sum_of(k, &c), "checksum accessor before the end");
        }
        let out;
        if round + 1 < rounds {
            let nw = W::new(seed + round + 1, Mode::Good);
            let nk = match k {
                Kind::Gz(_) => Kind::Gz(if r.chance(1, 2) { 0 } else { 1 + r.below(1000) }),
                x => x,
            };
            w.begin();
            let old = e.reset(nw.clone(), nk).map_err(|x| format!("reset: {x}"))?;
            ck!(Rc::ptr_eq(&old.0, &w.0), "reset returned a different writer");
            out = w.got();
            check_complete(k, &out, &c).map_err(|x| format!("stream ended by reset: {x}"))?;
            if let Some(f) = fresh {
                f.finish().map_err(|x| x.to_string())?;
                same("encoder after reset and fresh encoder", &out, &fw.got())?;
            }
            w = nw;
            k = nk;
            ck!(w.len() == 0, "output before the first write after reset");
        } else {
            w.begin();
            let old = e.finish().map_err(|x| format!("finish: {x}"))?;
            ck!(Rc::ptr_eq(&old.0, &w.0), "finish returned a different writer");
            out = w.got();
            check_complete(k, &out, &c)?;
            if let Some(f) = fresh {
                f.finish().map_err(|x| x.to_string())?;
                same("encoder after reset and fresh encoder", &out, &fw.got())?;
            }
            return Ok(());
        }
    }
    Ok(())
}

fn fault_case(r: &mut Rng, seed: u64, desc: &mut String) -> R {
    let k = kind(r);
    let o = gen::opt(r);
    let d = {
        // output has to be large enough to be written in several parts
        let n = r.pick(&[100usize, 3000, 70000, 140000, 300000]);
        let n = n + r.below(n as u64) as usize;
        if r.chance(1, 2) {
            let mut v = vec![0u8; n];
            for b in v.iter_mut() {
                *b = r.next() as u8
            }
            v
        } else {
            gen::data(r, n)
        }
    };
    let mode = r.pick(&[
        Mode::Soft,
        Mode::Hard,
        Mode::Hard,
        Mode::Zero,
        Mode::Fail(ErrorKind::WouldBlock),
        Mode::Fail(ErrorKind::Other),
        Mode::Fail(ErrorKind::TimedOut),
    ]);
    *desc = format!("faults {mode:?} {k:?} {o:?} {} bytes", d.len());
    let w = W::new(seed, if matches!(mode, Mode::Zero | Mode::Fail(_)) { Mode::Soft } else { mode });
    let mut e = Enc::new(k, o, w.clone());
    let mut c: Vec<u8> = vec![];
    let mut at = 0;
    let flushy = r.pick(&[0u64, 1, 4]);
    let zero_after = r.below(6);
    for (i, l) in gen::splits(r, d.len()).into_iter().enumerate() {
        if i > 200 {
            break;
        }
        if matches!(mode, Mode::Zero | Mode::Fail(_)) && i as u64 == zero_after {
            break;
        }
        write_all(&mut e, &w, &d[at..at + l], &mut c)?;
        at += l;
        if r.below(8) < flushy {
            // flush until it succeeds, or give up after some errors and go on writing
            let give_up = r.range(1, 6);
            for _ in 0..give_up {
                w.begin();
                let res = e.flush();
                let (hard, zero) = (w.0.borrow().hard, w.0.borrow().zero);
                if res.is_ok() {
                    ck!(hard == 0 && zero == 0, "flush returned Ok although the writer failed");
                    let g = w.got();
                    let raw = unframe(k, &g, &c, false)?;
                    let dec = inflate(raw, true).map_err(|x| format!("after flush: {x}"))?;
                    same("data decodable after flush", &dec.out, &c)?;
                    break;
                }
            }
        }
        if let Some(s) = e.checksum() {
            if i < 8 {
                ck!(Some(s) == sum_of(k, &c), "checksum after faults");
            }
        }
    }
    // everything accepted, trailer included, is a prefix of one complete stream
    let ended_ok = |w: &W, c: &[u8]| -> R {
        let g = w.got();
        let (hl, tl) = match k {
            Kind::Raw => (0, vec![]),
            Kind::Zlib => (2, adler32(c).to_be_bytes().to_vec()),
            Kind::Gz(s) => {
                let mut t = crc32(c).to_le_bytes().to_vec();
                t.extend_from_slice(&(c.len() as u32).to_le_bytes());
                (builder(s).into_header().len(), t)
            }
        };
        if g.len() >= hl {
            match inflate(&g[hl..], true) {
                Ok(dec) if dec.complete => {
                    same("data decoded from what was accepted", &dec.out, c)?;
                    ck!(tl.starts_with(&g[hl + dec.used..]), "after the final block: {:02x?}, trailer {:02x?}", &g[hl + dec.used..], tl);
                }
                Ok(dec) => ck!(c.starts_with(&dec.out), "accepted output is not a prefix of the stream"),
                Err(x) => ck!(x.contains("unexpected end"), "accepted output is not a prefix of a stream: {x}"),
            }
        }
        Ok(())
    };
    let prefix_ok = |w: &W, c: &[u8]| -> R {
        // what was accepted is a prefix of a stream of the consumed data
        let g = w.got();
        let hl = match k {
            Kind::Raw => 0,
            Kind::Zlib => 2,
            Kind::Gz(s) => builder(s).into_header().len(),
        };
        if g.len() >= hl {
            match inflate(&g[hl..], true) {
                Ok(dec) => ck!(c.starts_with(&dec.out), "accepted output is not a prefix of the stream"),
                Err(x) => ck!(x.contains("unexpected end"), "accepted output is not a prefix of a stream: {x}"),
            }
        }
        Ok(())
    };
    match mode {
        Mode::Fail(kind) => {
            w.set(mode);
            let rest = &d[at..];
            for _ in 0..2 {
                w.begin();
                if let Ok(n) = e.write(rest) {
                    c.extend_from_slice(&rest[..n]);
                }
                w.begin();
                match e.flush() {
                    Ok(()) => return Err("flush returned Ok although the writer fails".into()),
                    Err(x) => ck!(x.kind() == kind, "flush reported {:?} although the writer failed with {kind:?}", x.kind()),
                }
            }
            let nw = W::new(seed + 1, Mode::Good);
            w.begin();
            match e.reset(nw, k) {
                Ok(_) => return Err("reset returned Ok although the writer fails".into()),
                Err(x) => ck!(x.kind() == kind, "reset reported {:?} although the writer failed with {kind:?}", x.kind()),
            }
            prefix_ok(&w, &c)?;
            if r.chance(1, 2) {
                w.begin();
                match e.finish() {
                    Ok(_) => return Err("finish returned Ok although the writer fails".into()),
                    Err(x) => ck!(x.kind() == kind, "finish reported {:?} although the writer failed with {kind:?}", x.kind()),
                }
                Ok(())
            } else {
                w.set(Mode::Good);
                w.begin();
                e.finish().map_err(|x| format!("finish: {x}"))?;
                check_complete(k, &w.got(), &c)?;
                Ok(())
            }
        }
        Mode::Zero => {
            w.set(Mode::Zero);
            let rest = &d[at..];
            for _ in 0..3 {
                w.begin();
                let _ = e.write(rest).map(|n| c.extend_from_slice(&rest[..n]));
                w.begin();
                ck!(e.flush().is_err(), "flush returned Ok although the writer accepts nothing");
            }
            w.begin();
            ck!(e.finish().is_err(), "finish returned Ok although the writer accepts nothing");
            prefix_ok(&w, &c)
        }
        _ => {
            if r.chance(1, 4) && mode == Mode::Hard {
                // hard errors while finishing have to be reported
                w.begin();
                let res = e.finish();
                if res.is_ok() {
                    ck!(w.0.borrow().hard == 0, "finish returned Ok although the writer failed");
                    check_complete(k, &w.got(), &c)?;
                }
                // (the encoder tried again when it was dropped)
                return ended_ok(&w, &c);
            }
            if r.chance(1, 3) && mode == Mode::Hard {
                // reset can be retried
                let nw = W::new(seed + 1, Mode::Good);
                let mut n = 0;
                loop {
                    w.begin();
                    match e.reset(nw.clone(), k) {
                        Ok(_) => break,
                        Err(_) => {
                            ended_ok(&w, &c)?;
                            n += 1;
                            ck!(n < 100_000, "reset never succeeds");
                        }
                    }
                }
                check_complete(k, &w.got(), &c)?;
                return Ok(());
            }
            prefix_ok(&w, &c)?;
            w.set(Mode::Soft);
            w.begin();
            e.finish().map_err(|x| format!("finish: {x}"))?;
            check_complete(k, &w.got(), &c)?;
            Ok(())
        }
    }
}

fn checksum_case(r: &mut Rng, seed: u64, desc: &mut String) -> R {
    let mut k = if r.chance(1, 2) { Kind::Zlib } else { Kind::Gz(r.below(2)) };
    let o = gen::opt(r);
    let mode = r.pick(&[Mode::Good, Mode::Soft, Mode::Hard]);
    *desc = format!("checksum {mode:?} {k:?} {o:?}");
    let mut w = W::new(seed, mode);
    let mut e = Enc::new(k, o, w.clone());
    let mut c: Vec<u8> = vec![];
    let mut budget = 400_000usize;
    for i in 0..r.range(1, 25) {
        ck!(e.checksum() == sum_of(k, &c), "checksum differs from that of the {} consumed bytes after {i} operations", c.len());
        match r.below(8) {
            0 => {
                w.begin();
                let _ = e.flush();
            }
            1 if i > 2 => {
                let nw = W::new(seed + i, mode);
                let nk = match k {
                    Kind::Gz(_) => Kind::Gz(r.below(2)),
                    x => x,
                };
                w.begin();
                w.set(Mode::Soft);
                e.reset(nw.clone(), nk).map_err(|x| format!("reset: {x}"))?;
                w = nw;
                k = nk;
                c.clear();
            }
            _ => {
                let d = if r.chance(1, 3) {
                    let n = r.below(90000) as usize;
                    (0..n).map(|_| r.next() as u8).collect::<Vec<u8>>()
                } else {
                    gen_data(r)
                };
                if d.len() > budget {
                    break;
                }
                budget -= d.len();
                w.begin();
                if let Ok(n) = e.write(&d) {
                    ck!(n <= d.len(), "consumed more than given");
                    c.extend_from_slice(&d[..n]);
                }
            }
        }
    }
    ck!(e.checksum() == sum_of(k, &c), "checksum differs from that of the {} consumed bytes", c.len());
    w.set(Mode::Soft);
    w.begin();
    e.finish().map_err(|x| format!("finish: {x}"))?;
    check_complete(k, &w.got(), &c)?;
    Ok(())
}

fn drop_case(r: &mut Rng, seed: u64, desc: &mut String) -> R {
    let k = kind(r);
    let o = gen::opt(r);
    let d = gen_data(r);
    let sp = gen::splits(r, d.len());
    *desc = format!("drop {k:?} {o:?} {} bytes, {} writes", d.len(), sp.len());
    let mode = r.pick(&[Mode::Good, Mode::Good, Mode::Soft]);
    let w1 = W::new(seed, mode);
    let w2 = W::new(seed, mode);
    let mut e1 = Enc::new(k, o, w1.clone());
    let mut e2 = Enc::new(k, o, w2.clone());
    let mut at = 0;
    let mut c = vec![];
    let mut c2 = vec![];
    let fl = r.below(3);
    for l in sp {
        write_all(&mut e1, &w1, &d[at..at + l], &mut c)?;
        write_all(&mut e2, &w2, &d[at..at + l], &mut c2)?;
        at += l;
        if r.below(8) < fl {
            w1.begin();
            w2.begin();
            e1.flush().map_err(|x| x.to_string())?;
            e2.flush().map_err(|x| x.to_string())?;
        }
    }
    w1.begin();
    w2.begin();
    {
        let old = e1.finish().map_err(|x| format!("finish: {x}"))?;
        ck!(Rc::ptr_eq(&old.0, &w1.0), "finish returned another writer");
        same("written after finish", &old.got(), &w1.got())?;
    }
    let done = w1.got();
    drop(e2);
    check_complete(k, &done, &d)?;
    same("dropped and finished output", &w2.got(), &done)?;
    same("output after finish", &w1.got(), &done)
}

fn guarded(pid: &str, seed: u64) -> (Result<(), String>, String) {
    let mut desc = String::new();
    let res = catch_unwind(AssertUnwindSafe(|| case(pid, seed, &mut desc)));
    let res = match res {
        Ok(x) => x,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    };
    (res, desc)
}

fn esc(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => "'".to_string(),
            '\\' => "/".to_string(),
            c if (c as u32) < 32 => " ".to_string(),
            c => c.to_string(),
        })
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "replay" {
        let seed: u64 = a[3].parse().unwrap();
        let pid = a[2].clone();
        let h = std::thread::spawn(move || guarded(&pid, seed));
        let t = Instant::now();
        while !h.is_finished() {
            std::thread::sleep(Duration::from_millis(20));
            if t.elapsed().as_secs() > if seed == GIANT { 150 } else { 60 } {
                println!("FAIL: no result within 60 s");
                std::process::exit(1);
            }
        }
        let (res, desc) = h.join().unwrap();
        println!("{desc}");
        match res {
            Ok(()) => println!("ok"),
            Err(m) => {
                println!("FAIL: {m}");
                std::process::exit(1);
            }
        }
        return;
    }
    let pid = a[2].clone();
    let first: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let outf = a[5].clone();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(AtomicU64::new(0));
    let fail: Arc<Mutex<Option<(u64, String, String)>>> = Arc::new(Mutex::new(None));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let cur: Arc<Vec<Mutex<Option<(u64, Instant)>>>> = Arc::new((0..nt).map(|_| Mutex::new(None)).collect());
    let t0 = Instant::now();
    let mut hs = vec![];
    for t in 0..nt {
        let (next, stop, done, nontriv, fail, samples, cur, pid) = (
            next.clone(),
            stop.clone(),
            done.clone(),
            nontriv.clone(),
            fail.clone(),
            samples.clone(),
            cur.clone(),
            pid.clone(),
        );
        hs.push(std::thread::spawn(move || {
            while !stop.load(SeqCst) && t0.elapsed().as_secs_f64() < secs {
                let i = next.fetch_add(1, SeqCst);
                let seed = first.wrapping_mul(1_000_003).wrapping_add(i);
                let seed = if i == 0 && (pid == "P03" || pid == "P07") && secs > 5.0 { GIANT } else { seed };
                *cur[t].lock().unwrap() = Some((seed, Instant::now()));
                let (res, desc) = guarded(&pid, seed);
                *cur[t].lock().unwrap() = None;
                done.fetch_add(1, SeqCst);
                if !desc.contains(" 0 bytes") {
                    nontriv.fetch_add(1, SeqCst);
                }
                if i % 37 == 5 {
                    let mut s = samples.lock().unwrap();
                    if s.len() < 6 {
                        s.push(format!("seed {seed}: {desc}"));
                    }
                }
                if let Err(m) = res {
                    let mut f = fail.lock().unwrap();
                    if f.is_none() {
                        *f = Some((seed, desc, m));
                    }
                    stop.store(true, SeqCst);
                }
            }
        }));
    }
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let mut hung = None;
        for c in cur.iter() {
            if let Some((s, t)) = *c.lock().unwrap() {
                if t.elapsed().as_secs() > if s == GIANT { 150 } else { 60 } {
                    hung = Some(s);
                }
            }
        }
        if let Some(s) = hung {
            let mut f = fail.lock().unwrap();
            if f.is_none() {
                *f = Some((s, "hang".into(), "no result within 60 s (endless loop)".into()));
            }
            break;
        }
        if stop.load(SeqCst) && t0.elapsed().as_secs_f64() > secs + 65.0 {
            break;
        }
    }
    let f = fail.lock().unwrap().clone();
    let fj = match &f {
        None => "null".to_string(),
        Some((s, d, m)) => format!("{{\"seed\": {s}, \"case\": \"{}\", \"message\": \"{}\"}}", esc(d), esc(m)),
    };
    let sj = samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
    std::fs::write(
        &outf,
        format!(
            "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"failure\": {}}}\n",
            done.load(SeqCst),
            nontriv.load(SeqCst),
            sj,
            fj
        ),
    )
    .unwrap();
    std::process::exit(if f.is_some() { 1 } else { 0 });
}
