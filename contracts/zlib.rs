use crate::vx::io::{Result, Write};
//@ use crate::vx::io::WriteExt;

pub const DEFAULT_CM: u8 = 8;

pub const DEFAULT_CINFO: u8 = 7 << 4;
pub const DEFAULT_CMF: u8 = DEFAULT_CM | DEFAULT_CINFO;

pub const _DEFAULT_FLEVEL: u8 = 0 << 7;

pub const FCHECK_DIVISOR: u8 = 31;
pub enum CompressionLevel {
    Fastest = 0 << 6,
    Fast = 1 << 6,
    Default = 2 << 6,
    Maximum = 3 << 6,
}

pub fn add_fcheck(cmf: u8, flg: u8) -> /*@(r:@*/ u8 /*@)@*/
//@ requires flg & 31 == 0,
//@ ensures (cmf as int * 256 + r) % 31 == 0, flg & 32 == 0 ==> r & 32 == 0, cmf == 120 && flg == 128 ==> r == 156,
{
    //@ assert(flg & 31 == 0 ==> flg & 0b11100000 == flg && flg <= 224 && forall|k: u8| k <= 31 ==> #[trigger] ((flg + k) as u8) & 32 == flg & 32) by (bit_vector);
    let rem = ((cmf as usize * 256) + flg as usize) % FCHECK_DIVISOR as usize;

    let flg = flg & 0b11100000;

    flg + (FCHECK_DIVISOR - rem as u8)
}

pub fn write_zlib_header<W: Write>(writer: &mut W, level: CompressionLevel) -> /*@(r:@*/ Result<()> /*@)@*/
//@ requires (*old(writer)).ok(),
//@ ensures (*final(writer)).ok(), (*old(writer)).sure() ==> (*final(writer)).sure() && r is Ok,
//@     r is Ok ==> exists|h: Seq<u8>| zlib_header(h) && (*final(writer)).sink() == (*old(writer)).sink() + h,
//@     r is Ok && level is Default ==> (*final(writer)).sink() == (*old(writer)).sink() + zlib_head(), // [P17]
{
    writer.write_all(&get_zlib_header(level))
}

pub fn get_zlib_header(level: CompressionLevel) -> /*@(r:@*/ [u8; 2] /*@)@*/
//@ ensures zlib_header(r@),
//@     level is Default ==> r@ == zlib_head(), // [P17]
{
    let cmf = DEFAULT_CMF;
    //@ assert(DEFAULT_CMF == 0x78) by (compute_only);
    //@ assert(0u8 & 31 == 0 && 64u8 & 31 == 0 && 128u8 & 31 == 0 && 192u8 & 31 == 0 && 0u8 & 32 == 0 && 64u8 & 32 == 0 && 128u8 & 32 == 0 && 192u8 & 32 == 0) by (bit_vector);
    //@ assert(seq![0x78u8, 156u8] =~= zlib_head());
    [cmf, add_fcheck(cmf, level as u8)]
}


//@ /// RFC 1950 2.2: deflate, 32 KiB window, check bits, no preset dictionary.
//@ pub open spec fn zlib_header(h: Seq<u8>) -> bool {
//@     h.len() == 2 && h[0] == 0x78 && (h[0] as int * 256 + h[1]) % 31 == 0 && h[1] & 32 == 0
//@ }
//@ /// the header for the default level
//@ pub open spec fn zlib_head() -> Seq<u8> { seq![0x78u8, 0x9cu8] }
