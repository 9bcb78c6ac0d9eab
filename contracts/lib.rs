use crate::vx::io;
use crate::vx::io::Write;
//@ use crate::vx::io::WriteExt; use crate::{zlib, checksum, compression_options, lz77}; use crate::rfc::*; use crate::stream::*; use crate::writer::{complete, sized, decided}; use crate::deflate_state::deflated; use crate::zlib::zlib_head; use crate::zlib::zlib_header; use crate::deflate_state::hist0;
use crate::vx::gzip_header::Crc;
use crate::vx::gzip_header::GzBuilder;

use crate::checksum::RollingChecksum;
use crate::deflate_state::DeflateState;

use crate::compress::Flush;
pub use compression_options::{Compression, CompressionOptions, SpecialOptions};
pub use lz77::MatchingType;

use crate::writer::compress_until_done;

pub mod write {
    pub use crate::writer::gzip::GzEncoder;
    pub use crate::writer::{DeflateEncoder, ZlibEncoder};
}

//@ /// RFC 1950: a complete zlib stream for `data`
//@ pub open spec fn zlib_whole(s: Seq<u8>, data: Seq<u8>) -> bool {
//@     exists|hd: Seq<u8>| zlib_header(hd) && #[trigger] complete(s, Seq::empty(), hd, data, be32(adler(data)))
//@ }
//@ /// RFC 1952: a member with this header for `data`
//@ pub open spec fn gzip_whole(s: Seq<u8>, hd: Seq<u8>, data: Seq<u8>) -> bool {
//@     complete(s, Seq::empty(), hd, data, le32(crc(data)) + le32((data.len() % 0x1_0000_0000) as u32))
//@ }
//@ /// `into` turns `options` into some `o` with which `f` holds
//@ pub open spec fn with<O: Into<CompressionOptions>>(options: O, f: spec_fn(CompressionOptions) -> bool) -> bool { exists|o: CompressionOptions| #[trigger] call_ensures(<O as Into<CompressionOptions>>::into, (options,), o) && f(o) }
//@ /// framing around what there is
//@ proof fn lemma_framed(sink: Seq<u8>, hd: Seq<u8>, data: Seq<u8>, tail: Seq<u8>)
//@     requires complete(sink, hd, Seq::empty(), data, Seq::empty()),
//@     ensures complete(sink + tail, Seq::empty(), hd, data, tail),
//@ {
//@     let (s, bs) = choose|s: Seq<u8>, bs: Seq<Block>| #[trigger] is_stream(s, bs, data) && sink == hd + Seq::<u8>::empty() + s + Seq::<u8>::empty();
//@     assert(sink + tail =~= Seq::<u8>::empty() + hd + s + tail);
//@ }

pub fn compress_data_dynamic<RC: RollingChecksum, W: Write>(
    input: &[u8],
    writer: &mut W,
    mut checksum: RC,
    compression_options: CompressionOptions,
) -> /*@ (r: @*/ io::Result<()> /*@ ) @*/
//@     requires (*old(writer)).ok(),
//@     ensures
//@         RC::real() ==> RC::left(checksum, checksum.data() + input@), // [P02]
//@         r is Ok ==> complete((*final(writer)).sink(), (*old(writer)).sink(), Seq::empty(), input@, Seq::empty()), // [P01 P04]
//@         r is Ok ==> sized((*final(writer)).sink(), (*old(writer)).sink(), 0, input@, 1), // [P11]
//@         r is Ok ==> (*final(writer)).sink() == (*old(writer)).sink() + deflated(compression_options, input@), // [P17]
//@         (*old(writer)).sure() ==> r is Ok, // [P07]
{
    //@ let ghost c0 = checksum; let ghost w0 = (*writer).sink();
    checksum.update_from_slice(input);
    //@ proof { RC::lemma_left(c0, checksum); }

    let mut deflate_state = Box::new(DeflateState::new(compression_options, writer));
    //@ let ghost s0 = *deflate_state;
    //@ assert(s0.gh@.h + input@ =~= input@);
    //@ assert forall|x: DeflateState<&mut W>| #![trigger x.wf()] x.wf() && x.out().len() == 0 && x.lz77_state.is_last_block implies complete(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre, x.gh@.h, x.gh@.tail) && sized(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre.len() + x.gh@.tail.len(), x.gh@.h, x.gh@.ends) by { x.lemma_complete(); x.lemma_sized(); }
    //@ assert forall|x: DeflateState<&mut W>| #![trigger x.wf()] x.wf() && x.out().len() == 0 && x.lz77_state.is_last_block && x.det(Seq::empty()) implies decided(x.inner->0.sink(), x.gh@.sink0, x.gh@.pre, x.compression_options, x.gh@.h, x.gh@.tail) by { x.lemma_decided(); }
    //@ assert forall|a: Seq<u8>, d: Seq<u8>, e: Seq<u8>| e.len() == 0 implies #[trigger] (a + e + d + e) == a + d by { assert(a + e + d + e =~= a + d); }
    //@ assert(s0.det(input@));
    compress_until_done(input, &mut deflate_state, Flush::Finish)
}

pub fn deflate_bytes_conf<O: Into<CompressionOptions>>(input: &[u8], options: O) -> /*@ (r: @*/ Vec<u8> /*@ ) @*/
//@     ensures complete(r@, Seq::empty(), Seq::empty(), input@, Seq::empty()), // [P01 P04 P07]
//@         sized(r@, Seq::empty(), 0, input@, 1), // [P11]
//@         with(options, |o: CompressionOptions| r@ == deflated(o, input@)), // [P17]
{
    let mut writer = Vec::with_capacity(input.len() / 3);
    compress_data_dynamic(
        input,
        &mut writer,
        checksum::NoChecksum::new(),
        options.into(),
    )
    .expect("Write error!");
    //@ let ghost o = choose|o: CompressionOptions| #[trigger] call_ensures(<O as Into<CompressionOptions>>::into, (options,), o) && writer@ == Seq::<u8>::empty() + deflated(o, input@);
    //@ assert(writer@ =~= deflated(o, input@));
    writer
}

pub fn deflate_bytes(input: &[u8]) -> /*@ (r: @*/ Vec<u8> /*@ ) @*/
//@     ensures complete(r@, Seq::empty(), Seq::empty(), input@, Seq::empty()), // [P01 P04 P07]
//@         sized(r@, Seq::empty(), 0, input@, 1), // [P11]
//@         with(Compression::Default, |o: CompressionOptions| r@ == deflated(o, input@)), // [P17]
{
    deflate_bytes_conf(input, Compression::Default)
}

pub fn deflate_bytes_zlib_conf<O: Into<CompressionOptions>>(input: &[u8], options: O) -> /*@ (r: @*/ Vec<u8> /*@ ) @*/
//@     ensures zlib_whole(r@, input@), // [P02 P04 P07]
//@         sized(r@, Seq::empty(), 6, input@, 1), // [P11]
//@         with(options, |o: CompressionOptions| r@ == zlib_head() + deflated(o, input@) + be32(adler(input@))), // [P17]
{
    let mut writer = Vec::with_capacity(input.len() / 3);
    
    zlib::write_zlib_header(&mut writer, zlib::CompressionLevel::Default)
        .expect("Write error when writing zlib header!");
    //@ let ghost hd = choose|h: Seq<u8>| zlib_header(h) && writer@ == Seq::<u8>::empty() + h;
    //@ assert(writer@ =~= hd);

    let mut checksum = checksum::Adler32Checksum::new();
    compress_data_dynamic(input, &mut writer, &mut checksum, options.into())
        .expect("Write error when writing compressed data!");
    //@ let ghost o = choose|o: CompressionOptions| #[trigger] call_ensures(<O as Into<CompressionOptions>>::into, (options,), o) && writer@ == hd + deflated(o, input@);
    //@ assert(Seq::<u8>::empty() + zlib_head() =~= zlib_head());

    //@ proof { assert(Seq::<u8>::empty() + input@ =~= input@); lemma_framed(writer@, hd, input@, be32(adler(input@))); }
    let hash = checksum.current_hash();

    writer
        .write_all(&hash.vx_to_be_bytes())
        .expect("Write error when writing checksum!");
    writer
}

pub fn deflate_bytes_zlib(input: &[u8]) -> /*@ (r: @*/ Vec<u8> /*@ ) @*/
//@     ensures zlib_whole(r@, input@), // [P02 P04 P07]
//@         sized(r@, Seq::empty(), 6, input@, 1), // [P11]
//@         with(Compression::Default, |o: CompressionOptions| r@ == zlib_head() + deflated(o, input@) + be32(adler(input@))), // [P17]
{
    deflate_bytes_zlib_conf(input, Compression::Default)
}
pub fn deflate_bytes_gzip_conf<O: Into<CompressionOptions>>(
    input: &[u8],
    options: O,
    gzip_header: GzBuilder,
) -> /*@ (r: @*/ Vec<u8> /*@ ) @*/
//@     ensures gzip_whole(r@, gzip_header.header(), input@), // [P03 P04 P07]
//@         sized(r@, Seq::empty(), gzip_header.header().len() + 8, input@, 1), // [P11]
//@         with(options, |o: CompressionOptions| r@ == gzip_header.header() + deflated(o, input@) + (le32(crc(input@)) + le32((input@.len() % 0x1_0000_0000) as u32))), // [P17]
{
    let mut writer = Vec::with_capacity(input.len() / 3);

    writer
        .write_all(&gzip_header.into_header())
        .expect("Write error when writing header!");
    //@ let ghost hd = gzip_header.header();
    //@ assert(writer@ =~= hd);
    let mut checksum = checksum::NoChecksum::new();
    compress_data_dynamic(input, &mut writer, &mut checksum, options.into())
        .expect("Write error when writing compressed data!");
    //@ let ghost o = choose|o: CompressionOptions| #[trigger] call_ensures(<O as Into<CompressionOptions>>::into, (options,), o) && writer@ == hd + deflated(o, input@);

    let mut crc = Crc::new();
    crc.update(input);
    //@ let ghost w0 = writer@; let ghost a = le32(crate::rfc::crc(input@)); let ghost b = le32((input@.len() % 0x1_0000_0000) as u32);
    //@ proof { assert(Seq::<u8>::empty() + input@ =~= input@); lemma_framed(w0, hd, input@, a + b); assert(w0 + a + b =~= w0 + (a + b)); }

    writer
        .write_all(&crc.sum().vx_to_le_bytes())
        .expect("Write error when writing checksum!");
    writer
        .write_all(&crc.amt_as_u32().vx_to_le_bytes())
        .expect("Write error when writing amt!");
    writer
}
pub fn deflate_bytes_gzip(input: &[u8]) -> /*@ (r: @*/ Vec<u8> /*@ ) @*/
//@     ensures gzip_whole(r@, crate::vx::gzip_header::blank(), input@), // [P03 P04 P07]
//@         sized(r@, Seq::empty(), crate::vx::gzip_header::blank().len() + 8, input@, 1), // [P11]
//@         with(Compression::Default, |o: CompressionOptions| r@ == crate::vx::gzip_header::blank() + deflated(o, input@) + (le32(crc(input@)) + le32((input@.len() % 0x1_0000_0000) as u32))), // [P17]
{
    deflate_bytes_gzip_conf(input, Compression::Default, GzBuilder::new())
}

