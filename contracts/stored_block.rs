use crate::bitstream::LsbWriter;
use crate::vx::io;
use crate::vx::io::Write;
//@ use crate::vx::io::WriteExt; use crate::rfc::*; use crate::stream::*; use crate::encoder_state::*;
/*-{*/use std::u16;/*-}{ }*/

pub const STORED_FIRST_BYTE: u8 = 0b0000_0000;
pub const STORED_FIRST_BYTE_FINAL: u8 = 0b0000_0001;
pub const MAX_STORED_BLOCK_LENGTH: usize = (u16::MAX as usize) / 2;

pub fn write_stored_header(writer: &mut LsbWriter, final_block: bool)
//@ requires old(writer).wf(),
//@ ensures final(writer).wf(), final(writer).aligned(), final(writer).w@.len() >= old(writer).w@.len(),
//@     final(writer)@ == old(writer)@ + block_start(final_block, 0) + pad(old(writer)@.len() + 3),
{
    //@ proof { lemma_block_start(); }

    let header = if final_block {
        STORED_FIRST_BYTE_FINAL
    } else {
        STORED_FIRST_BYTE
    };

    writer.write_bits(header.into(), 3);

    writer.flush_raw();
}

pub fn compress_block_stored<W: Write>(input: &[u8], writer: &mut W) -> /*@(r:@*/ io::Result<usize> /*@)@*/
//@ requires (*old(writer)).ok(),
//@ ensures (*final(writer)).ok(),
//@     (*old(writer)).sure() && input@.len() <= 65535 ==> (*final(writer)).sure() && r == Ok::<usize, io::Error>(input@.len() as usize),
//@     input@.len() > 65535 ==> r is Err,
//@     r is Ok ==> r->Ok_0 <= input@.len() && (*final(writer)).sink() == (*old(writer)).sink() + le16(input@.len() as u16) + le16(!(input@.len() as u16)) + input@.subrange(0, r->Ok_0 as int),
{
    if input.len() > u16::max_value() as usize {
        return Err(io::Error::new(
            io::ErrorKind::InvalidInput,
            "Stored block too long!",
        ));
    };

    writer.write_all(&(input.len() as u16).vx_to_le_bytes())?;

    writer.write_all(&(!input.len() as u16).vx_to_le_bytes())?;

    //@ proof { let l = input@.len() as usize; assert(l <= 65535 ==> (!l) as u16 == !(l as u16)) by (bit_vector); }
    writer.write(input)
}

