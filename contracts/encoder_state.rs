use crate::bitstream::LsbWriter;
use crate::huffman_table::HuffmanTable;
use crate::lzvalue::LZType;
//@ use crate::rfc::*; use crate::stream::*;

pub const FIXED_FIRST_BYTE: u16 = 0b010;
pub const FIXED_FIRST_BYTE_FINAL: u16 = 0b011;
pub const DYNAMIC_FIRST_BYTE: u16 = 0b100;
pub const DYNAMIC_FIRST_BYTE_FINAL: u16 = 0b101;
pub enum BType {
    NoCompression = 0b00,
    FixedHuffman = 0b01,
    DynamicHuffman = 0b10, 
}

pub struct EncoderState {
    pub huffman_table: HuffmanTable,
    pub writer: LsbWriter,
}

//@ impl EncoderState {
//@     pub open spec fn wf(&self) -> bool { self.huffman_table.wf() && self.writer.wf() }
//@     pub open spec fn ll(&self) -> Seq<u8> { self.huffman_table.code_lengths@ }
//@     pub open spec fn dd(&self) -> Seq<u8> { self.huffman_table.distance_code_lengths@ }
//@ }
impl EncoderState {

    pub fn new(writer: Vec<u8>) -> /*@(r:@*/ EncoderState /*@)@*/
    //@ ensures r.wf(), r.writer.aligned(), r.writer.w@ == writer@, r.writer@ == byte_bits(writer@),
    {
        EncoderState {
            huffman_table: HuffmanTable::empty(),
            writer: LsbWriter::new(writer),
        }
    }

    pub fn inner_vec(&mut self) -> /*@(r:@*/ &mut Vec<u8> /*@)@*/
    //@ ensures *r == old(self).writer.w, final(self).writer.w == *final(r), final(self).writer.acc == old(self).writer.acc,
    //@     final(self).writer.bits == old(self).writer.bits, final(self).huffman_table == old(self).huffman_table,
    {
        &mut self.writer.w
    }

    pub fn write_literal(&mut self, value: u8)
    //@ requires old(self).wf(), old(self).ll()[value as int] > 0,
    //@ ensures final(self).wf(), final(self).huffman_table == old(self).huffman_table, final(self).writer.w@.len() >= old(self).writer.w@.len(),
    //@     final(self).writer@ == old(self).writer@ + huff(old(self).ll(), value as int),
    {
        let code = self.huffman_table.get_literal(value);
        if !(code.length > 0) { crate::vx::panic(); }
        self.writer.write_bits(code.code, code.length);
    }

    pub fn write_lzvalue(&mut self, value: LZType)
    //@ requires old(self).wf(), token_range(value@), token_coded(value@, old(self).ll(), old(self).dd()),
    //@ ensures final(self).wf(), final(self).huffman_table == old(self).huffman_table, final(self).writer.w@.len() >= old(self).writer.w@.len(),
    //@     final(self).writer@ == old(self).writer@ + enc_token(value@, old(self).ll(), old(self).dd()),
    {
        match value {
            LZType::Literal(l) => self.write_literal(l),
            LZType::StoredLengthDistance(l, d) => {
                let (code, extra_bits_code) = self.huffman_table.get_length_huffman(l);
                if !(
                    code.length != 0) { crate::vx::panic(); }
                self.writer.write_bits(code.code, code.length);
                self.writer
                    .write_bits(extra_bits_code.code, extra_bits_code.length);

                let (code, extra_bits_code) = self.huffman_table.get_distance_huffman(d);
                if !(
                    code.length != 0) { crate::vx::panic(); }

                self.writer.write_bits(code.code, code.length);
                self.writer
                    .write_bits(extra_bits_code.code, extra_bits_code.length)
            }
        };
        //@ assert(self.writer@ =~= old(self).writer@ + enc_token(value@, old(self).ll(), old(self).dd()));
    }

    pub fn write_start_of_block(&mut self, fixed: bool, final_block: bool)
    //@ requires old(self).writer.wf(),
    //@ ensures final(self).writer.wf(), final(self).huffman_table == old(self).huffman_table, final(self).writer.w@.len() >= old(self).writer.w@.len(),
    //@     final(self).writer@ == old(self).writer@ + block_start(final_block, if fixed { 1u64 } else { 2 }),
    {
        //@ proof { lemma_block_start(); }

        if final_block {

            if fixed {
                self.writer.write_bits(FIXED_FIRST_BYTE_FINAL, 3)
            } else {
                self.writer.write_bits(DYNAMIC_FIRST_BYTE_FINAL, 3)
            }
        } else if fixed {
            self.writer.write_bits(FIXED_FIRST_BYTE, 3)
        } else {
            self.writer.write_bits(DYNAMIC_FIRST_BYTE, 3)
        }
    }

    pub fn write_end_of_block(&mut self)
    //@ requires old(self).wf(), old(self).ll()[256] > 0,
    //@ ensures final(self).wf(), final(self).huffman_table == old(self).huffman_table, final(self).writer.w@.len() >= old(self).writer.w@.len(),
    //@     final(self).writer@ == old(self).writer@ + huff(old(self).ll(), 256),
    {
        let code = self.huffman_table.get_end_of_block();
        self.writer.write_bits(code.code, code.length)
    }

    pub fn flush(&mut self)
    //@ requires old(self).writer.wf(),
    //@ ensures final(self).writer.wf(), final(self).writer.aligned(), final(self).huffman_table == old(self).huffman_table, final(self).writer.w@.len() >= old(self).writer.w@.len(),
    //@     final(self).writer@ == old(self).writer@ + pad(old(self).writer@.len()),
    //@     old(self).writer.aligned() ==> final(self).writer.w@ == old(self).writer.w@,
    {
        self.writer.flush_raw()
    }

    pub fn set_huffman_to_fixed(&mut self)
    //@ ensures old(self).writer == final(self).writer, final(self).huffman_table.wf(), final(self).ll() == fixed_ll(), final(self).dd() == fixed_dd(),
    {
        self.huffman_table.set_to_fixed()
    }
}


//@ pub proof fn lemma_block_start()
//@     ensures
//@         lsb(0b010, 3) == block_start(false, 1), lsb(0b011, 3) == block_start(true, 1),
//@         lsb(0b100, 3) == block_start(false, 2), lsb(0b101, 3) == block_start(true, 2),
//@         lsb(0b000, 3) == block_start(false, 0), lsb(0b001, 3) == block_start(true, 0),
//@         0b010u64 >> 3u64 == 0, 0b011u64 >> 3u64 == 0, 0b100u64 >> 3u64 == 0, 0b101u64 >> 3u64 == 0, 0u64 >> 3u64 == 0, 1u64 >> 3u64 == 0,
//@ {
//@     assert(0b010u64 >> 3u64 == 0 && 0b011u64 >> 3u64 == 0 && 0b100u64 >> 3u64 == 0 && 0b101u64 >> 3u64 == 0 && 0u64 >> 3u64 == 0 && 1u64 >> 3u64 == 0) by (bit_vector);
//@     assert forall|v: u64| v < 8 implies bit(v, 0) == (v % 2 == 1) && bit(v, 1) == (v / 2 % 2 == 1) && bit(v, 2) == (v / 4 % 2 == 1) by {
//@         assert(v < 8 ==> ((v >> 0u64) & 1 == 1) == (v % 2 == 1)) by (bit_vector);
//@         assert(v < 8 ==> ((v >> 1u64) & 1 == 1) == (v / 2 % 2 == 1)) by (bit_vector);
//@         assert(v < 8 ==> ((v >> 2u64) & 1 == 1) == (v / 4 % 2 == 1)) by (bit_vector);
//@     }
//@     assert(lsb(0b010, 3) =~= block_start(false, 1)); assert(lsb(0b011, 3) =~= block_start(true, 1));
//@     assert(lsb(0b100, 3) =~= block_start(false, 2)); assert(lsb(0b101, 3) =~= block_start(true, 2));
//@     assert(lsb(0b000, 3) =~= block_start(false, 0)); assert(lsb(0b001, 3) =~= block_start(true, 0));
//@ }
