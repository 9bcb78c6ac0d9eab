use crate::vx::io::{self, Write};
pub mod arch_dep {
    pub type AccType = u64;
    pub const FLUSH_AT: u8 = 48;
}

use self::arch_dep::*;

pub struct LsbWriter {
    pub w: Vec<u8>,
    pub bits: u8,
    pub acc: AccType,
}

impl LsbWriter {
    //@ /// The bits written so far.
    //@ pub open spec fn view(&self) -> Seq<bool> { byte_bits(self.w@) + lsb(self.acc, self.bits as nat) }
    //@ pub open spec fn wf(&self) -> bool { self.bits < 48 && self.acc >> (self.bits as u64) == 0 }
    //@ /// Nothing is pending in the accumulator.
    //@ pub open spec fn aligned(&self) -> bool { self.bits == 0 }
    //@ pub proof fn lemma_aligned(&self)
    //@     ensures self.aligned() && self.wf() ==> self.view() == byte_bits(self.w@),
    //@ { assert(byte_bits(self.w@) + lsb(self.acc, 0) =~= byte_bits(self.w@)); }

    pub const fn new(writer: Vec<u8>) -> /*@(r:@*/ LsbWriter /*@)@*/
    //@ ensures r.wf(), r.aligned(), r.w@ == writer@, r@ == byte_bits(writer@),
    {
        //@ assert(0u64 >> 0u64 == 0) by (bit_vector);
        //@ assert(byte_bits(writer@) + lsb(0, 0) =~= byte_bits(writer@));
        LsbWriter {
            w: writer,
            bits: 0,
            acc: 0,
        }
    }

    pub const fn pending_bits(&self) -> /*@(r:@*/ u8 /*@)@*/
    //@ requires self.wf(),
    //@ ensures r < 48, self@.len() % 8 == r % 8,
    {
        self.bits
    }

    pub fn write_bits(&mut self, v: u16, n: u8)
    //@ requires old(self).wf(), n <= 16, (v as u64) >> (n as u64) == 0,
    //@ ensures final(self).wf(), final(self)@ == old(self)@ + lsb(v as u64, n as nat), final(self).w@.len() >= old(self).w@.len(),
    {
        //@ proof { lemma_lsb_or(self.acc, v as u64, self.bits as nat, n as nat); }
        //@ let ghost acc0 = self.acc | ((v as u64) << self.bits);
        //@ let ghost w0 = self.w@;
        //@ let ghost n0: nat = (self.bits + n) as nat;
        self.acc |= (AccType::from(v)) << self.bits;
        self.bits += n;
        //@ assert(byte_bits(w0) + lsb(acc0, n0) =~= old(self)@ + lsb(v as u64, n as nat));

        while self.bits >= FLUSH_AT
        //@ invariant
        //@     self.bits < 64,
        //@     self.acc >> (self.bits as u64) == 0,
        //@     self@ == old(self)@ + lsb(v as u64, n as nat), self.w@.len() >= old(self).w@.len(),
        //@ decreases self.bits,
        {
            //@ let ghost a = self.acc;
            //@ let ghost nb = self.bits as nat;
            //@ let ghost w = self.w@;
            self.w.extend_from_slice(
                &[
                    self.acc as u8,
                    (self.acc >> 8) as u8,
                    (self.acc >> 16) as u8,
                    (self.acc >> 24) as u8,
                    (self.acc >> 32) as u8,
                    (self.acc >> 40) as u8,
                ][..],
            );
            //@ proof {
            //@     let a1 = a >> 8; let a2 = a1 >> 8; let a3 = a2 >> 8; let a4 = a3 >> 8; let a5 = a4 >> 8; let a6 = a5 >> 8;
            //@     assert(a1 == a >> 8 && a2 == a >> 16 && a3 == a >> 24 && a4 == a >> 32 && a5 == a >> 40 && a6 == a >> 48) by (bit_vector)
            //@         requires a1 == a >> 8, a2 == a1 >> 8, a3 == a2 >> 8, a4 == a3 >> 8, a5 == a4 >> 8, a6 == a5 >> 8;
            //@     let w1 = w.push(a as u8); let w2 = w1.push(a1 as u8); let w3 = w2.push(a2 as u8);
            //@     let w4 = w3.push(a3 as u8); let w5 = w4.push(a4 as u8); let w6 = w5.push(a5 as u8);
            //@     assert(self.w@ =~= w6);
            //@     lemma_take_byte(w, a, nb); lemma_take_byte(w1, a1, (nb - 8) as nat); lemma_take_byte(w2, a2, (nb - 16) as nat);
            //@     lemma_take_byte(w3, a3, (nb - 24) as nat); lemma_take_byte(w4, a4, (nb - 32) as nat); lemma_take_byte(w5, a5, (nb - 40) as nat);
            //@     lemma_lsb_shift(a, 48, nb);
            //@ }
            self.acc >>= FLUSH_AT;
            self.bits -= FLUSH_AT;
        }
    }

    pub fn write_bits_finish(&mut self, v: u16, n: u8)
    //@ requires old(self).wf(), (v as u64) >> ((n % 8) as u64) == 0,
    //@ ensures final(self).wf(), final(self)@ == old(self)@ + lsb(v as u64, (n % 8) as nat), final(self).w@.len() >= old(self).w@.len(),
    //@     (old(self).bits + n) % 8 == 0 ==> final(self).aligned(),
    {
        //@ proof { lemma_lsb_or(self.acc, v as u64, self.bits as nat, (n % 8) as nat); }
        //@ let ghost acc0 = self.acc | ((v as u64) << self.bits);
        //@ let ghost w0 = self.w@;
        //@ let ghost n0: nat = (self.bits + n % 8) as nat;
        self.acc |= (AccType::from(v)) << self.bits;
        self.bits += n % 8;
        //@ assert(byte_bits(w0) + lsb(acc0, n0) =~= old(self)@ + lsb(v as u64, (n % 8) as nat));
        while self.bits >= 8
        //@ invariant
        //@     self.bits < 64, self.bits as nat % 8 == n0 % 8,
        //@     self.acc >> (self.bits as u64) == 0,
        //@     self@ == old(self)@ + lsb(v as u64, (n % 8) as nat), self.w@.len() >= old(self).w@.len(),
        //@ decreases self.bits,
        {
            //@ proof { lemma_take_byte(self.w@, self.acc, self.bits as nat); lemma_lsb_shift(self.acc, 8, self.bits as nat); }
            self.w.push(self.acc as u8);
            self.acc >>= 8;
            self.bits -= 8;
        }
    }

    pub fn flush_raw(&mut self)
    //@ requires old(self).wf(),
    //@ ensures final(self).wf(), final(self).aligned(), final(self)@ == old(self)@ + pad(old(self)@.len()), final(self).w@.len() >= old(self).w@.len(),
    //@     old(self).aligned() ==> final(self).w@ == old(self).w@,
    {
        //@ proof { let a = self.acc; assert(a >> 0u64 == 0 ==> a == 0) by (bit_vector); }
        //@ assert(0u64 >> ((48 - self.bits) % 8) as u64 == 0) by { let k = ((48 - self.bits) % 8) as u64; assert(0u64 >> k == 0) by (bit_vector); }
        //@ proof { lemma_lsb_zero(((48 - self.bits) % 8) as nat); }
        let missing = FLUSH_AT - self.bits;

        if missing > 0 && self.bits > 0 {
            self.write_bits_finish(0, missing);
        }
        //@ assert(self@ =~= old(self)@ + pad(old(self)@.len()));
    }
}

impl Write for LsbWriter {
    //@ /// Only used (and only specified) on a byte boundary.
    //@ open spec fn ok(&self) -> bool { self.wf() && self.aligned() }
    //@ open spec fn sink(&self) -> Seq<u8> { self.w@ }
    //@ open spec fn sure(&self) -> bool { true }
    //@ open spec fn fuel(&self) -> nat { 0 }
    //@ #[verifier::prophetic]
    //@ open spec fn same(a: Self, b: Self) -> bool { true }
    //@ proof fn same_refl(a: Self) {}
    //@ proof fn same_trans(a: Self, b: Self, c: Self) {}
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        //@ proof { let a = self.acc; assert(a >> 0u64 == 0 ==> a == 0) by (bit_vector); assert(buf@.subrange(0, buf@.len() as int) =~= buf@); }
        if self.acc == 0 {
            self.w.extend_from_slice(buf)
        } else {
            for __byte in /*@ it: @*/ buf.iter()
            //@ invariant it.seq().len() == buf@.len(), false,
            { let byte = *__byte;
                self.write_bits(u16::from(byte), 8)
            }
        }
        Ok(buf.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        self.flush_raw();
        Ok(())
    }
}
