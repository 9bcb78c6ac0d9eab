use crate::vx::adler32::RollingAdler32;
//@ use crate::rfc::*;

pub trait RollingChecksum /*@ : Sized @*/ {
    //@ /// The bytes covered so far, and what the value of the checksum is for them.
    //@ spec fn data(&self) -> Seq<u8>;
    //@ spec fn sum(d: Seq<u8>) -> u32;
    //@ /// False for the checksum that does nothing.
    //@ spec fn real() -> bool;
    //@ /// `b` is `a` after some calls (for a mutable reference: it borrows the same checksum)
    //@ #[verifier::prophetic]
    //@ spec fn same(a: Self, b: Self) -> bool;
    //@ /// (for a mutable reference) when it is gone, the checksum it borrowed covers `d`
    //@ #[verifier::prophetic]
    //@ spec fn left(a: Self, d: Seq<u8>) -> bool;
    //@ proof fn lemma_left(a: Self, b: Self)
    //@     ensures Self::same(a, b) && has_resolved(b) ==> Self::left(a, b.data());
    fn update(&mut self, byte: u8)
    //@ ensures Self::same(*old(self), *final(self)), Self::real() ==> (*final(self)).data() == (*old(self)).data().push(byte),
    ;
    fn update_from_slice(&mut self, data: &[u8])
    //@ ensures Self::same(*old(self), *final(self)), Self::real() ==> (*final(self)).data() == (*old(self)).data() + data@,
    ;
    fn current_hash(&self) -> /*@(r:@*/ u32 /*@)@*/
    //@ ensures Self::real() ==> r == Self::sum((*self).data()),
    ;
}

pub struct NoChecksum {}

impl NoChecksum {
    pub const fn new() -> NoChecksum {
        NoChecksum {}
    }
}

impl RollingChecksum for NoChecksum {
    //@ open spec fn data(&self) -> Seq<u8> { Seq::empty() }
    //@ open spec fn sum(d: Seq<u8>) -> u32 { 1 }
    //@ open spec fn real() -> bool { false }
    //@ #[verifier::prophetic]
    //@ open spec fn same(a: Self, b: Self) -> bool { true }
    //@ #[verifier::prophetic]
    //@ open spec fn left(a: Self, d: Seq<u8>) -> bool { true }
    //@ proof fn lemma_left(a: Self, b: Self) {}
    fn update(&mut self, __arg: u8) {}
    fn update_from_slice(&mut self, __arg: &[u8]) {}
    fn current_hash(&self) -> u32 {
        1
    }
}

impl<'a> RollingChecksum for &'a mut NoChecksum {
    //@ open spec fn data(&self) -> Seq<u8> { (**self).data() }
    //@ open spec fn sum(d: Seq<u8>) -> u32 { 1 }
    //@ open spec fn real() -> bool { false }
    //@ #[verifier::prophetic]
    //@ open spec fn same(a: Self, b: Self) -> bool { *final(a) == *final(b) }
    //@ #[verifier::prophetic]
    //@ open spec fn left(a: Self, d: Seq<u8>) -> bool { (*final(a)).data() == d }
    //@ proof fn lemma_left(a: Self, b: Self) {}
    fn update(&mut self, __arg: u8) {}
    fn update_from_slice(&mut self, __arg: &[u8]) {}
    fn current_hash(&self) -> u32 {
        1
    }
}

pub struct Adler32Checksum {
    pub adler32: RollingAdler32,
}

impl Adler32Checksum {
    pub fn new() -> /*@(r:@*/ Adler32Checksum /*@)@*/
    //@ ensures r.data() == Seq::<u8>::empty(),
    {
        Adler32Checksum {
            adler32: RollingAdler32::new(),
        }
    }
}

impl RollingChecksum for Adler32Checksum {
    //@ open spec fn data(&self) -> Seq<u8> { self.adler32.data() }
    //@ open spec fn sum(d: Seq<u8>) -> u32 { adler(d) }
    //@ open spec fn real() -> bool { true }
    //@ #[verifier::prophetic]
    //@ open spec fn same(a: Self, b: Self) -> bool { true }
    //@ #[verifier::prophetic]
    //@ open spec fn left(a: Self, d: Seq<u8>) -> bool { true }
    //@ proof fn lemma_left(a: Self, b: Self) {}
    fn update(&mut self, byte: u8) {
        self.adler32.update(byte);
    }

    fn update_from_slice(&mut self, data: &[u8]) {
        self.adler32.update_buffer(data);
    }

    fn current_hash(&self) -> u32 {
        self.adler32.hash()
    }
}

impl<'a> RollingChecksum for &'a mut Adler32Checksum {
    //@ open spec fn data(&self) -> Seq<u8> { (**self).data() }
    //@ open spec fn sum(d: Seq<u8>) -> u32 { adler(d) }
    //@ open spec fn real() -> bool { true }
    //@ #[verifier::prophetic]
    //@ open spec fn same(a: Self, b: Self) -> bool { *final(a) == *final(b) }
    //@ #[verifier::prophetic]
    //@ open spec fn left(a: Self, d: Seq<u8>) -> bool { (*final(a)).data() == d }
    //@ proof fn lemma_left(a: Self, b: Self) { assert(has_resolved(b) ==> *b == *final(b)); }
    fn update(&mut self, byte: u8) {
        self.adler32.update(byte);
    }

    fn update_from_slice(&mut self, data: &[u8]) {
        self.adler32.update_buffer(data);
    }

    fn current_hash(&self) -> u32 {
        self.adler32.hash()
    }
}
