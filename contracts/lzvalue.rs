//@ use crate::rfc::*;
use crate::huffman_table::{MAX_DISTANCE, MIN_MATCH};

#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub struct StoredLength {
    pub length: u8,
}

impl StoredLength {

    pub const fn new(stored_length: u8) -> /*@(r:@*/ StoredLength /*@)@*/
    //@ ensures r.length == stored_length,
    {
        StoredLength {
            length: stored_length,
        }
    }

    pub const fn stored_length(&self) -> /*@(r:@*/ u8 /*@)@*/
    //@ ensures r == self.length,
    {
        self.length
    }
}

#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub enum LZType {
    Literal(u8),
    StoredLengthDistance(StoredLength, u16),
}

#[derive(Clone, Copy, Eq, PartialEq, Structural)]
pub struct LZValue {
    pub litlen: u8,
    pub distance: u16,
}

//@ impl LZType {
//@     pub open spec fn view(&self) -> Token {
//@         match self {
//@             LZType::Literal(b) => Token::Lit(*b),
//@             LZType::StoredLengthDistance(l, d) => Token::Match(l.length + 3, *d as int),
//@         }
//@     }
//@ }
impl LZValue {
    //@ /// The token the packed value stands for.
    //@ pub open spec fn view(&self) -> Token {
    //@     if self.distance == 0 { Token::Lit(self.litlen) } else { Token::Match(self.litlen + 3, self.distance as int) }
    //@ }
    pub const fn literal(value: u8) -> /*@(r:@*/ LZValue /*@)@*/
    //@ ensures r@ == Token::Lit(value),
    {
        LZValue {
            litlen: value,
            distance: 0,
        }
    }
    pub fn length_distance(length: u16, distance: u16) -> /*@(r:@*/ LZValue /*@)@*/
    //@ requires 3 <= length <= 258, 1 <= distance <= 32768,
    //@ ensures r@ == Token::Match(length as int, distance as int),
    {

        if !(distance > 0 && distance <= MAX_DISTANCE) { crate::vx::panic(); }
        let stored_length = (length - MIN_MATCH) as u8;
        LZValue {
            litlen: stored_length,
            distance,
        }
    }
    pub fn value(&self) -> /*@(r:@*/ LZType /*@)@*/
    //@ ensures r@ == self@, match r { LZType::StoredLengthDistance(_, d) => d >= 1, _ => true },
    {
        if self.distance != 0 {
            LZType::StoredLengthDistance(StoredLength::new(self.litlen), self.distance)
        } else {
            LZType::Literal(self.litlen)
        }
    }
}

