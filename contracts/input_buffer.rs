use std::cmp;

use crate::chained_hash_table::WINDOW_SIZE;

pub const MAX_MATCH: usize = crate::huffman_table::MAX_MATCH as usize;

pub const BUFFER_SIZE: usize = (WINDOW_SIZE * 2) + MAX_MATCH;

//@ pub open spec fn lesser(a: int, b: int) -> int { if a < b { a } else { b } }
//@ impl InputBuffer { pub open spec fn view(&self) -> Seq<u8> { self.buffer@ } }
pub struct InputBuffer {
    pub buffer: Vec<u8>,
}

impl InputBuffer {

    pub fn empty() -> /*@ (r: @*/ InputBuffer /*@ ) @*/
    //@     ensures r@.len() == 0,
    {
        InputBuffer {
            buffer: Vec::with_capacity(BUFFER_SIZE),
        }
    }

    pub fn add_data<'a>(&mut self, data: &'a [u8]) -> /*@ (r: @*/ Option<&'a [u8]> /*@ ) @*/
    //@     requires old(self)@.len() <= BUFFER_SIZE,
    //@     ensures ({
    //@         let n = lesser(BUFFER_SIZE - old(self)@.len(), data@.len() as int);
    //@         &&& final(self)@ == old(self)@ + data@.subrange(0, n)
    //@         &&& match r { Some(x) => n < data@.len() && x@ == data@.subrange(n, data@.len() as int), None => n == data@.len() }
    //@     }),
    {
        //@ proof { crate::vx::axiom_slice_len(data); }
        if !(self.current_end() <= BUFFER_SIZE) { crate::vx::panic(); }
        if self.current_end() + data.len() > BUFFER_SIZE {

            let consumed = {
                let space_left = BUFFER_SIZE - self.buffer.len();
                self.buffer.extend_from_slice(&data[..space_left]);
                space_left
            };
            //@ assert(data@.subrange(0, consumed as int) =~= data@.take(consumed as int));
            Some(&data[consumed..])
        } else {

            self.buffer.extend_from_slice(data);
            //@ assert(data@.subrange(0, data@.len() as int) =~= data@);
            None
        }
    }

    pub fn current_end(&self) -> /*@ (r: @*/ usize /*@ ) @*/
    //@     ensures r == self@.len(),
    {
        self.buffer.len()
    }

    pub fn slide<'a>(&mut self, data: &'a [u8]) -> /*@ (r: @*/ Option<&'a [u8]> /*@ ) @*/
    //@     requires 65536 < old(self)@.len() <= BUFFER_SIZE,
    //@     ensures ({
    //@         let n = lesser(32768, data@.len() as int);
    //@         &&& final(self)@ == old(self)@.subrange(32768, old(self)@.len() as int) + data@.subrange(0, n)
    //@         &&& match r { Some(x) => n < data@.len() && x@ == data@.subrange(n, data@.len() as int), None => n == data@.len() }
    //@     }),
    {

        if !(self.buffer.len() > WINDOW_SIZE * 2) { crate::vx::panic(); }

        let (final_len, upper_len, end) = {

            let (lower, upper) = self.buffer.split_at_mut(WINDOW_SIZE);

            lower.copy_from_slice(&upper[..WINDOW_SIZE]);
            let lookahead_len = {

                let (upper_2, lookahead) = upper.split_at_mut(WINDOW_SIZE);
                let lookahead_len = lookahead.len();
                if !(lookahead_len <= MAX_MATCH) { crate::vx::panic(); }
                upper_2[..lookahead_len].copy_from_slice(lookahead);
                lookahead_len
            };

            let upper_len = upper.len() - lookahead_len;
            let end = ({ let __a =data.len() ; let __b = upper_len ; if __b < __a { __b } else { __a } });
            upper[lookahead_len..lookahead_len + end].copy_from_slice(&data[..end]);

            (lower.len() + lookahead_len + end, upper_len, end)
        };

        self.buffer.truncate(final_len);

        if data.len() > upper_len {

            Some(&data[end..])
        } else {
            None
        }
    }

    pub fn get_buffer(&mut self) -> /*@ (r: @*/ &mut [u8] /*@ ) @*/
    //@     ensures r@ == old(self)@, final(self)@ == final(r)@,
    {
        &mut self.buffer
    }
}

