pub const WINDOW_SIZE: usize = 32768;
pub const WINDOW_MASK: usize = WINDOW_SIZE - 1;
pub const HASH_SHIFT: u16 = 5;
pub const HASH_MASK: u16 = WINDOW_MASK as u16;

//@ /// A table slot that refers to itself: the chain ends there.
//@ pub open spec fn ident(a: [u16; WINDOW_SIZE]) -> bool { forall|i: int| 0 <= i < 32768 ==> #[trigger] a@[i] == i }
//@ use crate::split::*;
//@ impl ChainedHashTable {
//@     pub open spec fn tab(&self) -> Tab { Tab { cur: self.current_hash, head: self.c.head@, prev: self.c.prev@ } }
//@     /// the state of a table nothing was added to
//@     pub open spec fn fresh(&self) -> bool { self.current_hash == 0 && ident(self.c.head) && ident(self.c.prev) }
//@     pub open spec fn wf(&self) -> bool { self.current_hash < 32768 }
//@ }
pub struct Tables {

    pub head: [u16; WINDOW_SIZE],

    pub prev: [u16; WINDOW_SIZE],
}

impl Default for Tables {
    fn default() -> Tables {
        Tables {
            head: [0; WINDOW_SIZE],
            prev: [0; WINDOW_SIZE],
        }
    }
}

impl Tables {
    pub fn fill_prev(&mut self)
    //@     ensures final(self).head == old(self).head, final(self).prev@ == old(self).head@,
    {
        self.prev.copy_from_slice(&self.head);
    }
}

pub fn create_tables() -> /*@ (r: @*/ Box<Tables> /*@ ) @*/
//@     ensures ident(r.head), ident(r.prev),
{

    let mut t: Box<Tables> = crate::vx::box_default();

    for n in 0..t.head.len()
    //@     invariant forall|i: int| 0 <= i < n ==> #[trigger] t.head@[i] == i,
    {
        t.head[n] = n as u16;
    }

    t.fill_prev();

    t
}
pub fn update_hash(current_hash: u16, to_insert: u8) -> /*@ (r: @*/ u16 /*@ ) @*/
//@     ensures r < 32768, r == tab_hash(current_hash, to_insert), // [P17]
{
    update_hash_conf(current_hash, to_insert, HASH_SHIFT, HASH_MASK)
}
pub fn update_hash_conf(current_hash: u16, to_insert: u8, shift: u16, mask: u16) -> /*@ (r: @*/ u16 /*@ ) @*/
//@     requires shift < 16,
//@     ensures
//@         r <= mask,
//@         r == ((current_hash << shift) ^ (to_insert as u16)) & mask, // [P17]
{
    //@ proof { assert(forall|a: u16, b: u16| a & b <= b) by (bit_vector); crate::vx::axiom_from_u8(); }
    ((current_hash << shift) ^ (u16::from(to_insert))) & mask
}
pub fn reset_array(arr: &mut [u16; WINDOW_SIZE])
//@     ensures ident(*final(arr)),
{
    for n in 0..arr.len()
    //@     invariant forall|i: int| 0 <= i < n ==> #[trigger] arr@[i] == i,
    {
        arr[n] = n as u16;
    }
}

pub struct ChainedHashTable {

    pub current_hash: u16,

    pub c: Box<Tables>,

}

impl ChainedHashTable {
    pub fn new() -> /*@ (r: @*/ ChainedHashTable /*@ ) @*/
    //@     ensures r.fresh(), // [P06]
    {
        ChainedHashTable {
            current_hash: 0,
            c: create_tables(),

        }
    }

    pub fn reset(&mut self)
    //@     ensures final(self).fresh(), // [P06]
    {
        self.current_hash = 0;
        reset_array(&mut self.c.head);
        self.c.fill_prev();

    }

    pub fn add_initial_hash_values(&mut self, v1: u8, v2: u8)
    //@     ensures final(self).wf(), final(self).c == old(self).c,
    //@         final(self).current_hash == tab_hash(tab_hash(old(self).current_hash, v1), v2), // [P17]
    {
        self.current_hash = update_hash(self.current_hash, v1);
        self.current_hash = update_hash(self.current_hash, v2);
    }
    pub fn add_hash_value(&mut self, position: usize, value: u8)
    //@     requires position < 65536,
    //@     ensures
    //@         final(self).wf(),
    //@         final(self).tab() == tab_add(old(self).tab(), position as int, value), // [P17]
    {

        if !(
            position < WINDOW_SIZE * 2) { crate::vx::panic(); }

        let new_hash = update_hash(self.current_hash, value);

        self.add_with_hash(position, new_hash);

        self.current_hash = new_hash;
    }
    pub fn set_hash(&mut self, hash: u16)
    //@     requires hash < 32768,
    //@     ensures final(self).wf(), final(self).c == old(self).c,
    {
        self.current_hash = hash;
    }
    pub fn add_with_hash(&mut self, position: usize, hash: u16)
    //@     requires hash < 32768,
    //@     ensures
    //@         final(self).current_hash == old(self).current_hash,
    //@         position < 65536 ==> final(self).tab() == tab_put(old(self).tab(), position as int, hash), // [P17]
    {
        //@ assert(position & 32767 < 32768) by (bit_vector);
        self.c.prev[position & WINDOW_MASK] = self.c.head[hash as usize];

        self.c.head[hash as usize] = position as u16;
    }
    pub const fn current_hash(&self) -> /*@ (r: @*/ u16 /*@ ) @*/
    //@     ensures r == self.current_hash,
    {
        self.current_hash
    }
    pub const fn get_prev(&self, bytes: usize) -> /*@ (r: @*/ u16 /*@ ) @*/
    //@     ensures r == self.c.prev@[(bytes & 32767) as int],
    {
        //@ assert(bytes & 32767 < 32768) by (bit_vector);
        self.c.prev[bytes & WINDOW_MASK]
    }
    pub fn slide_value(b: u16, pos: u16, bytes: u16) -> /*@ (r: @*/ u16 /*@ ) @*/
    //@     ensures r == if b >= bytes { (b - bytes) as u16 } else { pos },
    {
        if b >= bytes {
            b - bytes
        } else {
            pos
        }
    }
    pub fn slide_table(table: &mut [u16; WINDOW_SIZE], bytes: u16)
    //@     ensures forall|i: int| 0 <= i < 32768 ==> #[trigger] final(table)@[i] == if old(table)@[i] >= bytes { old(table)@[i] - bytes } else { i },
    {
        for n in 0..table.len()
        //@     invariant forall|i: int| 0 <= i < n ==> #[trigger] table@[i] == if old(table)@[i] >= bytes { old(table)@[i] - bytes } else { i },
        //@         forall|i: int| n <= i < 32768 ==> #[trigger] table@[i] == old(table)@[i],
        {
            table[n] = ChainedHashTable::slide_value(table[n], n as u16, bytes);
        }
    }

    pub fn slide(&mut self, bytes: usize)
    //@     ensures
    //@         final(self).current_hash == old(self).current_hash,
    //@         bytes < 65536 ==> final(self).tab() == tab_slid(old(self).tab(), bytes as u16), // [P17]
    {

        ChainedHashTable::slide_table(&mut self.c.head, bytes as u16);
        ChainedHashTable::slide_table(&mut self.c.prev, bytes as u16);
        //@ assert(self.c.head@ =~= slid(old(self).c.head@, bytes as u16)); assert(self.c.prev@ =~= slid(old(self).c.prev@, bytes as u16));
    }
}

