pub fn reverse_bits(mut n: u16, length: u8) -> /*@(r:@*/ u16 /*@)@*/
//@ requires 1 <= length <= 16, (n as u64) >> (length as u64) == 0,
//@ ensures
//@     (r as u64) >> (length as u64) == 0,
//@     forall|i: int| 0 <= i < length ==> #[trigger] bit(r as u64, i) == bit(n as u64, length - 1 - i),
{
    //@ let ghost n0 = n;

    n = ((n & 0xaaaa) >> 1) | ((n & 0x5555) << 1);
    //@ let ghost n1 = n;
    n = ((n & 0xcccc) >> 2) | ((n & 0x3333) << 2);
    //@ let ghost n2 = n;
    n = ((n & 0xf0f0) >> 4) | ((n & 0x0f0f) << 4);
    //@ let ghost n3 = n;
    n = ((n & 0xff00) >> 8) | ((n & 0x00ff) << 8);
    //@ proof {
    //@     let r = n >> ((16 - length) as u16);
    //@     let l = length as u64;
    //@     assert((r as u64) >> l == 0) by (bit_vector)
    //@         requires r == n >> ((16u64 - l) as u16), 1 <= l <= 16;
    //@     assert forall|i: int| 0 <= i < length implies #[trigger] bit(r as u64, i) == bit(n0 as u64, length - 1 - i) by {
    //@         let k = i as u64;
    //@         assert(((r as u64) >> k) & 1 == ((n0 as u64) >> ((l - 1 - k) as u64)) & 1) by (bit_vector)
    //@             requires r == n >> ((16u64 - l) as u16), 1 <= l <= 16, k < l,
    //@                 n == ((n3 & 0xff00) >> 8) | ((n3 & 0x00ff) << 8), n3 == ((n2 & 0xf0f0) >> 4) | ((n2 & 0x0f0f) << 4),
    //@                 n2 == ((n1 & 0xcccc) >> 2) | ((n1 & 0x3333) << 2), n1 == ((n0 & 0xaaaa) >> 1) | ((n0 & 0x5555) << 1);
    //@     }
    //@ }
    n >> (16 - length)
}

