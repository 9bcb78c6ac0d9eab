pub mod spec {
#[allow(unused_imports)] use vstd::prelude::*;
verus! {

// --- bits ---------------------------------------------------------------

/// Bit i (0 = least significant) of v.
pub open spec fn bit(v: u64, i: int) -> bool {
    (v >> (i as u64)) & 1 == 1
}

/// The n low bits of v, least significant first.
pub open spec fn lsb(v: u64, n: nat) -> Seq<bool> {
    Seq::new(n, |i: int| bit(v, i))
}

/// The bits of a byte string in the order RFC 1951 packs them.
pub open spec fn byte_bits(w: Seq<u8>) -> Seq<bool> {
    Seq::new(8 * w.len(), |i: int| bit(w[i / 8] as u64, i % 8))
}

/// Zero bits up to the next byte boundary after n bits.
pub open spec fn pad(n: nat) -> Seq<bool> {
    Seq::new(((8 - (n as int) % 8) % 8) as nat, |i: int| false)
}

pub proof fn lemma_byte_bits_push(w: Seq<u8>, b: u8)
    ensures byte_bits(w.push(b)) =~= byte_bits(w) + lsb(b as u64, 8),
{
    let l = byte_bits(w.push(b));
    let r = byte_bits(w) + lsb(b as u64, 8);
    assert(l.len() == r.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        if i < 8 * w.len() {
            assert(i / 8 < w.len());
        } else {
            assert(i / 8 == w.len());
            assert(i % 8 == i - 8 * w.len());
        }
    }
}

pub proof fn lemma_byte_bits_add(a: Seq<u8>, b: Seq<u8>)
    ensures byte_bits(a + b) =~= byte_bits(a) + byte_bits(b),
{
    let l = byte_bits(a + b);
    let r = byte_bits(a) + byte_bits(b);
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        if i < 8 * a.len() {
            assert(i / 8 < a.len());
        } else {
            assert(i / 8 >= a.len());
            assert((i - 8 * a.len()) / 8 == i / 8 - a.len());
            assert((i - 8 * a.len()) % 8 == i % 8);
        }
    }
}

pub proof fn lemma_bit_or(acc: u64, v: u64, b: u64, i: u64)
    requires b < 48, v <= 0xffff, i < 64, acc >> b == 0,
    ensures
        i < b ==> ((acc | (v << b)) >> i) & 1 == (acc >> i) & 1,
        i >= b ==> ((acc | (v << b)) >> i) & 1 == (v >> ((i - b) as u64)) & 1,
{
    assert(i < b && b < 48 ==> ((acc | (v << b)) >> i) & 1 == (acc >> i) & 1) by (bit_vector);
    assert(i >= b && i < 64 && b < 48 && v <= 0xffff && acc >> b == 0 ==> ((acc | (v << b)) >> i) & 1 == (v >> ((i - b) as u64)) & 1) by (bit_vector);
}

pub proof fn lemma_lsb_or(acc: u64, v: u64, b: nat, n: nat)
    requires b < 48, n <= 16, v <= 0xffff, v >> (n as u64) == 0, acc >> (b as u64) == 0,
    ensures
        lsb(acc | (v << (b as u64)), b + n) =~= lsb(acc, b) + lsb(v, n),
        b + n < 64 ==> (acc | (v << (b as u64))) >> ((b + n) as u64) == 0,
{
    let a2 = acc | (v << (b as u64));
    assert forall|i: int| 0 <= i < b + n implies lsb(a2, b + n)[i] == (lsb(acc, b) + lsb(v, n))[i] by {
        lemma_bit_or(acc, v, b as u64, i as u64);
    }
    let bb = b as u64;
    let nn = n as u64;
    assert(bb < 48 && nn <= 16 && v <= 0xffff && v >> nn == 0 && acc >> bb == 0 && bb + nn < 64
        ==> (acc | (v << bb)) >> ((bb + nn) as u64) == 0) by (bit_vector);
}

pub proof fn lemma_bit_shr(acc: u64, s: u64, i: u64)
    requires s < 64, i < 64, s + i < 64,
    ensures ((acc >> s) >> i) & 1 == (acc >> ((s + i) as u64)) & 1,
{
    assert(s < 64 && i < 64 && s + i < 64 ==> ((acc >> s) >> i) & 1 == (acc >> ((s + i) as u64)) & 1) by (bit_vector);
}

pub proof fn lemma_bit_byte(acc: u64, i: u64)
    requires i < 8,
    ensures ((acc as u8 as u64) >> i) & 1 == (acc >> i) & 1,
{
    assert(i < 8 ==> ((acc as u8 as u64) >> i) & 1 == (acc >> i) & 1) by (bit_vector);
}

/// Taking k bits off the accumulator.
pub proof fn lemma_lsb_shift(acc: u64, k: nat, n: nat)
    requires k <= n <= 64, k < 64,
    ensures
        lsb(acc, n) =~= lsb(acc, k) + lsb(acc >> (k as u64), (n - k) as nat),
        n < 64 && acc >> (n as u64) == 0 ==> (acc >> (k as u64)) >> ((n - k) as u64) == 0,
{
    assert forall|i: int| 0 <= i < n implies lsb(acc, n)[i] == (lsb(acc, k) + lsb(acc >> (k as u64), (n - k) as nat))[i] by {
        if i >= k {
            lemma_bit_shr(acc, k as u64, (i - k) as u64);
        }
    }
    let kk = k as u64;
    let nn = n as u64;
    assert(kk <= nn && nn < 64 && acc >> nn == 0 ==> (acc >> kk) >> ((nn - kk) as u64) == 0) by (bit_vector);
}

/// One byte taken off the accumulator.
pub proof fn lemma_take_byte(w: Seq<u8>, acc: u64, n: nat)
    requires 8 <= n <= 64,
    ensures byte_bits(w.push(acc as u8)) + lsb(acc >> 8, (n - 8) as nat) =~= byte_bits(w) + lsb(acc, n),
{
    lemma_byte_bits_push(w, acc as u8);
    lemma_lsb_shift(acc, 8, n);
    assert(lsb((acc as u8) as u64, 8) =~= lsb(acc, 8)) by {
        assert forall|i: int| 0 <= i < 8 implies bit((acc as u8) as u64, i) == bit(acc, i) by {
            lemma_bit_byte(acc, i as u64);
        }
    }
}

pub proof fn lemma_lsb_zero(n: nat)
    requires n <= 64,
    ensures lsb(0, n) =~= Seq::new(n, |i: int| false),
{
    assert forall|i: int| 0 <= i < n implies lsb(0, n)[i] == false by {
        let k = i as u64;
        assert(k < 64 ==> (0u64 >> k) & 1 == 0) by (bit_vector);
    }
}

pub proof fn lemma_byte_eq(a: u8, b: u8)
    requires forall|i: int| 0 <= i < 8 ==> #[trigger] bit(a as u64, i) == bit(b as u64, i),
    ensures a == b,
{
    assert(bit(a as u64, 0) == bit(b as u64, 0) && bit(a as u64, 1) == bit(b as u64, 1) && bit(a as u64, 2) == bit(b as u64, 2) && bit(a as u64, 3) == bit(b as u64, 3)
        && bit(a as u64, 4) == bit(b as u64, 4) && bit(a as u64, 5) == bit(b as u64, 5) && bit(a as u64, 6) == bit(b as u64, 6) && bit(a as u64, 7) == bit(b as u64, 7));
    let x = a as u64; let y = b as u64;
    assert(x < 256 && y < 256 && ((x >> 0u64) & 1 == 1) == ((y >> 0u64) & 1 == 1) && ((x >> 1u64) & 1 == 1) == ((y >> 1u64) & 1 == 1)
        && ((x >> 2u64) & 1 == 1) == ((y >> 2u64) & 1 == 1) && ((x >> 3u64) & 1 == 1) == ((y >> 3u64) & 1 == 1)
        && ((x >> 4u64) & 1 == 1) == ((y >> 4u64) & 1 == 1) && ((x >> 5u64) & 1 == 1) == ((y >> 5u64) & 1 == 1)
        && ((x >> 6u64) & 1 == 1) == ((y >> 6u64) & 1 == 1) && ((x >> 7u64) & 1 == 1) == ((y >> 7u64) & 1 == 1) ==> x == y) by (bit_vector);
}

/// Output that starts with the same bits starts with the same bytes.
pub proof fn lemma_byte_prefix(a: Seq<u8>, b: Seq<u8>, x: Seq<bool>, y: Seq<bool>)
    requires a.len() <= b.len(), byte_bits(b) + y == byte_bits(a) + x,
    ensures b.subrange(0, a.len() as int) == a,
{
    assert forall|k: int| 0 <= k < a.len() implies b[k] == a[k] by {
        assert forall|i: int| 0 <= i < 8 implies #[trigger] bit(a[k] as u64, i) == bit(b[k] as u64, i) by {
            let j = 8 * k + i;
            assert(j / 8 == k && j % 8 == i);
            assert((byte_bits(b) + y)[j] == byte_bits(b)[j]);
            assert((byte_bits(a) + x)[j] == byte_bits(a)[j]);
        }
        lemma_byte_eq(a[k], b[k]);
    }
    assert(b.subrange(0, a.len() as int) =~= a);
}

} // verus!
}
