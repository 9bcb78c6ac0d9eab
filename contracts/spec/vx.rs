pub mod vx {
#[allow(unused_imports)] use vstd::prelude::*;
verus! {
/// What the assertion macros and panic!() become: reaching it is an obligation that fails.
#[verifier::external_body]
pub fn panic() -> !
    requires false,
{ panic!() }

pub assume_specification<T, const N: usize> [<[T; N] as core::convert::AsMut<[T]>>::as_mut] (a: &mut [T; N]) -> (r: &mut [T])
    ensures r@ == old(a)@, final(a)@ == final(r)@;

pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;

pub assume_specification [u16::max_value] () -> (r: u16) ensures r == 65535;

/// Byte conversions of the standard library (calls are renamed by the extraction).
pub trait BytesU16: Sized { fn vx_to_le_bytes(self) -> [u8; 2]; }
pub trait BytesU32: Sized { fn vx_to_le_bytes(self) -> [u8; 4]; fn vx_to_be_bytes(self) -> [u8; 4]; }
impl BytesU16 for u16 {
    fn vx_to_le_bytes(self) -> (r: [u8; 2]) ensures r@ == crate::rfc::le16(self)
    { let r = [self as u8, (self >> 8) as u8]; assert(r@ =~= crate::rfc::le16(self)); r }
}
impl BytesU32 for u32 {
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ == crate::rfc::le32(self)
    { let r = [self as u8, (self >> 8) as u8, (self >> 16) as u8, (self >> 24) as u8]; assert(r@ =~= crate::rfc::le32(self)); r }
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == crate::rfc::be32(self)
    { let r = [(self >> 24) as u8, (self >> 16) as u8, (self >> 8) as u8, self as u8]; assert(r@ =~= crate::rfc::be32(self)); r }
}

/// Rust language guarantee: no object is larger than isize::MAX bytes.
/// core's reflexive `impl<T> From<T> for T`
#[verifier::external_body]
pub proof fn axiom_from_u8()
    ensures <u8 as vstd::std_specs::convert::FromSpec<u8>>::obeys_from_spec(), forall|x: u8| #[trigger] <u8 as vstd::std_specs::convert::FromSpec<u8>>::from_spec(x) == x,
{ unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_slice_len(s: &[u8])
    ensures s@.len() <= isize::MAX,
{ unimplemented!() }

/// `Box::default()`
pub fn box_default<T: Default>() -> (r: Box<T>)
    ensures call_ensures(T::default, (), *r),
{ Box::new(T::default()) }

/// `a[a0..a1] == b[b0..b1]`
pub fn range_eq(a: &[u8], a0: usize, a1: usize, b: &[u8], b0: usize, b1: usize) -> (r: bool)
    requires a0 <= a1 <= a@.len(), b0 <= b1 <= b@.len(),
    ensures r == (a@.subrange(a0 as int, a1 as int) == b@.subrange(b0 as int, b1 as int)),
{
    if a1 - a0 != b1 - b0 {
        assert(a@.subrange(a0 as int, a1 as int).len() != b@.subrange(b0 as int, b1 as int).len());
        return false;
    }
    let ghost x = a@.subrange(a0 as int, a1 as int);
    let ghost y = b@.subrange(b0 as int, b1 as int);
    for i in 0..a1 - a0
        invariant a0 <= a1 <= a@.len(), b0 <= b1 <= b@.len(), a1 - a0 == b1 - b0,
            x == a@.subrange(a0 as int, a1 as int), y == b@.subrange(b0 as int, b1 as int),
            forall|k: int| 0 <= k < i ==> x[k] == y[k],
    {
        if a[a0 + i] != b[b0 + i] {
            assert(x[i as int] != y[i as int]);
            return false;
        }
        assert(x[i as int] == y[i as int]);
    }
    assert(x =~= y);
    true
}

/// `a[p..].iter().zip(a[q..].iter()).take(max).take_while(|&(&a, &b)| a == b).count()`
pub fn match_count(a: &[u8], p: usize, q: usize, max: usize) -> (r: usize)
    requires p <= a@.len(), q <= a@.len(),
    ensures
        r <= max, p + r <= a@.len(), q + r <= a@.len(),
        forall|i: int| 0 <= i < r ==> #[trigger] a@[p + i] == a@[q + i],
        r < max && p + r < a@.len() && q + r < a@.len() ==> a@[p + r] != a@[q + r],
{
    let mut n: usize = 0;
    while n < max && n < a.len() - p && n < a.len() - q
        invariant n <= max, p + n <= a@.len(), q + n <= a@.len(),
            forall|i: int| 0 <= i < n ==> #[trigger] a@[p + i] == a@[q + i],
        decreases max - n,
    {
        if a[p + n] != a[q + n] { return n; }
        n = n + 1;
    }
    n
}

/// `slice.iter().enumerate()` / `(start..).zip(slice.iter())`: positions and references, from the front.
pub struct EnumIter<'a> { pub s: &'a [u8], pub n: usize, pub start: usize }
impl<'a> EnumIter<'a> {
    pub open spec fn ok(&self) -> bool { self.n <= self.s@.len() && self.start + self.s@.len() <= usize::MAX }
    pub fn new(s: &'a [u8]) -> (r: EnumIter<'a>)
        ensures r.s == s, r.n == 0, r.start == 0,
    { EnumIter { s, n: 0, start: 0 } }
    pub fn from(start: usize, s: &'a [u8]) -> (r: EnumIter<'a>)
        ensures r.s == s, r.n == 0, r.start == start,
    { EnumIter { s, n: 0, start } }
    pub fn next(&mut self) -> (r: Option<(usize, &'a u8)>)
        requires old(self).n <= old(self).s@.len(), old(self).start + old(self).s@.len() <= usize::MAX,
        ensures
            final(self).s == old(self).s, final(self).start == old(self).start,
            match r {
                Some((i, b)) => old(self).n < old(self).s@.len() && final(self).n == old(self).n + 1 && i == old(self).start + old(self).n
                    && *b == old(self).s@[old(self).n as int],
                None => old(self).n == old(self).s@.len() && final(self).n == old(self).n,
            },
    {
        if self.n < self.s.len() {
            let i = self.n;
            self.n = i + 1;
            Some((self.start + i, &self.s[i]))
        } else { None }
    }
    /// skips `k` elements and returns the next
    pub fn nth(&mut self, k: usize) -> (r: Option<(usize, &'a u8)>)
        requires old(self).n <= old(self).s@.len(), old(self).start + old(self).s@.len() <= usize::MAX,
        ensures
            final(self).s == old(self).s, final(self).start == old(self).start,
            final(self).n == if old(self).n + k + 1 <= old(self).s@.len() { old(self).n + k + 1 } else { old(self).s@.len() as int },
    {
        if k >= self.s.len() - self.n { self.n = self.s.len(); return None; }
        self.n = self.n + k;
        self.next()
    }
}
/// `slice.iter()`
pub struct ByteIter<'a> { pub s: &'a [u8], pub n: usize }
impl<'a> ByteIter<'a> {
    pub fn new(s: &'a [u8]) -> (r: ByteIter<'a>)
        ensures r.s == s, r.n == 0,
    { ByteIter { s, n: 0 } }
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        requires old(self).n <= old(self).s@.len(),
        ensures
            final(self).s == old(self).s,
            match r {
                Some(b) => old(self).n < old(self).s@.len() && final(self).n == old(self).n + 1 && *b == old(self).s@[old(self).n as int],
                None => old(self).n == old(self).s@.len() && final(self).n == old(self).n,
            },
    {
        if self.n < self.s.len() {
            let i = self.n;
            self.n = i + 1;
            Some(&self.s[i])
        } else { None }
    }
}

/// `s.chunks(k).peekable()`
pub struct Chunks<'a> { pub s: &'a [u8], pub k: usize }
impl<'a> Chunks<'a> {
    pub fn new(s: &'a [u8], k: usize) -> (r: Chunks<'a>)
        requires k > 0,
        ensures r.s == s, r.k == k,
    { Chunks { s, k } }
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).k > 0,
        ensures
            final(self).k == old(self).k,
            match r {
                Some(c) => {
                    let n = if old(self).k <= old(self).s@.len() { old(self).k as int } else { old(self).s@.len() as int };
                    &&& old(self).s@.len() > 0 && c@ == old(self).s@.subrange(0, n)
                    &&& final(self).s@ == old(self).s@.subrange(n, old(self).s@.len() as int)
                }
                None => old(self).s@.len() == 0 && final(self).s == old(self).s,
            },
    {
        if self.s.len() == 0 { return None; }
        let n = if self.k <= self.s.len() { self.k } else { self.s.len() };
        let c = vstd::slice::slice_subrange(self.s, 0, n);
        self.s = vstd::slice::slice_subrange(self.s, n, self.s.len());
        Some(c)
    }
    /// only used to see whether there is another chunk
    pub fn peek(&self) -> (r: Option<&'a [u8]>)
        ensures r is None == (self.s@.len() == 0),
    { if self.s.len() == 0 { None } else { Some(self.s) } }
}

pub open spec fn has(p: Seq<int>, j: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
/// the order allows a before b
pub open spec fn before<T, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool {
    exists|o: core::cmp::Ordering| o != core::cmp::Ordering::Greater && #[trigger] f.ensures((&a, &b), o)
}
/// `v.sort_by(f)`: assumed contract of the standard library's sort (a permutation, in order).
#[verifier::external_body]
pub fn sort_by<T, F: Fn(&T, &T) -> core::cmp::Ordering>(v: &mut Vec<T>, f: F) -> (p: Ghost<Seq<int>>)
    requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
    ensures
        final(v)@.len() == old(v)@.len(), p@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < p@.len() ==> 0 <= #[trigger] p@[i] < p@.len(),
        forall|i: int| 0 <= i < p@.len() ==> #[trigger] final(v)@[i] == old(v)@[p@[i]],
        forall|i: int, j: int| 0 <= i < j < p@.len() ==> #[trigger] p@[i] != #[trigger] p@[j],
        forall|j: int| 0 <= j < p@.len() ==> #[trigger] has(p@, j),
        forall|i: int, j: int| 0 <= i < j < p@.len() ==> before(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ v.sort_by(f); Ghost::assume_new() }

/// `a.iter().chain(b)`, with the adaptors the crate applies to it
pub struct Chain2<'a> { pub a: &'a [u8], pub b: &'a [u8], pub n: usize }
impl<'a> Chain2<'a> {
    /// the elements of the chain
    pub open spec fn all(&self) -> Seq<u8> { self.a@ + self.b@ }
    pub open spec fn wf(&self) -> bool { self.n <= self.all().len() <= usize::MAX }
    pub fn new(a: &'a [u8], b: &'a [u8]) -> (r: Chain2<'a>)
        ensures r.a == a, r.b == b, r.n == 0, r.wf(),
    { proof { crate::vx::axiom_slice_len(a); crate::vx::axiom_slice_len(b); } Chain2 { a, b, n: 0 } }
    pub fn clone(&self) -> (r: Chain2<'a>) ensures r == *self { Chain2 { a: self.a, b: self.b, n: self.n } }
    pub fn enumerate(self) -> (r: Chain2<'a>) ensures r == self { self }
    pub fn peekable(self) -> (r: Chain2<'a>) ensures r == self { self }
    /// only of a chain nothing has been taken from
    pub fn skip(self, k: usize) -> (r: Chain2<'a>)
        requires self.wf(), self.n == 0,
        ensures r.all() == self.all(), r.wf(), r.n == if k <= self.all().len() { k as int } else { self.all().len() as int },
    {
        let m = self.a.len() + self.b.len();
        Chain2 { a: self.a, b: self.b, n: if k <= m { k } else { m } }
    }
    pub fn take(self, k: usize) -> (r: Vec<&'a u8>)
        requires self.wf(),
        ensures
            r@.len() == if self.n + k <= self.all().len() { k as int } else { self.all().len() - self.n },
            forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.all()[self.n + i],
    {
        let mut it = self;
        let mut r: Vec<&'a u8> = Vec::new();
        while r.len() < k
            invariant_except_break
                it.n == self.n + r@.len(),
            invariant
                it.wf(), it.all() == self.all(), r@.len() <= k, self.wf(),
                forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.all()[self.n + i],
            ensures r@.len() == if self.n + k <= self.all().len() { k as int } else { self.all().len() - self.n },
            decreases k - r@.len(),
        {
            match it.next() { Some(x) => { r.push(x.1); } None => { break; } }
        }
        r
    }
    pub fn next(&mut self) -> (r: Option<(usize, &'a u8)>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).a == old(self).a, final(self).b == old(self).b,
            match r {
                Some((i, b)) => old(self).n < old(self).all().len() && final(self).n == old(self).n + 1 && i == old(self).n
                    && *b == old(self).all()[old(self).n as int],
                None => old(self).n == old(self).all().len() && final(self).n == old(self).n,
            },
    {
        let r = self.peek();
        if r.is_some() { self.n = self.n + 1; }
        r
    }
    pub fn peek(&self) -> (r: Option<(usize, &'a u8)>)
        requires self.wf(),
        ensures
            match r {
                Some((i, b)) => self.n < self.all().len() && i == self.n && *b == self.all()[self.n as int],
                None => self.n == self.all().len(),
            },
    {
        let i = self.n;
        if i < self.a.len() { Some((i, &self.a[i])) } else if i - self.a.len() < self.b.len() { Some((i, &self.b[i - self.a.len()])) } else { None }
    }
}

/// `*s.iter().max().unwrap()`
pub fn slice_max(s: &[u8]) -> (r: u8)
    requires s@.len() > 0,
    ensures exists|i: int| 0 <= i < s@.len() && s@[i] == r, forall|i: int| 0 <= i < s@.len() ==> s@[i] <= r,
{
    let mut m = s[0];
    for i in 1..s.len()
        invariant exists|k: int| 0 <= k < i && s@[k] == m, forall|k: int| 0 <= k < i ==> s@[k] <= m, s@.len() > 0,
    {
        if s[i] > m { m = s[i]; }
    }
    m
}
}
/// Assumed contract of the adler32 crate (dependency).
pub mod adler32 {
#[allow(unused_imports)] use vstd::prelude::*;
use crate::rfc::*;
verus! {
#[verifier::external_body]
pub struct RollingAdler32 { a: u32 }
impl RollingAdler32 {
    /// the bytes given so far
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: RollingAdler32) ensures r.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, byte: u8) ensures final(self).data() == old(self).data().push(byte) { unimplemented!() }
    #[verifier::external_body]
    pub fn update_buffer(&mut self, buffer: &[u8]) ensures final(self).data() == old(self).data() + buffer@ { unimplemented!() }
    #[verifier::external_body]
    pub fn hash(&self) -> (r: u32) ensures r == adler(self.data()) { unimplemented!() }
}
} // verus!
}
/// Assumed contract of the gzip_header crate (dependency).
pub mod gzip_header {
#[allow(unused_imports)] use vstd::prelude::*;
use crate::rfc::*;
verus! {
#[verifier::external_body]
pub struct Crc { a: u32 }
impl Crc {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Crc) ensures r.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn sum(&self) -> (r: u32) ensures r == crc(self.data()) { unimplemented!() }
    #[verifier::external_body]
    pub fn amt_as_u32(&self) -> (r: u32) ensures r == (self.data().len() % 0x1_0000_0000) as u32 { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, data: &[u8]) ensures final(self).data() == old(self).data() + data@ { unimplemented!() }
}
#[verifier::external_body]
pub struct GzBuilder { a: u32 }
impl GzBuilder {
    /// the header bytes the builder describes
    pub uninterp spec fn header(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: GzBuilder) ensures r.header() == crate::vx::gzip_header::blank() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_header(self) -> (r: Vec<u8>) ensures r@ == self.header() { unimplemented!() }
}
pub uninterp spec fn blank() -> Seq<u8>;
} // verus!
}
/// std::thread: only what destructors ask.
pub mod thread {
#[allow(unused_imports)] use vstd::prelude::*;
verus! {
pub uninterp spec fn unwinding() -> bool;
#[verifier::external_body]
pub fn panicking() -> (r: bool) ensures r == unwinding() { unimplemented!() }
} // verus!
}
pub mod io {
#[allow(unused_imports)] use vstd::prelude::*;
verus! {

#[derive(Clone, Copy, Debug)]
pub enum ErrorKind { Interrupted, WriteZero, InvalidInput, Other }

#[derive(Debug)]
pub struct Error { pub k: ErrorKind }

impl Error {
    pub fn new(kind: ErrorKind, _msg: &str) -> (r: Error)
        ensures r.k == kind,
    { Error { k: kind } }
    pub fn kind(&self) -> (r: ErrorKind)
        ensures r == self.k,
    { self.k }
}

pub type Result<T> = core::result::Result<T, Error>;

/// Assumed contract of std::io::Write: exactly the reported number of bytes is taken, from the
/// start of the buffer; nothing is taken when an error is reported; a writer does not report
/// `Interrupted` for ever.
pub trait Write: Sized {
    /// all bytes taken so far
    spec fn sink(&self) -> Seq<u8>;
    spec fn ok(&self) -> bool;
    /// true only of writers that always take everything
    spec fn sure(&self) -> bool;
    /// how many more times it will report `Interrupted`
    spec fn fuel(&self) -> nat;
    /// `b` is `a` after some calls (for a mutable reference: it borrows the same writer)
    #[verifier::prophetic]
    spec fn same(a: Self, b: Self) -> bool;
    proof fn same_refl(a: Self)
        ensures Self::same(a, a);
    proof fn same_trans(a: Self, b: Self, c: Self)
        requires Self::same(a, b), Self::same(b, c),
        ensures Self::same(a, c);

    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
        requires (*old(self)).ok(),
        ensures
            (*final(self)).ok(), Self::same(*old(self), *final(self)), (*final(self)).fuel() <= (*old(self)).fuel(),
            (*old(self)).sure() ==> (*final(self)).sure() && r == Ok::<usize, Error>(buf@.len() as usize),
            match r {
                Ok(n) => n <= buf@.len() && (*final(self)).sink() == (*old(self)).sink() + buf@.subrange(0, n as int),
                Err(e) => (*final(self)).sink() == (*old(self)).sink() && (e.k is Interrupted ==> (*final(self)).fuel() < (*old(self)).fuel()),
            };

    fn flush(&mut self) -> (r: Result<()>)
        requires (*old(self)).ok(),
        ensures (*final(self)).ok(), (*final(self)).sink() == (*old(self)).sink(), Self::same(*old(self), *final(self));
}

/// The provided method of std::io::Write (same loop as in the standard library).
pub trait WriteExt: Write {
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
        requires (*old(self)).ok(),
        ensures
            (*final(self)).ok(), Self::same(*old(self), *final(self)), (*final(self)).fuel() <= (*old(self)).fuel(),
            (*old(self)).sure() ==> (*final(self)).sure() && r is Ok,
            match r {
                Ok(_) => (*final(self)).sink() == (*old(self)).sink() + buf@,
                Err(_) => buf@.len() > 0 && exists|n: int| 0 <= n <= buf@.len() && (*final(self)).sink() == (*old(self)).sink() + #[trigger] buf@.subrange(0, n),
            };
}

impl<W: Write> WriteExt for W {
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
    {
        let mut done: usize = 0;
        assert(buf@.subrange(0, 0) =~= Seq::<u8>::empty());
        proof { Self::same_refl(*self); }
        while done < buf.len()
            invariant done <= buf@.len(), (*self).ok(), (*old(self)).sure() ==> (*self).sure(), (*self).sink() =~= (*old(self)).sink() + buf@.subrange(0, done as int),
                Self::same(*old(self), *self), (*self).fuel() <= (*old(self)).fuel(),
            decreases (*self).fuel(), buf@.len() - done,
        {
            let rest = vstd::slice::slice_subrange(buf, done, buf.len());
            let ghost before = *self;
            let r = self.write(rest);
            proof { Self::same_trans(*old(self), before, *self); }
            match r {
                Ok(n) => {
                    if n == 0 {
                        return Err(Error::new(ErrorKind::WriteZero, "failed to write whole buffer"));
                    }
                    assert(buf@.subrange(0, done + n) =~= buf@.subrange(0, done as int) + rest@.subrange(0, n as int));
                    done = done + n;
                }
                Err(e) => {
                    match e.kind() { ErrorKind::Interrupted => {} _ => { return Err(e); } }
                }
            }
        }
        assert(buf@.subrange(0, done as int) =~= buf@);
        Ok(())
    }
}

/// std's writer for vectors: takes everything.
impl Write for Vec<u8> {
    open spec fn sink(&self) -> Seq<u8> { self@ }
    open spec fn ok(&self) -> bool { true }
    open spec fn sure(&self) -> bool { true }
    open spec fn fuel(&self) -> nat { 0 }
    #[verifier::prophetic]
    open spec fn same(a: Self, b: Self) -> bool { true }
    proof fn same_refl(a: Self) {}
    proof fn same_trans(a: Self, b: Self, c: Self) {}
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) {
        self.extend_from_slice(buf);
        assert(buf@.subrange(0, buf@.len() as int) =~= buf@);
        Ok(buf.len())
    }
    fn flush(&mut self) -> (r: Result<()>) { Ok(()) }
}
/// std's writer for references: hands over to the writer it refers to.
impl<'a, W: Write> Write for &'a mut W {
    open spec fn sink(&self) -> Seq<u8> { (**self).sink() }
    open spec fn ok(&self) -> bool { (**self).ok() }
    open spec fn sure(&self) -> bool { (**self).sure() }
    open spec fn fuel(&self) -> nat { (**self).fuel() }
    #[verifier::prophetic]
    open spec fn same(a: Self, b: Self) -> bool { W::same(*a, *b) && *final(a) == *final(b) }
    proof fn same_refl(a: Self) { W::same_refl(*a); }
    proof fn same_trans(a: Self, b: Self, c: Self) { W::same_trans(*a, *b, *c); }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { (**self).write(buf) }
    fn flush(&mut self) -> (r: Result<()>) { (**self).flush() }
}

} // verus!
}
}
