use vstd::prelude::*;
use vstd::slice::*;
use crate::spec::byte;
verus! {

/// Runtime assertion of the source: an obligation here.
pub fn vx_assert(b: bool)
    requires b,
{
}

/// panic-like macro of the source
pub fn vx_unreachable() -> !
    requires false,
{
    vstd::pervasive::unreached()
}

// mutable range indexing, written `&mut x[a .. b]` in the source
pub trait VxMut {
    spec fn vx_seq(&self) -> Seq<u8>;

    fn vx_mut_range(&mut self, a: usize, b: usize) -> (r: &mut [u8])
        requires a <= b <= old(self).vx_seq().len(),
        ensures
            r@ == old(self).vx_seq().subrange(a as int, b as int),
            final(r)@.len() == b - a,
            final(r)@ =~= final(self).vx_seq().subrange(a as int, b as int),
            final(self).vx_seq().len() == old(self).vx_seq().len(),
            forall|i: int| 0 <= i < final(self).vx_seq().len() ==> #[trigger] final(self).vx_seq()[i] ==
                (if a <= i < b { final(r)@[i - a] } else { old(self).vx_seq()[i] });

    fn vx_mut_from(&mut self, a: usize) -> (r: &mut [u8])
        requires a <= old(self).vx_seq().len(),
        ensures
            r@ == old(self).vx_seq().subrange(a as int, old(self).vx_seq().len() as int),
            final(r)@.len() == old(self).vx_seq().len() - a,
            final(self).vx_seq().len() == old(self).vx_seq().len(),
            forall|i: int| 0 <= i < final(self).vx_seq().len() ==> #[trigger] final(self).vx_seq()[i] ==
                (if a <= i { final(r)@[i - a] } else { old(self).vx_seq()[i] });

    fn vx_mut_to(&mut self, b: usize) -> (r: &mut [u8])
        requires b <= old(self).vx_seq().len(),
        ensures
            r@ == old(self).vx_seq().subrange(0, b as int),
            final(r)@.len() == b,
            final(r)@ =~= final(self).vx_seq().subrange(0, b as int),
            final(self).vx_seq().len() == old(self).vx_seq().len(),
            forall|i: int| 0 <= i < final(self).vx_seq().len() ==> #[trigger] final(self).vx_seq()[i] ==
                (if i < b { final(r)@[i] } else { old(self).vx_seq()[i] });
}

impl VxMut for [u8] {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }

    fn vx_mut_range(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { &mut self[a .. b] }

    fn vx_mut_from(&mut self, a: usize) -> (r: &mut [u8]) { &mut self[a ..] }

    fn vx_mut_to(&mut self, b: usize) -> (r: &mut [u8]) { &mut self[.. b] }
}

impl VxMut for Vec<u8> {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }

    fn vx_mut_range(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { &mut self.as_mut_slice()[a .. b] }

    fn vx_mut_from(&mut self, a: usize) -> (r: &mut [u8]) { &mut self.as_mut_slice()[a ..] }

    fn vx_mut_to(&mut self, b: usize) -> (r: &mut [u8]) { &mut self.as_mut_slice()[.. b] }
}

// writing a number behind an offset, `x[a ..].set_u16(v)` in the source
pub trait VxSet: VxMut {
    fn vx_set_u16(&mut self, a: usize, v: u16)
        requires a + 2 <= old(self).vx_seq().len(),
        ensures final(self).vx_seq() == old(self).vx_seq().update(a + 0, byte(v as int, 1)).update(a + 1, byte(v as int, 0));
    fn vx_set_u24(&mut self, a: usize, v: u32)
        requires a + 3 <= old(self).vx_seq().len(),
        ensures final(self).vx_seq() == old(self).vx_seq().update(a + 0, byte(v as int, 2)).update(a + 1, byte(v as int, 1)).update(a + 2, byte(v as int, 0));
    fn vx_set_u32(&mut self, a: usize, v: u32)
        requires a + 4 <= old(self).vx_seq().len(),
        ensures final(self).vx_seq() == old(self).vx_seq().update(a + 0, byte(v as int, 3)).update(a + 1, byte(v as int, 2)).update(a + 2, byte(v as int, 1)).update(a + 3, byte(v as int, 0));
}
impl<T: VxMut + ?Sized> VxSet for T {
    fn vx_set_u16(&mut self, a: usize, v: u16) {
        use crate::bytes::Bytes;
        self.vx_mut_from(a).set_u16(v);
        assert(self.vx_seq() =~= old(self).vx_seq().update(a + 0, byte(v as int, 1)).update(a + 1, byte(v as int, 0)));
    }
    fn vx_set_u24(&mut self, a: usize, v: u32) {
        use crate::bytes::Bytes;
        self.vx_mut_from(a).set_u24(v);
        assert(self.vx_seq() =~= old(self).vx_seq().update(a + 0, byte(v as int, 2)).update(a + 1, byte(v as int, 1)).update(a + 2, byte(v as int, 0)));
    }
    fn vx_set_u32(&mut self, a: usize, v: u32) {
        use crate::bytes::Bytes;
        self.vx_mut_from(a).set_u32(v);
        assert(self.vx_seq() =~= old(self).vx_seq().update(a + 0, byte(v as int, 3)).update(a + 1, byte(v as int, 2)).update(a + 2, byte(v as int, 1)).update(a + 3, byte(v as int, 0)));
    }
}

/// `resize` of a byte vector
pub trait VxResize {
    fn vx_resize(&mut self, n: usize, v: u8);
}

impl VxResize for Vec<u8> {
    fn vx_resize(&mut self, n: usize, v: u8)
        ensures
            final(self)@.len() == n,
            n <= old(self)@.len() ==> final(self)@ == old(self)@.subrange(0, n as int),
            n > old(self)@.len() ==> forall|i: int| 0 <= i < n ==> #[trigger] final(self)@[i] == (if i < old(self)@.len() { old(self)@[i] } else { v }),
    {
        self.resize(n, v);
        proof {
            assert forall|i: int| n > old(self)@.len() && 0 <= i < n implies #[trigger] self@[i] == (if i < old(self)@.len() { old(self)@[i] } else { v }) by {
                if i < old(self)@.len() { assert(self@.subrange(0, old(self)@.len() as int)[i] == self@[i]); }
            }
        }
    }
}

/// `clone` of a vector of pairs
pub fn vx_clone_pairs<A: Clone, B: Clone>(v: &Vec<(A, B)>) -> (r: Vec<(A, B)>)
    ensures
        r@.len() == v@.len(),
        forall|i: int| 0 <= i < v@.len() ==> cloned::<A>(v@[i].0, (#[trigger] r@[i]).0) && cloned::<B>(v@[i].1, r@[i].1),
{
    let mut r: Vec<(A, B)> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant
            i <= v@.len(),
            r@.len() == i,
            forall|k: int| 0 <= k < i ==> cloned::<A>(v@[k].0, (#[trigger] r@[k]).0) && cloned::<B>(v@[k].1, r@[k].1),
        decreases v@.len() - i,
    {
        r.push((v[i].0.clone(), v[i].1.clone()));
        i += 1;
    }
    r
}

pub trait VxMinMax: Sized {
    fn vx_min(self, other: Self) -> (r: Self);
    fn vx_max(self, other: Self) -> (r: Self);
}

impl VxMinMax for usize {
    fn vx_min(self, other: usize) -> (r: usize)
        ensures r == (if self <= other { self } else { other }),
    { if self <= other { self } else { other } }

    fn vx_max(self, other: usize) -> (r: usize)
        ensures r == (if self <= other { other } else { self }),
    { if self <= other { other } else { self } }
}

impl VxMinMax for u32 {
    fn vx_min(self, other: u32) -> (r: u32)
        ensures r == (if self <= other { self } else { other }),
    { if self <= other { self } else { other } }

    fn vx_max(self, other: u32) -> (r: u32)
        ensures r == (if self <= other { other } else { self }),
    { if self <= other { other } else { self } }
}

/// `v.last_mut().unwrap()`
pub fn vx_last_mut<'a, T>(v: &'a mut Vec<T>) -> (r: &'a mut T)
    requires old(v)@.len() > 0,
    ensures *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r)),
{
    let n = v.len();
    &mut v[n - 1]
}

/// `v.first_mut().unwrap()`
pub fn vx_first_mut<'a, T>(v: &'a mut Vec<T>) -> (r: &'a mut T)
    requires old(v)@.len() > 0,
    ensures *r == old(v)@[0], final(v)@ == old(v)@.update(0, *final(r)),
{
    &mut v[0]
}

/// `vec![x]`
pub fn vx_vec1<T>(x: T) -> (r: Vec<T>)
    ensures r@.len() == 1, r@[0] == x,
{
    let mut v: Vec<T> = Vec::new();
    v.push(x);
    v
}

/// `v.last().unwrap()`
pub fn vx_last<T>(v: &Vec<T>) -> (r: &T)
    requires v@.len() > 0,
    ensures *r == v@.last(),
{
    &v[v.len() - 1]
}

/// `v.first().unwrap()`
pub fn vx_first<T>(v: &Vec<T>) -> (r: &T)
    requires v@.len() > 0,
    ensures *r == v@[0],
{
    &v[0]
}

/// `v.drain(a .. b)` used as a statement
pub fn vx_drain(v: &mut Vec<u8>, a: usize, b: usize)
    requires a <= b <= old(v)@.len(),
    ensures
        final(v)@ == old(v)@.subrange(0, a as int) + old(v)@.subrange(b as int, old(v)@.len() as int),
        a == 0 ==> final(v)@ == old(v)@.subrange(b as int, old(v)@.len() as int),
{
    let mut tail = v.split_off(b);
    v.truncate(a);
    v.append(&mut tail);
    assert(v@ =~= old(v)@.subrange(0, a as int) + old(v)@.subrange(b as int, old(v)@.len() as int));
    assert(a == 0 ==> v@ =~= old(v)@.subrange(b as int, old(v)@.len() as int));
}

/// `==` of slices
pub fn vx_same(a: &[u8], b: &[u8]) -> (r: bool)
    ensures
        r == (a@ == b@),
        !r && a@.len() == b@.len() ==> exists|i: int| 0 <= i < a@.len() && #[trigger] a@[i] != b@[i],
{
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j],
        decreases a@.len() - i,
    {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    assert(a@ =~= b@);
    true
}

/// `Vec::from(slice)`
pub fn vx_vec_from(s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@,
{
    let mut r: Vec<u8> = Vec::new();
    r.extend_from_slice(s);
    assert(r@ =~= s@);
    r
}

/// `s.chars()` collected
pub fn vx_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == s@,
{
    use vstd::string::StrSliceExecFns;
    let n = s.unicode_len();
    let mut r: Vec<char> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == s@.len(), r@ =~= s@.subrange(0, i as int),
        decreases n - i,
    {
        r.push(s.get_char(i));
        i += 1;
    }
    r
}

/// `char::from_u32_unchecked(v)`
#[verifier::external_body]
pub fn vx_char(v: u32) -> (r: char)
    requires v < 0xD800 || 0xE000 <= v < 0x110000,
    ensures r == v as char,
{
    char::from_u32(v).unwrap()
}

pub uninterp spec fn utf8_lossy(s: Seq<u8>) -> Seq<char>;

/// `String::from_utf8_lossy(bytes)`
#[verifier::external_body]
pub fn vx_utf8_lossy(s: &[u8]) -> (r: String)
    ensures
        r@ == utf8_lossy(s@),
        vstd::utf8::valid_utf8(s@) ==> r@ == vstd::utf8::decode_utf8(s@),
{
    String::from_utf8_lossy(s).into_owned()
}

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);

// readers

/// the elements added are whatever the memory holds
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::set_len ](v: &mut Vec<T, A>, n: usize)
    ensures final(v)@.len() == n;

pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::into_boxed_slice ](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;

pub assume_specification<T>[ <[T] as AsRef<[T]>>::as_ref ](s: &[T]) -> (r: &[T])
    ensures r@ == s@;

} // verus!

/// stands for std::fmt: a sink of characters that may fail
pub mod fmt {
use vstd::prelude::*;
verus! {

pub struct Error;
pub type Result = core::result::Result<(), Error>;

#[verifier::external_body]
pub struct Formatter { x: u8 }

impl Formatter {
    pub uninterp spec fn view(&self) -> Seq<char>;
    /// the sink reported an error
    pub uninterp spec fn failed(&self) -> bool;

    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result)
        ensures
            r is Ok ==> final(self)@ == old(self)@.push(c),
            r is Err ==> final(self).failed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result)
        ensures
            r is Ok ==> final(self)@ == old(self)@ + s@,
            r is Err ==> final(self).failed(),
    { unimplemented!() }
}

pub trait Display {
    spec fn fmt_pre(&self) -> bool;
    fn fmt(&self, f: &mut Formatter) -> Result
        requires self.fmt_pre();
}

} // verus!
}
