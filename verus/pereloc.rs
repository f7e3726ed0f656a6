use vstd::prelude::*;
verus! {
// The base relocations of a PE image, for every table: blocks, and the entries of a block.
#[derive(Debug)]
pub struct Error(pub &'static str);
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }

// ---- the types that C02 and C03 decide; the layout of a block header is an obligation of C18 ----
#[derive(Clone, Copy)]
pub struct LE;
pub trait Num: Sized { spec fn bytes(self) -> Seq<u8>; spec fn width() -> nat; }
pub struct U16<E> { pub b: [u8; 2], pub e: E }
pub struct U32<E> { pub b: [u8; 4], pub e: E }
impl<E> Num for U16<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 2 } }
impl U16<LE> { #[verifier::external_body] fn get(&self, e: LE) -> (r: u16) ensures r as nat == le(self.b@) { unimplemented!() } }
impl U32<LE> { #[verifier::external_body] fn get(&self, e: LE) -> (r: u32) ensures r as nat == le(self.b@) { unimplemented!() } }
pub struct ImageBaseRelocation { pub virtual_address: U32<LE>, pub size_of_block: U32<LE> }
impl Num for ImageBaseRelocation {
    open spec fn bytes(self) -> Seq<u8> { self.virtual_address.b@ + self.size_of_block.b@ }
    open spec fn width() -> nat { 8 }
}
pub struct BaseRelocationType(pub u16);
pub open spec fn are<T: Num>(r: Seq<T>, b: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).bytes() == b.subrange(i * T::width() as int, (i + 1) * T::width() as int)
}
pub struct Bytes<'data>(pub &'data [u8]);
impl<'data> Bytes<'data> {
    #[verifier::external_body]
    fn read<T: Num>(&mut self) -> (r: Result<&'data T, ()>)
        ensures r.is_ok() == (old(self).0@.len() >= T::width()),
            r.is_ok() ==> r.unwrap().bytes() == old(self).0@.take(T::width() as int) && final(self).0@ == old(self).0@.skip(T::width() as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_slice<T: Num>(&mut self, count: usize) -> (r: Result<&'data [T], ()>)
        ensures r.is_ok() == (old(self).0@.len() >= count * T::width()),
            r.is_ok() ==> r.unwrap()@.len() == count && are(r.unwrap()@, old(self).0@.take((count * T::width()) as int)) && final(self).0@ == old(self).0@.skip((count * T::width()) as int)
    { unimplemented!() }
    fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { self.0.len() == 0 }
}
#[verifier::external_body]
fn nothing<'data>() -> (r: Bytes<'data>) ensures r.0@ == Seq::<u8>::empty() { Bytes(&[]) }
pub type Result<T, E = Error> = core::result::Result<T, E>;
trait ReadError<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn read_error(self, e: &'static str) -> (r: Result<T>) ensures r.is_ok() == self.good().is_some(), r.is_ok() ==> r.unwrap() == self.good().unwrap();
}
impl<T> ReadError<T> for Result<T, ()> {
    closed spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(Error("")) } }
}
trait MapSome<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn map_some(self) -> (r: Result<Option<T>>) ensures r.is_ok() == self.good().is_some(), r.is_ok() ==> r.unwrap() == self.good();
}
impl<T> MapSome<T> for Result<T> {
    closed spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn map_some(self) -> (r: Result<Option<T>>) { match self { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }
}
/// `slice::Iter`.
pub struct Iter<'data, T> { pub left: Ghost<Seq<T>>, pub s: &'data [T] }
impl<'data, T> Iter<'data, T> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'data T>)
        ensures r.is_some() == (old(self).left@.len() > 0),
            r.is_some() ==> *r.unwrap() == old(self).left@[0] && final(self).left@ == old(self).left@.skip(1),
            r.is_none() ==> final(self).left@ == old(self).left@
    { unimplemented!() }
}
trait AsIter<'data, T> {
    spec fn all(self) -> Seq<T>;
    fn as_iter(self) -> (r: Iter<'data, T>) ensures r.left@ == self.all();
}
impl<'data, T> AsIter<'data, T> for &'data [T] {
    closed spec fn all(self) -> Seq<T> { self@ }
    fn as_iter(self) -> (r: Iter<'data, T>) { Iter { left: Ghost(self@), s: self } }
}
global size_of usize == 8;

// ---- the table ----
/// The block at the start of `t`.
pub open spec fn block(t: Seq<u8>) -> Option<nat> {
    if t.len() < 8 { None } else { let n = le(t.subrange(4, 8)); if n <= 8 || n % 4 != 0 || n > t.len() { None } else { Some(n) } }
}
pub open spec fn is_block<'data>(b: RelocationIterator<'data>, t: Seq<u8>, n: nat) -> bool {
    &&& b.virtual_address as nat == le(t.take(4)) && b.size as nat == n
    &&& b.relocs.left@.len() == (n - 8) / 2
    &&& are(b.relocs.left@, t.subrange(8, n as int))
}
/// The first entry that is not padding.
pub open spec fn first(s: Seq<U16<LE>>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if le(s[0].b@) != 0 { 0 } else { 1 + first(s.skip(1)) }
}
proof fn first_at(s: Seq<U16<LE>>) ensures 0 <= first(s) <= s.len() decreases s.len()
{ if s.len() > 0 { first_at(s.skip(1)); } }

// ---- /repo ----
pub struct RelocationBlockIterator<'data> { pub data: Bytes<'data> }
pub struct RelocationIterator<'data> { pub virtual_address: u32, pub size: u32, pub relocs: Iter<'data, U16<LE>> }
pub struct Relocation { pub virtual_address: u32, pub typ: BaseRelocationType }
impl<'data> RelocationBlockIterator<'data> {
//@FN file=read/pe/relocation.rs name=next in=impl<'data>~RelocationBlockIterator<
//@SUBST .map(Some) ==> .map_some()
//@SUBST Bytes(&[]) ==> nothing()
//@SPEC ensures ({ let t = old(self).data.0@;
        if t.len() == 0 { r.is_ok() && r.unwrap().is_none() && final(self).data.0@ == t }
        else { match block(t) {
            None => r.is_err() && final(self).data.0@.len() == 0,
            Some(n) => r.is_ok() && r.unwrap().is_some() && is_block(r.unwrap().unwrap(), t, n) && final(self).data.0@ == t.skip(n as int),
        } } }),
//@END
//@FN file=read/pe/relocation.rs name=parse in=impl<'data>~RelocationBlockIterator<
//@SUBST pe:: ==> 
//@SUBST .iter() ==> .as_iter()
//@START assert(forall|x: u32| (#[trigger] (x & 3)) == x % 4) by (bit_vector);
    proof { let t = self.data.0@; if t.len() >= 8 {
        assert forall|h: ImageBaseRelocation| h.bytes() == t.take(8) implies #[trigger] h.virtual_address.b@ == t.take(4) && h.size_of_block.b@ == t.subrange(4, 8) by {
            assert(h.virtual_address.b@ =~= h.bytes().take(4)); assert(h.size_of_block.b@ =~= h.bytes().skip(4));
            assert(t.take(8).take(4) =~= t.take(4)); assert(t.take(8).skip(4) =~= t.subrange(4, 8));
        }
        assert forall|n: int| 8 <= n <= t.len() implies #[trigger] t.skip(8).take(n - 8) == t.subrange(8, n) && t.skip(8).skip(n - 8) == t.skip(n) by {
            assert(t.skip(8).take(n - 8) =~= t.subrange(8, n)); assert(t.skip(8).skip(n - 8) =~= t.skip(n));
        }
    } }
//@SPEC ensures ({ let t = old(self).data.0@; match block(t) {
            None => r.is_err(),
            Some(n) => r.is_ok() && is_block(r.unwrap(), t, n) && final(self).data.0@ == t.skip(n as int),
        } }),
//@END
}
impl<'data> RelocationIterator<'data> {
//@FN file=read/pe/relocation.rs name=next in=Iterator~for~RelocationIterator
//@SUBST pe:: ==> 
//@START proof { first_at(self.relocs.left@); assert(self.relocs.left@.skip(0) =~= self.relocs.left@); }
    assert(forall|x: u16| (#[trigger] (x & 0xfff)) == x % 4096) by (bit_vector);
    assert(forall|x: u16| (#[trigger] (x >> 12)) == x / 4096) by (bit_vector);
//@LOOP 0 invariant
        self.virtual_address == old(self).virtual_address, self.size == old(self).size,
        0 <= first(old(self).relocs.left@) <= old(self).relocs.left@.len(),
        first(old(self).relocs.left@) == old(self).relocs.left@.len() - self.relocs.left@.len() + first(self.relocs.left@),
        self.relocs.left@.len() <= old(self).relocs.left@.len(),
        self.relocs.left@ == old(self).relocs.left@.skip(old(self).relocs.left@.len() - self.relocs.left@.len()),
        forall|x: u16| (#[trigger] (x & 0xfff)) == x % 4096, forall|x: u16| (#[trigger] (x >> 12)) == x / 4096,
    decreases self.relocs.left@.len(),
//@BODY 0 proof { first_at(self.relocs.left@); let s = old(self).relocs.left@; let k = s.len() - self.relocs.left@.len();
        if self.relocs.left@.len() > 0 { assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(self.relocs.left@[0] == s[k]); } }
//@SPEC ensures ({ let s = old(self).relocs.left@; let i = first(s);
        &&& final(self).virtual_address == old(self).virtual_address && final(self).size == old(self).size
        &&& r.is_some() == (i < s.len())
        &&& r.is_some() ==> ({ let x = le(s[i].b@);
            &&& r.unwrap().virtual_address as int == (old(self).virtual_address + x % 4096) % 0x1_0000_0000
            &&& r.unwrap().typ.0 as nat == x / 4096
            &&& final(self).relocs.left@ == s.skip(i + 1) })
        &&& r.is_none() ==> final(self).relocs.left@.len() == 0 }),
//@END
}
}
fn main() {}
