use vstd::prelude::*;
verus! {
// The rich header of a PE image, for every file: where it is, its key and its entries.
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }

// ---- the types that C02 and C03 decide; the layout of an entry is an obligation of C18 ----
#[derive(Clone, Copy)]
pub struct LE;
pub trait Num: Sized { spec fn bytes(self) -> Seq<u8>; spec fn width() -> nat; }
#[derive(Clone, Copy)]
pub struct U32<E> { pub b: [u8; 4], pub e: E }
impl Num for U32<LE> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 4 } }
impl U32<LE> {
    #[verifier::external_body] fn get(&self, e: LE) -> (r: u32) ensures r as nat == le(self.b@) { unimplemented!() }
    #[verifier::external_body] fn new(e: LE, n: u32) -> (r: Self) ensures r == word(n) { unimplemented!() }
}
/// The bytes of a number.
pub uninterp spec fn word(n: u32) -> U32<LE>;
#[verifier::external_body]
proof fn word_is(n: u32) ensures le(word(n).b@) == n {}
#[verifier::external_body]
proof fn of_word(x: U32<LE>) ensures word(le(x.b@) as u32) == x, le(x.b@) <= u32::MAX {}
pub struct MaskedRichHeaderEntry { pub masked_comp_id: U32<LE>, pub masked_count: U32<LE> }
impl Num for MaskedRichHeaderEntry {
    open spec fn bytes(self) -> Seq<u8> { self.masked_comp_id.b@ + self.masked_count.b@ }
    open spec fn width() -> nat { 8 }
}
pub open spec fn are<T: Num>(r: Seq<T>, b: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).bytes() == b.subrange(i * T::width() as int, (i + 1) * T::width() as int)
}
#[derive(Clone, Copy)]
pub struct Bytes<'data>(pub &'data [u8]);
impl<'data> Bytes<'data> {
    #[verifier::external_body]
    fn read_at<T: Num>(&self, offset: usize) -> (r: Result<&'data T, ()>)
        ensures r.is_ok() == (offset + T::width() <= self.0@.len()), r.is_ok() ==> r.unwrap().bytes() == self.0@.subrange(offset as int, offset + T::width())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_slice_at<T: Num>(&self, offset: usize, count: usize) -> (r: Result<&'data [T], ()>)
        ensures r.is_ok() == (offset + count * T::width() <= self.0@.len()),
            r.is_ok() ==> r.unwrap()@.len() == count && are(r.unwrap()@, self.0@.subrange(offset as int, offset + count * T::width()))
    { unimplemented!() }
}
pub trait ReadRef<'data>: Copy {
    spec fn bytes(self) -> Seq<u8>;
    fn read_bytes_at(self, offset: u64, size: u64) -> (r: Result<&'data [u8], ()>)
        ensures r.is_ok() == (size == 0 || offset + size <= self.bytes().len()),
            r.is_ok() && size > 0 ==> r.unwrap()@ == self.bytes().subrange(offset as int, offset + size),
            r.is_ok() ==> r.unwrap()@.len() == size && size <= isize::MAX;
}
trait Shims<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn ok_shim(self) -> (r: Option<T>) ensures r == self.good();
}
impl<T> Shims<T> for Result<T, ()> {
    closed spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn ok_shim(self) -> (r: Option<T>) { match self { Ok(v) => Some(v), Err(_) => None } }
}
trait AsBytes<'data>: Sized {
    spec fn whole(self) -> Option<Seq<u8>>;
    fn map_bytes(self) -> (r: Result<Bytes<'data>, ()>) ensures r.is_ok() == self.whole().is_some(), r.is_ok() ==> r.unwrap().0@ == self.whole().unwrap();
}
impl<'data> AsBytes<'data> for Result<&'data [u8], ()> {
    closed spec fn whole(self) -> Option<Seq<u8>> { match self { Ok(v) => Some(v@), Err(_) => None } }
    fn map_bytes(self) -> (r: Result<Bytes<'data>, ()>) { match self { Ok(v) => Ok(Bytes(v)), Err(e) => Err(e) } }
}
#[verifier::external_body]
fn bytes_of_slice<'a>(s: &'a [U32<LE>; 4]) -> (r: &'a [u8]) ensures r@ == s@[0].b@ + s@[1].b@ + s@[2].b@ + s@[3].b@, r@.len() == 16 { unimplemented!() }
#[verifier::external_body]
fn marker<'a>() -> (r: &'a [u8]) ensures r@ == rich() { b"Rich" }
#[verifier::external_body]
fn from<'a>(s: &'a [u8], i: usize) -> (r: Option<&'a [u8]>) ensures r.is_some() == (i <= s@.len()), r.is_some() ==> r.unwrap()@ == s@.skip(i as int) { s.get(i..) }
#[verifier::external_body]
fn upto<'a>(s: &'a [u8], i: usize) -> (r: Option<&'a [u8]>) ensures r.is_some() == (i <= s@.len()), r.is_some() ==> r.unwrap()@ == s@.take(i as int) { s.get(..i) }
#[verifier::external_body]
fn same(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
fn entry_size() -> (r: usize) ensures r == 8 { 8 }
global size_of usize == 8;

// ---- the header ----
pub open spec fn rich() -> Seq<u8> { seq![0x52u8, 0x69, 0x63, 0x68] }
/// The first of the offsets `i`, `i + k`, `i + 2 k`, ... where `n` is.
pub open spec fn find(d: Seq<u8>, n: Seq<u8>, k: int, i: int) -> Option<int>
    decreases d.len() + k - i
{
    if k <= 0 || i < 0 || n.len() == 0 || i + n.len() > d.len() { None } else if d.subrange(i, i + n.len()) == n { Some(i) } else { find(d, n, k, i + k) }
}
/// The start marker for the key in `k`.
pub open spec fn start(k: Seq<u8>) -> Seq<u8> { word((0x536e_6144u32 ^ le(k) as u32)).b@ + k + k + k }
pub open spec fn is_header<'data>(d: Seq<u8>, r: Option<RichHeaderInfo<'data>>) -> bool {
    match find(d, rich(), 4, 0) {
        None => r.is_none(),
        Some(e) => {
            let k = d.subrange(e + 4, e + 8);
            if e + 8 > d.len() { r.is_none() } else { match find(d.take(e), start(k), 4, 0) {
                None => r.is_none(),
                Some(s) => r.is_some() && ({ let h = r.unwrap();
                    &&& h.offset == s && h.length == e - s + 8 && h.xor_key as nat == le(k)
                    &&& h.masked_entries@.len() == (e - s - 16) / 8
                    &&& are(h.masked_entries@, d.subrange(s + 16, s + 16 + h.masked_entries@.len() * 8)) }),
            } }
        }
    }
}
pub proof fn found(d: Seq<u8>, n: Seq<u8>, k: int, i: int)
    ensures find(d, n, k, i).is_some() ==> 0 <= find(d, n, k, i).unwrap() && find(d, n, k, i).unwrap() + n.len() <= d.len(),
    decreases d.len() + k - i
{ if !(k <= 0 || i < 0 || n.len() == 0 || i + n.len() > d.len()) { found(d, n, k, i + k); } }

// ---- /repo ----
pub struct RichHeaderInfo<'data> { pub offset: usize, pub length: usize, pub xor_key: u32, pub masked_entries: &'data [MaskedRichHeaderEntry] }
impl<'data> RichHeaderInfo<'data> {
//@FN file=read/pe/rich.rs name=parse in=RichHeaderInfo
//@SUBST .map(Bytes) ==> .map_bytes()
//@SUBST .ok()? ==> .ok_shim()?
//@SUBST b"Rich" ==> marker()
//@SUBST mem::size_of::<pe::MaskedRichHeaderEntry>() ==> entry_size()
//@SUBST &data.0[..end_marker_offset] ==> upto(data.0, end_marker_offset)?
//@START proof { let d = if nt_header_offset == 0 { Seq::<u8>::empty() } else { data.bytes().take(nt_header_offset as int) };
        found(d, rich(), 4, 0);
        if nt_header_offset > 0 && nt_header_offset <= data.bytes().len() { assert(data.bytes().subrange(0, nt_header_offset as int) =~= d); }
        assert forall|x: U32<LE>| true implies word(#[trigger] le(x.b@) as u32) == x && le(x.b@) <= u32::MAX by { of_word(x); }
        assert(0x536e_6144u32 ^ 0 == 0x536e_6144u32) by (bit_vector);
    }
//@SPEC ensures ({ let n = data.bytes().len(); let d = if nt_header_offset == 0 { Seq::<u8>::empty() } else { data.bytes().take(nt_header_offset as int) };
        if nt_header_offset > n { r.is_none() } else { is_header(d, r) } }),
//@END
}
//@FN file=read/pe/rich.rs name=memmem
//@SUBST let mut offset = 0; ==> let mut offset: usize = 0;
//@SUBST data.get(offset..)?.get(..needle.len())? == needle ==> same(upto(from(data, offset)?, needle.len())?, needle)
//@LOOP 0 invariant 0 < align <= 4096, needle@.len() > 0, data@.len() <= isize::MAX, offset <= data@.len() + align,
    find(data@, needle@, align as int, 0) == find(data@, needle@, align as int, offset as int),
    decreases data@.len() + align - offset,
//@BODY 0 proof { if offset + needle@.len() <= data@.len() { assert(data@.skip(offset as int).take(needle@.len() as int) =~= data@.subrange(offset as int, offset + needle@.len())); } }
//@SPEC requires 0 < align <= 4096, needle@.len() > 0, data@.len() <= isize::MAX,
    ensures r.is_some() == find(data@, needle@, align as int, 0).is_some(), r.is_some() ==> r.unwrap() as int == find(data@, needle@, align as int, 0).unwrap(),
    r.is_some() ==> r.unwrap() + needle@.len() <= data@.len(),
//@END
}
fn main() {}
