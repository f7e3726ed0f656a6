use vstd::prelude::*;
verus! {
// Chained fixups of a Mach-O image: which locations the chains visit, for every table and segment.
#[derive(Debug)]
pub struct Error(pub &'static str);
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub trait ReadError<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn read_error(self, e: &'static str) -> (r: Result<T>) ensures r.is_ok() == self.good().is_some(), r.is_ok() ==> r.unwrap() == self.good().unwrap();
}
impl<T> ReadError<T> for Result<T, ()> {
    open spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(Error("")) } }
}
impl<T> ReadError<T> for Option<T> {
    open spec fn good(self) -> Option<T> { self }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Some(v) => Ok(v), None => Err(Error("")) } }
}
// ---- the types that C02 and C03 decide ----
pub trait Endian: Sized + Copy { spec fn big(self) -> bool; }
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s.last() as nat + 256 * be(s.drop_last()) } }
pub open spec fn num(s: Seq<u8>, big: bool) -> nat { if big { be(s) } else { le(s) } }
pub trait Pod: Sized { spec fn bytes(self) -> Seq<u8>; spec fn width() -> nat; }
pub struct U16<E> { pub b: [u8; 2], pub e: core::marker::PhantomData<E> }
pub struct U32<E> { pub b: [u8; 4], pub e: core::marker::PhantomData<E> }
pub struct U64<E> { pub b: [u8; 8], pub e: core::marker::PhantomData<E> }
impl<E: Endian> Pod for U16<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 2 } }
impl<E: Endian> Pod for U32<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 4 } }
impl<E: Endian> Pod for U64<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 8 } }
impl<E: Endian> U16<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: u16) ensures r as nat == num(self.b@, e.big()) { unimplemented!() } }
impl<E: Endian> U32<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: u32) ensures r as nat == num(self.b@, e.big()) { unimplemented!() } }
impl<E: Endian> U64<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: u64) ensures r as nat == num(self.b@, e.big()) { unimplemented!() } }
pub open spec fn are<T: Pod>(r: Seq<T>, b: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).bytes() == b.subrange(i * T::width() as int, (i + 1) * T::width() as int)
}
#[derive(Clone, Copy)]
pub struct Bytes<'data>(pub &'data [u8]);
impl<'data> Bytes<'data> {
    #[verifier::external_body]
    fn skip(&mut self, offset: usize) -> (r: Result<(), ()>)
        ensures r.is_ok() == (offset <= old(self).0@.len()), r.is_ok() ==> final(self).0@ == old(self).0@.skip(offset as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn read<T: Pod>(&mut self) -> (r: Result<&'data T, ()>)
        ensures r.is_ok() == (old(self).0@.len() >= T::width()),
            r.is_ok() ==> r.unwrap().bytes() == old(self).0@.take(T::width() as int) && final(self).0@ == old(self).0@.skip(T::width() as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_at<T: Pod>(&self, offset: usize) -> (r: Result<&'data T, ()>)
        ensures r.is_ok() == (offset + T::width() <= self.0@.len()),
            r.is_ok() ==> r.unwrap().bytes() == self.0@.subrange(offset as int, offset + T::width())
    { unimplemented!() }
    #[verifier::external_body]
    fn read_slice<T: Pod>(&mut self, count: usize) -> (r: Result<&'data [T], ()>)
        ensures r.is_ok() == (old(self).0@.len() >= count * T::width()),
            r.is_ok() ==> r.unwrap()@.len() == count && are(r.unwrap()@, old(self).0@.take((count * T::width()) as int)) && final(self).0@ == old(self).0@.skip((count * T::width()) as int)
    { unimplemented!() }
}
pub fn into_u64(a: u16) -> (r: u64) ensures r == a { a as u64 }
pub fn from_u32(a: u32) -> (r: u64) ensures r == a { a as u64 }
pub fn into_usize(a: u16) -> (r: usize) ensures r == a { a as usize }
fn at_index<T>(s: &[T], i: usize) -> (r: Option<&T>) ensures r.is_some() == (i < s@.len()), r.is_some() ==> *r.unwrap() == s@[i as int] { if i < s.len() { Some(&s[i]) } else { None } }
global size_of usize == 8;

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct DyldChainedPtrFormat(pub u16);
//@CONSTS file=macho.rs like=DYLD_CHAINED_PTR_.*
// ---- what a pointer says: the fields are decided by C19's and C22's accessor harnesses ----
/// `n` bits from bit `lo` on.
#[verifier::opaque]
pub open spec fn bits(v: u64, lo: u64, n: u64) -> u64 { (v >> lo) & sub(1u64 << n, 1) }
pub open spec fn signed19(v: u64) -> int { if v >= 0x4_0000 { v - 0x8_0000 } else { v as int } }
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64e(pub u64);
impl DyldChainedPtrArm64e {
    #[verifier::external_body] fn next(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 51, 11), r < 2048 { unimplemented!() }
    #[verifier::external_body] fn is_bind(self) -> (r: bool) ensures r == (bits(self.0 as u64, 62, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn is_auth(self) -> (r: bool) ensures r == (bits(self.0 as u64, 63, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn rebase(self) -> (r: DyldChainedPtrArm64eRebase) ensures r.0 == self.0 { unimplemented!() }
    #[verifier::external_body] fn auth_rebase(self) -> (r: DyldChainedPtrArm64eAuthRebase) ensures r.0 == self.0 { unimplemented!() }
    #[verifier::external_body] fn bind(self) -> (r: DyldChainedPtrArm64eBind) ensures r.0 == self.0 { unimplemented!() }
    #[verifier::external_body] fn auth_bind(self) -> (r: DyldChainedPtrArm64eAuthBind) ensures r.0 == self.0 { unimplemented!() }
    #[verifier::external_body] fn bind24(self) -> (r: DyldChainedPtrArm64eBind24) ensures r.0 == self.0 { unimplemented!() }
    #[verifier::external_body] fn auth_bind24(self) -> (r: DyldChainedPtrArm64eAuthBind24) ensures r.0 == self.0 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eRebase(pub u64);
impl DyldChainedPtrArm64eRebase {
    #[verifier::external_body] fn target(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 0, 43) { unimplemented!() }
    #[verifier::external_body] fn high8(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 43, 8), r < 256 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eAuthRebase(pub u64);
impl DyldChainedPtrArm64eAuthRebase {
    #[verifier::external_body] fn runtime_offset(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 0, 32) { unimplemented!() }
    #[verifier::external_body] fn diversity(self) -> (r: u16) ensures r as u64 == bits(self.0 as u64, 32, 16), r < 65536 { unimplemented!() }
    #[verifier::external_body] fn addr_div(self) -> (r: bool) ensures r == (bits(self.0 as u64, 48, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn key(self) -> (r: u8) ensures r as u64 == bits(self.0 as u64, 49, 2), r < 4 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eBind(pub u64);
impl DyldChainedPtrArm64eBind {
    #[verifier::external_body] fn ordinal(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 16), r < 65536 { unimplemented!() }
    #[verifier::external_body] fn addend(self) -> (r: i32) ensures r as int == signed19(bits(self.0, 32, 19)) { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eAuthBind(pub u64);
impl DyldChainedPtrArm64eAuthBind {
    #[verifier::external_body] fn ordinal(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 16), r < 65536 { unimplemented!() }
    #[verifier::external_body] fn diversity(self) -> (r: u16) ensures r as u64 == bits(self.0 as u64, 32, 16), r < 65536 { unimplemented!() }
    #[verifier::external_body] fn addr_div(self) -> (r: bool) ensures r == (bits(self.0 as u64, 48, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn key(self) -> (r: u8) ensures r as u64 == bits(self.0 as u64, 49, 2), r < 4 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eBind24(pub u64);
impl DyldChainedPtrArm64eBind24 {
    #[verifier::external_body] fn ordinal(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 24), r < 16777216 { unimplemented!() }
    #[verifier::external_body] fn addend(self) -> (r: i32) ensures r as int == signed19(bits(self.0, 32, 19)) { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eAuthBind24(pub u64);
impl DyldChainedPtrArm64eAuthBind24 {
    #[verifier::external_body] fn ordinal(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 24), r < 16777216 { unimplemented!() }
    #[verifier::external_body] fn diversity(self) -> (r: u16) ensures r as u64 == bits(self.0 as u64, 32, 16), r < 65536 { unimplemented!() }
    #[verifier::external_body] fn addr_div(self) -> (r: bool) ensures r == (bits(self.0 as u64, 48, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn key(self) -> (r: u8) ensures r as u64 == bits(self.0 as u64, 49, 2), r < 4 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eSegmentedRebase(pub u64);
impl DyldChainedPtrArm64eSegmentedRebase {
    #[verifier::external_body] fn next(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 51, 12), r < 4096 { unimplemented!() }
    #[verifier::external_body] fn is_auth(self) -> (r: bool) ensures r == (bits(self.0 as u64, 63, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn target_seg_offset(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 0, 28), r < 268435456 { unimplemented!() }
    #[verifier::external_body] fn target_seg_index(self) -> (r: u8) ensures r as u64 == bits(self.0 as u64, 28, 4), r < 16 { unimplemented!() }
    #[verifier::external_body] fn diversity(self) -> (r: u16) ensures r as u64 == bits(self.0 as u64, 32, 16), r < 65536 { unimplemented!() }
    #[verifier::external_body] fn addr_div(self) -> (r: bool) ensures r == (bits(self.0 as u64, 48, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn key(self) -> (r: u8) ensures r as u64 == bits(self.0 as u64, 49, 2), r < 4 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr64(pub u64);
impl DyldChainedPtr64 {
    #[verifier::external_body] fn next(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 51, 12), r < 4096 { unimplemented!() }
    #[verifier::external_body] fn is_bind(self) -> (r: bool) ensures r == (bits(self.0 as u64, 63, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn bind(self) -> (r: DyldChainedPtr64Bind) ensures r.0 == self.0 { unimplemented!() }
    #[verifier::external_body] fn rebase(self) -> (r: DyldChainedPtr64Rebase) ensures r.0 == self.0 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr64Rebase(pub u64);
impl DyldChainedPtr64Rebase {
    #[verifier::external_body] fn target(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 0, 36) { unimplemented!() }
    #[verifier::external_body] fn high8(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 36, 8), r < 256 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr64Bind(pub u64);
impl DyldChainedPtr64Bind {
    #[verifier::external_body] fn ordinal(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 24), r < 16777216 { unimplemented!() }
    #[verifier::external_body] fn addend(self) -> (r: i32) ensures r as int == bits(self.0 as u64, 24, 8) as int, r < 256 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr64KernelCacheRebase(pub u64);
impl DyldChainedPtr64KernelCacheRebase {
    #[verifier::external_body] fn next(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 51, 12), r < 4096 { unimplemented!() }
    #[verifier::external_body] fn is_auth(self) -> (r: bool) ensures r == (bits(self.0 as u64, 63, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn target(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 0, 30), r < 1073741824 { unimplemented!() }
    #[verifier::external_body] fn cache_level(self) -> (r: u8) ensures r as u64 == bits(self.0 as u64, 30, 2), r < 4 { unimplemented!() }
    #[verifier::external_body] fn diversity(self) -> (r: u16) ensures r as u64 == bits(self.0 as u64, 32, 16), r < 65536 { unimplemented!() }
    #[verifier::external_body] fn addr_div(self) -> (r: bool) ensures r == (bits(self.0 as u64, 48, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn key(self) -> (r: u8) ensures r as u64 == bits(self.0 as u64, 49, 2), r < 4 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr32(pub u32);
impl DyldChainedPtr32 {
    #[verifier::external_body] fn next(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 26, 5), r < 32 { unimplemented!() }
    #[verifier::external_body] fn is_bind(self) -> (r: bool) ensures r == (bits(self.0 as u64, 31, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn bind(self) -> (r: DyldChainedPtr32Bind) ensures r.0 == self.0 { unimplemented!() }
    #[verifier::external_body] fn rebase(self) -> (r: DyldChainedPtr32Rebase) ensures r.0 == self.0 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr32Rebase(pub u32);
impl DyldChainedPtr32Rebase {
    #[verifier::external_body] fn target(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 26), r < 67108864 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr32Bind(pub u32);
impl DyldChainedPtr32Bind {
    #[verifier::external_body] fn ordinal(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 20), r < 1048576 { unimplemented!() }
    #[verifier::external_body] fn addend(self) -> (r: i32) ensures r as int == bits(self.0 as u64, 20, 6) as int, r < 64 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr32CacheRebase(pub u32);
impl DyldChainedPtr32CacheRebase {
    #[verifier::external_body] fn target(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 30), r < 1073741824 { unimplemented!() }
    #[verifier::external_body] fn next(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 30, 2), r < 4 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtr32FirmwareRebase(pub u32);
impl DyldChainedPtr32FirmwareRebase {
    #[verifier::external_body] fn target(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 0, 26), r < 67108864 { unimplemented!() }
    #[verifier::external_body] fn next(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 26, 6), r < 64 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eSharedCache(pub u64);
impl DyldChainedPtrArm64eSharedCache {
    #[verifier::external_body] fn next(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 52, 11), r < 2048 { unimplemented!() }
    #[verifier::external_body] fn is_auth(self) -> (r: bool) ensures r == (bits(self.0 as u64, 63, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn rebase(self) -> (r: DyldChainedPtrArm64eSharedCacheRebase) ensures r.0 == self.0 { unimplemented!() }
    #[verifier::external_body] fn auth_rebase(self) -> (r: DyldChainedPtrArm64eSharedCacheAuthRebase) ensures r.0 == self.0 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eSharedCacheRebase(pub u64);
impl DyldChainedPtrArm64eSharedCacheRebase {
    #[verifier::external_body] fn runtime_offset(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 0, 34) { unimplemented!() }
    #[verifier::external_body] fn high8(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 34, 8), r < 256 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DyldChainedPtrArm64eSharedCacheAuthRebase(pub u64);
impl DyldChainedPtrArm64eSharedCacheAuthRebase {
    #[verifier::external_body] fn runtime_offset(self) -> (r: u64) ensures r as u64 == bits(self.0 as u64, 0, 34) { unimplemented!() }
    #[verifier::external_body] fn diversity(self) -> (r: u16) ensures r as u64 == bits(self.0 as u64, 34, 16), r < 65536 { unimplemented!() }
    #[verifier::external_body] fn addr_div(self) -> (r: bool) ensures r == (bits(self.0 as u64, 50, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn key_is_data(self) -> (r: bool) ensures r == (bits(self.0 as u64, 51, 1) == 1) { unimplemented!() }
}
#[derive(Clone, Copy)]
//@ITEM file=macho.rs name=PtrauthKey
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/fixup.rs name=FixupAuth
//@SUBST macho:: ==> 
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/fixup.rs name=FixupRebase
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/fixup.rs name=FixupBind
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/fixup.rs name=FixupKernelCacheRebase
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/fixup.rs name=FixupSegmentedRebase
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/fixup.rs name=Fixup
//@END
pub open spec fn key(v: u64) -> PtrauthKey { if v == 1 { PtrauthKey::IB } else if v == 2 { PtrauthKey::DA } else if v == 3 { PtrauthKey::DB } else { PtrauthKey::IA } }
pub open spec fn auth(v: u64) -> Option<FixupAuth> { Some(FixupAuth { key: key(bits(v, 49, 2)), diversity: bits(v, 32, 16) as u16, addr_div: bits(v, 48, 1) == 1 }) }
pub open spec fn signed(v: u64) -> Option<FixupAuth> { if bits(v, 63, 1) == 1 { auth(v) } else { None } }
/// The distance of a target address to the load address.
pub open spec fn dist(t: u64, va: u64) -> u64 { if t >= va { (t - va) as u64 } else { (t + 0x1_0000_0000_0000_0000 - va) as u64 } }
pub open spec fn arm64e(v: u64, va: u64, ord: u64) -> Fixup {
    if bits(v, 62, 1) == 1 {
        if bits(v, 63, 1) == 1 { Fixup::Bind(FixupBind { ordinal: bits(v, 0, ord) as u32, addend: 0, auth: auth(v) }) }
        else { Fixup::Bind(FixupBind { ordinal: bits(v, 0, ord) as u32, addend: signed19(bits(v, 32, 19)) as i32, auth: None }) }
    } else if bits(v, 63, 1) == 1 { Fixup::Rebase(FixupRebase { target_offset: bits(v, 0, 32), auth: auth(v) }) }
    else { Fixup::Rebase(FixupRebase { target_offset: dist(bits(v, 0, 43), va) | bits(v, 43, 8) << 56, auth: None }) }
}
pub open spec fn ptr64(v: u64, va: u64) -> Fixup {
    if bits(v, 63, 1) == 1 { Fixup::Bind(FixupBind { ordinal: bits(v, 0, 24) as u32, addend: bits(v, 24, 8) as i32, auth: None }) }
    else { Fixup::Rebase(FixupRebase { target_offset: dist(bits(v, 0, 36), va) | bits(v, 36, 8) << 56, auth: None }) }
}
pub open spec fn kernel(v: u64) -> Fixup { Fixup::KernelCacheRebase(FixupKernelCacheRebase { target_offset: bits(v, 0, 30), cache_level: bits(v, 30, 2) as u8, auth: signed(v) }) }
pub open spec fn ptr32(v: u64, va: u64) -> Fixup {
    if bits(v, 31, 1) == 1 { Fixup::Bind(FixupBind { ordinal: bits(v, 0, 20) as u32, addend: bits(v, 20, 6) as i32, auth: None }) }
    else { Fixup::Rebase(FixupRebase { target_offset: dist(bits(v, 0, 26), va), auth: None }) }
}
pub open spec fn shared(v: u64) -> Fixup {
    if bits(v, 63, 1) == 1 { Fixup::Rebase(FixupRebase { target_offset: bits(v, 0, 34), auth: Some(FixupAuth { key: if bits(v, 51, 1) == 1 { PtrauthKey::DA } else { PtrauthKey::IA }, diversity: bits(v, 34, 16) as u16, addr_div: bits(v, 50, 1) == 1 }) }) }
    else { Fixup::Rebase(FixupRebase { target_offset: bits(v, 0, 34) | bits(v, 34, 8) << 56, auth: None }) }
}
/// The distance to the next location and the fixup.
#[verifier::opaque]
pub open spec fn pointer(format: u16, value: nat, vmaddr: u64) -> Option<(nat, Fixup)> {
    let v = value as u64;
    let w = value as u32 as u64;
    if format == 1 { Some((bits(v, 51, 11) as nat * 8, arm64e(v, vmaddr, 16))) }
    else if format == 7 { Some((bits(v, 51, 11) as nat * 4, arm64e(v, 0, 16))) }
    else if format == 9 { Some((bits(v, 51, 11) as nat * 8, arm64e(v, 0, 16))) }
    else if format == 10 { Some((bits(v, 51, 11) as nat * 4, arm64e(v, vmaddr, 16))) }
    else if format == 12 { Some((bits(v, 51, 11) as nat * 8, arm64e(v, 0, 24))) }
    else if format == 2 { Some((bits(v, 51, 12) as nat * 4, ptr64(v, vmaddr))) }
    else if format == 6 { Some((bits(v, 51, 12) as nat * 4, ptr64(v, 0))) }
    else if format == 8 { Some((bits(v, 51, 12) as nat * 4, kernel(v))) }
    else if format == 11 { Some((bits(v, 51, 12) as nat, kernel(v))) }
    else if format == 3 { Some((bits(w, 26, 5) as nat * 4, ptr32(w, vmaddr))) }
    else if format == 4 { Some((bits(w, 30, 2) as nat * 4, Fixup::Rebase(FixupRebase { target_offset: bits(w, 0, 30), auth: None }))) }
    else if format == 5 { Some((bits(w, 26, 6) as nat * 4, Fixup::Rebase(FixupRebase { target_offset: bits(w, 0, 26), auth: None }))) }
    else if format == 13 { Some((bits(v, 52, 11) as nat * 8, shared(v))) }
    else if format == 14 { Some((bits(v, 51, 12) as nat * 4, Fixup::SegmentedRebase(FixupSegmentedRebase { target_segment_index: bits(v, 28, 4) as u8, target_segment_offset: bits(v, 0, 28), auth: signed(v) }))) }
    else { None }
}
impl Fixup {
//@FN file=read/macho/fixup.rs name=parse in=impl~Fixup
//@SUBST macho:: ==> 
//@START reveal(pointer);
//@SPEC ensures match pointer(format.0, value as nat, vmaddr) { None => r.is_err(), Some(v) => r.is_ok() && r.unwrap().0 == v.0 && r.unwrap().1 == v.1 && v.0 <= 0x8000 }
//@END
//@FN file=read/macho/fixup.rs name=parse_arm64e in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC requires stride <= 8, ensures r.0 == bits(ptr, 51, 11) * stride, r.0 < 0x4000, r.1 == arm64e(ptr, vmaddr, 16)
//@END
//@FN file=read/macho/fixup.rs name=parse_arm64e_bind in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC requires bits(ptr.0, 62, 1) == 1, ensures r == arm64e(ptr.0, 0, 16)
//@END
//@FN file=read/macho/fixup.rs name=parse_arm64e_rebase in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC requires bits(ptr.0, 62, 1) != 1, ensures r == arm64e(ptr.0, vmaddr, 16), r == arm64e(ptr.0, vmaddr, 24)
//@END
//@FN file=read/macho/fixup.rs name=parse_userland24 in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC ensures r.0 == bits(ptr, 51, 11) * 8, r.0 < 0x4000, r.1 == arm64e(ptr, 0, 24)
//@END
//@FN file=read/macho/fixup.rs name=parse_arm64e_bind24 in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC requires bits(ptr.0, 62, 1) == 1, ensures r == arm64e(ptr.0, 0, 24)
//@END
//@FN file=read/macho/fixup.rs name=parse_64 in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC ensures r.0 == bits(ptr, 51, 12) * 4, r.0 < 0x4000, r.1 == ptr64(ptr, vmaddr)
//@END
//@FN file=read/macho/fixup.rs name=parse_64_kernel_cache in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC requires stride <= 4, ensures r.0 == bits(ptr, 51, 12) * stride, r.0 < 0x4000, r.1 == kernel(ptr)
//@END
//@FN file=read/macho/fixup.rs name=parse_32 in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC ensures r.0 == bits(ptr as u32 as u64, 26, 5) * 4, r.0 < 0x4000, r.1 == ptr32(ptr as u32 as u64, vmaddr)
//@END
//@FN file=read/macho/fixup.rs name=parse_32_cache in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC ensures r.0 == bits(ptr as u32 as u64, 30, 2) * 4, r.0 < 0x4000, r.1 == Fixup::Rebase(FixupRebase { target_offset: bits(ptr as u32 as u64, 0, 30), auth: None })
//@END
//@FN file=read/macho/fixup.rs name=parse_32_firmware in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC ensures r.0 == bits(ptr as u32 as u64, 26, 6) * 4, r.0 < 0x4000, r.1 == Fixup::Rebase(FixupRebase { target_offset: bits(ptr as u32 as u64, 0, 26), auth: None })
//@END
//@FN file=read/macho/fixup.rs name=parse_arm64e_segmented in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC ensures r.0 == bits(ptr, 51, 12) * 4, r.0 < 0x4000, r.1 == Fixup::SegmentedRebase(FixupSegmentedRebase { target_segment_index: bits(ptr, 28, 4) as u8, target_segment_offset: bits(ptr, 0, 28), auth: signed(ptr) })
//@END
//@FN file=read/macho/fixup.rs name=parse_arm64e_shared_cache in=impl~Fixup
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> from_u32(
//@SPEC ensures r.0 == bits(ptr, 52, 11) * 8, r.0 < 0x4000, r.1 == shared(ptr)
//@END
}

// ---- /repo ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ITEM file=read/macho/fixup.rs name=FixupState
//@END
//@ITEM file=read/macho/fixup.rs name=DyldChainedFixupIterator
//@SUBST macho:: ==> 
//@END
// ---- which locations the chains visit ----
/// The tables of a segment.
pub struct Seg { pub big: bool, pub starts: Seq<Seq<u8>>, pub page_size: u16, pub pages: nat, pub data: Seq<u8>, pub format: u16, pub vmaddr: u64 }
/// Where the walk is: before a page, before a further chain of a page, or at a location.
pub enum Pos { Page(nat), Chain(nat, nat), At(nat, nat, Option<nat>) }
pub open spec fn start(s: Seg, i: nat) -> Option<nat> { if i < s.starts.len() { Some(num(s.starts[i as int], s.big)) } else { None } }
/// The next location from a position on: `None` for a damaged table, `Some(None)` at the end.
pub open spec fn seek(s: Seg, p: Pos) -> Option<Option<(nat, nat, Option<nat>)>> decreases (match p { Pos::Page(i) => if i < s.pages { s.pages - i + 1 } else { 1 }, _ => 1 }), (match p { Pos::Page(_) => 1int, _ => 0int }) {
    match p {
        Pos::At(o, page, more) => Some(Some((o, page, more))),
        Pos::Chain(page, c) => match start(s, c) { None => None, Some(v) => {
            let last = v >= 0x8000;
            let off = if last { (v - 0x8000) as nat } else { v };
            Some(Some((page * s.page_size as nat + off, page, if last { None } else { Some(c + 1) })))
        } },
        Pos::Page(i) => if i >= s.pages { Some(None) } else { match start(s, i) {
            None => None,
            Some(v) => if v == 0xffff { seek(s, Pos::Page(i + 1)) }
                else if v >= 0x8000 { seek(s, Pos::Chain(i, (v - 0x8000) as nat)) }
                else { Some(Some((i * s.page_size as nat + v, i, None))) }
        } },
    }
}
pub open spec fn width(format: u16) -> nat { if format == 3 || format == 4 || format == 5 { 4 } else { 8 } }
/// The next fixup from a position on, and the position behind it.
pub open spec fn visit(s: Seg, p: Pos) -> Option<Option<(nat, Fixup, Pos)>> {
    match seek(s, p) { None => None, Some(None) => Some(None), Some(Some((o, page, more))) =>
        if o + width(s.format) > s.data.len() { None } else { match pointer(s.format, num(s.data.subrange(o as int, (o + width(s.format)) as int), s.big), s.vmaddr) {
            None => None,
            Some((next, f)) => Some(Some((o, f,
                if next != 0 { Pos::At(o + next as nat, page, more) }
                else { match more { Some(c) => Pos::Chain(page, c), None => Pos::Page(page + 1) } }))),
        } }
    }
}
pub open spec fn seg<'data, E: Endian>(i: DyldChainedFixupIterator<'data, E>) -> Seg {
    Seg { big: i.endian.big(), starts: Seq::new(i.starts@.len(), |k: int| i.starts@[k].b@), page_size: i.page_size, pages: i.page_count as nat, data: i.segment_data.0@, format: i.pointer_format.0, vmaddr: i.preferred_load_address }
}
pub open spec fn pos<'data, E: Endian>(i: DyldChainedFixupIterator<'data, E>) -> Pos {
    match i.state {
        FixupState::Start => Pos::Page(i.page_index as nat),
        FixupState::Chain => Pos::Chain((i.page_index - 1) as nat, i.chain_index as nat),
        FixupState::Page => Pos::At(i.offset as nat, (i.page_index - 1) as nat, None),
        FixupState::PageChain => Pos::At(i.offset as nat, (i.page_index - 1) as nat, Some(i.chain_index as nat)),
    }
}
/// Pages are counted in 16 bits; the tables fit in memory.
pub open spec fn wf<'data, E: Endian>(i: DyldChainedFixupIterator<'data, E>) -> bool {
    &&& i.page_count <= 0xffff && i.starts@.len() < 0x4000_0000_0000_0000 && i.segment_data.0@.len() < 0x8000_0000_0000_0000
    &&& i.page_index <= i.page_count && i.page_offset <= 0xffff * 0xffff && i.chain_index <= i.starts@.len() + 0x8000
    &&& i.state != FixupState::Start ==> i.page_index > 0 && i.page_offset == (i.page_index - 1) * i.page_size
    &&& i.offset <= 0x8000_0000_0000_0000 + 0x10000
}
proof fn page(i: int, n: int) requires 0 <= i < 0xffff, 0 <= n <= 0xffff ensures 0 <= i * n <= 0xffff * 0xffff { assert(0 <= i * n <= 0xffff * 0xffff) by (nonlinear_arith) requires 0 <= i < 0xffff, 0 <= n <= 0xffff; }
impl<'data, E: Endian> DyldChainedFixupIterator<'data, E> {
//@FN file=read/macho/fixup.rs name=next in=impl<'data,~E:~Endian>~DyldChainedFixupIterator
//@SPEC requires wf(*old(self)),
    ensures wf(*final(self)), seg(*final(self)) == seg(*old(self)),
        match visit(seg(*old(self)), pos(*old(self))) {
            None => r.is_err() && visit(seg(*old(self)), pos(*final(self))) == Some(None::<(nat, Fixup, Pos)>),
            Some(None) => r.is_ok() && r.unwrap().is_none(),
            Some(Some((o, f, p))) => r.is_ok() && r.unwrap().is_some() && r.unwrap().unwrap().0 == o && r.unwrap().unwrap().1 == f && pos(*final(self)) == p,
        },
//@END
//@FN file=read/macho/fixup.rs name=next_inner in=impl<'data,~E:~Endian>~DyldChainedFixupIterator
//@SUBST macho:: ==> 
//@SUBST u64::from(self.page_size) ==> into_u64(self.page_size)
//@SUBST u64::from(page_start) ==> into_u64(page_start)
//@SUBST u64::from(chain_start & !DYLD_CHAINED_PTR_START_LAST) ==> into_u64(chain_start & !DYLD_CHAINED_PTR_START_LAST)
//@SUBST u64::from( ==> from_u32(
//@SUBST usize::from( ==> into_usize(
//@SUBST .starts.get(self.page_index) ==> .starts_at(self.page_index)
//@SUBST .starts.get(self.chain_index) ==> .starts_at(self.chain_index)
//@LOOP 0 invariant
        wf(*self), seg(*self) == seg(*old(self)), self.starts == old(self).starts, self.endian == old(self).endian,
        visit(seg(*self), pos(*self)) == visit(seg(*old(self)), pos(*old(self))),
    decreases self.page_count - self.page_index, (match self.state { FixupState::Start => 2int, FixupState::Chain => 1int, _ => 0int }),
//@BODY 0 assert(!0x8000u16 == 0x7fffu16) by (bit_vector);
    assert(forall|x: u16| (#[trigger] (x & 0x8000u16) != 0) == (x >= 0x8000)) by (bit_vector);
    assert(forall|x: u16| (#[trigger] (x & 0x7fffu16)) == if x >= 0x8000 { x - 0x8000 } else { x as int }) by (bit_vector);
    proof { if self.page_index < self.page_count { page(self.page_index as int, self.page_size as int); } }
//@SPEC requires wf(*old(self)),
    ensures wf(*final(self)), seg(*final(self)) == seg(*old(self)), final(self).page_count == old(self).page_count,
        match visit(seg(*old(self)), pos(*old(self))) {
            None => r.is_err(),
            Some(None) => r.is_ok() && r.unwrap().is_none(),
            Some(Some((o, f, p))) => r.is_ok() && r.unwrap().is_some() && r.unwrap().unwrap().0 == o && r.unwrap().unwrap().1 == f && pos(*final(self)) == p,
        },
//@END
    fn starts_at(&self, i: usize) -> (r: Option<&'data U16<E>>) ensures r.is_some() == (i < self.starts@.len()), r.is_some() ==> *r.unwrap() == self.starts@[i as int] { if i < self.starts.len() { Some(&self.starts[i]) } else { None } }
}
// ---- the tables ----
pub struct Format16<E> { pub b: [u8; 2], pub e: core::marker::PhantomData<E> }
impl<E: Endian> Format16<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: DyldChainedPtrFormat) ensures r.0 as nat == num(self.b@, e.big()) { unimplemented!() } }
//@ITEM file=macho.rs name=DyldChainedStartsInSegment
//@SUBST U16<E, DyldChainedPtrFormat> ==> Format16<E>
//@SUBST <E: Endian> ==> <E>
//@END
impl<E: Endian> Pod for DyldChainedStartsInSegment<E> {
    open spec fn bytes(self) -> Seq<u8> { self.size.b@ + self.page_size.b@ + self.pointer_format.b@ + self.segment_offset.b@ + self.max_valid_pointer.b@ + self.page_count.b@ }
    open spec fn width() -> nat { 22 }
}
//@ITEM file=read/macho/fixup.rs name=DyldChainedSegment
//@SUBST macho:: ==> 
//@END
//@ITEM file=read/macho/fixup.rs name=DyldChainedSegmentIterator
//@SUBST macho:: ==> 
//@END
pub open spec fn raw<E>(t: Seq<U32<E>>) -> Seq<Seq<u8>> { Seq::new(t.len(), |k: int| t[k].b@) }
/// The first segment from `k` on that has fixups; the count of segments when there is none.
pub open spec fn first(s: Seq<Seq<u8>>, k: nat, big: bool) -> nat decreases s.len() - k {
    if k >= s.len() { k } else if num(s[k as int], big) != 0 { k } else { first(s, k + 1, big) }
}
proof fn first_ge(s: Seq<Seq<u8>>, k: nat, big: bool) ensures first(s, k, big) >= k, k <= s.len() ==> first(s, k, big) <= s.len() decreases s.len() - k { if k < s.len() && num(s[k as int], big) == 0 { first_ge(s, k + 1, big); } }
/// The starts of a segment: the header and the bytes of the table behind it.
pub open spec fn starts(d: Seq<u8>, o: nat, big: bool) -> Option<(Seq<u8>, Seq<u8>)> {
    if o + 22 > d.len() { None } else {
        let size = num(d.subrange(o as int, o as int + 4), big);
        if size < 22 { None } else { let n = (size - 22) / 2 * 2; if o + 22 + n > d.len() { None } else { Some((d.subrange(o as int, o as int + 22), d.subrange(o as int + 22, o as int + 22 + n))) } }
    }
}
proof fn split<E: Endian>(h: DyldChainedStartsInSegment<E>) ensures h.size.b@ == h.bytes().subrange(0, 4) { assert(h.size.b@ =~= h.bytes().subrange(0, 4)); }
pub open spec fn offsets<'data, E: Endian>(i: DyldChainedSegmentIterator<'data, E>) -> Seq<Seq<u8>> { raw(i.seg_info_offsets@) }
impl<'data, E: Endian> DyldChainedSegmentIterator<'data, E> {
    fn offsets_at(&self, i: usize) -> (r: Option<&'data U32<E>>) ensures r.is_some() == (i < self.seg_info_offsets@.len()), r.is_some() ==> *r.unwrap() == self.seg_info_offsets@[i as int] { if i < self.seg_info_offsets.len() { Some(&self.seg_info_offsets[i]) } else { None } }
//@FN file=read/macho/fixup.rs name=next in=impl<'data,~E:~Endian>~DyldChainedSegmentIterator
//@SUBST macho:: ==> 
//@SUBST .seg_info_offsets.get(self.index as usize) ==> .offsets_at(self.index as usize)
//@SUBST mem::size_of_val(header) as u32 ==> 22u32
//@SUBST starts_size as usize / 2 ==> half(starts_size)
//@LOOP 0 invariant
        self.seg_info_offsets == old(self).seg_info_offsets, self.data == old(self).data, self.endian == old(self).endian,
        self.seg_info_offsets@.len() < 0xffff_ffff, old(self).index <= self.seg_info_offsets@.len() ==> self.index <= self.seg_info_offsets@.len(),
        old(self).index > self.seg_info_offsets@.len() ==> self.index == old(self).index,
        first(offsets(*self), self.index as nat, self.endian.big()) == first(offsets(*self), old(self).index as nat, self.endian.big()),
    ensures self.index >= self.seg_info_offsets@.len(),
    decreases self.seg_info_offsets@.len() - self.index,
//@BODY 0 proof { let d = self.data.0@;
        assert forall|h: DyldChainedStartsInSegment<E>| true implies #[trigger] h.size.b@ == h.bytes().subrange(0, 4) by { split(h); }
        assert forall|o: int| 0 <= o && o + 22 <= d.len() implies #[trigger] d.skip(o).take(22) == d.subrange(o, o + 22) && d.subrange(o, o + 22).subrange(0, 4) == d.subrange(o, o + 4) by {
            assert(d.skip(o).take(22) =~= d.subrange(o, o + 22)); assert(d.subrange(o, o + 22).subrange(0, 4) =~= d.subrange(o, o + 4)); }
        assert forall|o: int, n: int| 0 <= o && 0 <= n && o + 22 + n <= d.len() implies #[trigger] d.skip(o).skip(22).take(n) == d.subrange(o + 22, o + 22 + n) by {
            assert(d.skip(o).skip(22).take(n) =~= d.subrange(o + 22, o + 22 + n)); }
    }
//@SPEC requires old(self).seg_info_offsets@.len() < 0xffff_ffff,
    ensures ({ let t = offsets(*old(self)); let big = old(self).endian.big(); let i = first(t, old(self).index as nat, big);
        if i >= t.len() { r.is_ok() && r.unwrap().is_none() }
        else { final(self).index == i + 1 && match starts(old(self).data.0@, num(t[i as int], big), big) {
            None => r.is_err(),
            Some((h, s)) => r.is_ok() && r.unwrap().is_some() && r.unwrap().unwrap().index == i && r.unwrap().unwrap().header.bytes() == h && r.unwrap().unwrap().starts@.len() * 2 == s.len() && are(r.unwrap().unwrap().starts@, s),
        } } }),
        final(self).data == old(self).data, final(self).seg_info_offsets == old(self).seg_info_offsets, final(self).endian == old(self).endian,
//@END
}
fn half(a: u32) -> (r: usize) ensures r == a / 2 { (a / 2) as usize }
impl<'data, E: Endian> DyldChainedSegment<'data, E> {
//@FN file=read/macho/fixup.rs name=fixups in=impl<'data,~E:~Endian>~DyldChainedSegment
//@SUBST Bytes(segment_data) ==> Bytes(segment_data)
//@SPEC ensures pos(r) == Pos::Page(0), r.preferred_load_address == preferred_load_address, r.segment_data.0@ == segment_data@, r.endian == endian, r.starts == self.starts,
        r.pointer_format.0 as nat == num(self.header.pointer_format.b@, endian.big()), r.page_size as nat == num(self.header.page_size.b@, endian.big()), r.page_count as nat == num(self.header.page_count.b@, endian.big()),
        self.starts@.len() < 0x4000_0000_0000_0000 && segment_data@.len() < 0x8000_0000_0000_0000 ==> wf(r),
//@END
}
// ---- the header and the imports ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct DyldChainedImportFormat(pub u32);
//@CONSTS file=macho.rs like=DYLD_CHAINED_IMPORT.*
#[derive(Clone, Copy)] pub struct BindDylib(pub i32);
#[derive(Clone, Copy)] pub struct DyldChainedImport32(pub u32);
#[derive(Clone, Copy)] pub struct DyldChainedImport64(pub u64);
impl DyldChainedImport32 {
    #[verifier::external_body] fn dylib(self) -> (r: BindDylib) ensures r.0 as int == library(bits(self.0 as u64, 0, 8) as int, 0x100) { unimplemented!() }
    #[verifier::external_body] fn weak_import(self) -> (r: bool) ensures r == (bits(self.0 as u64, 8, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn name_offset(self) -> (r: u32) ensures r as u64 == bits(self.0 as u64, 9, 23) { unimplemented!() }
}
impl DyldChainedImport64 {
    #[verifier::external_body] fn dylib(self) -> (r: BindDylib) ensures r.0 as int == library(bits(self.0, 0, 16) as int, 0x10000) { unimplemented!() }
    #[verifier::external_body] fn weak_import(self) -> (r: bool) ensures r == (bits(self.0, 16, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn name_offset(self) -> (r: u32) ensures r as u64 == bits(self.0, 32, 32) { unimplemented!() }
}
/// The highest 15 of the ordinals are special, and negative.
pub open spec fn library(l: int, n: int) -> int { if l > n - 16 { l - n } else { l } }
pub struct ImportFormat<E> { pub b: [u8; 4], pub e: core::marker::PhantomData<E> }
pub struct Import32<E> { pub b: [u8; 4], pub e: core::marker::PhantomData<E> }
pub struct Import64<E> { pub b: [u8; 8], pub e: core::marker::PhantomData<E> }
pub struct I32<E> { pub b: [u8; 4], pub e: core::marker::PhantomData<E> }
impl<E: Endian> ImportFormat<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: DyldChainedImportFormat) ensures r.0 as nat == num(self.b@, e.big()) { unimplemented!() } }
impl<E: Endian> Import32<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: DyldChainedImport32) ensures r.0 as nat == num(self.b@, e.big()) { unimplemented!() } }
impl<E: Endian> Import64<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: DyldChainedImport64) ensures r.0 as nat == num(self.b@, e.big()) { unimplemented!() } }
impl<E: Endian> I32<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: i32) ensures r as int == wrap32(num(self.b@, e.big())) { unimplemented!() } }
impl<E: Endian> Pod for Import32<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 4 } }
impl<E: Endian> Pod for Import64<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 8 } }
impl<E: Endian> Pod for I32<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 4 } }
pub open spec fn wrap32(v: nat) -> int { if v >= 0x8000_0000 { v - 0x1_0000_0000 } else { v as int } }
pub open spec fn wrap64(v: nat) -> int { if v >= 0x8000_0000_0000_0000 { v - 0x1_0000_0000_0000_0000 } else { v as int } }
fn from_i32(a: i32) -> (r: i64) ensures r == a { a as i64 }
#[verifier::external_body] fn addend64(a: u64) -> (r: i64) ensures r as int == wrap64(a as nat) { a as i64 }
/// The string up to the first zero byte.
pub open spec fn string(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() { if s.len() == 0 { None } else if s[0] == 0 { Some(Seq::empty()) } else { match string(s.drop_first()) { None => None, Some(t) => Some(seq![s[0]] + t) } } }
impl<'data> Bytes<'data> {
    #[verifier::external_body]
    fn read_string_at(&self, offset: usize) -> (r: Result<&'data [u8], ()>)
        ensures r.is_ok() == (offset <= self.0@.len() && string(self.0@.skip(offset as int)).is_some()), r.is_ok() ==> r.unwrap()@ == string(self.0@.skip(offset as int)).unwrap()
    { unimplemented!() }
}
#[verifier::external_body]
fn tail<'a>(s: &'a [u8], i: usize) -> (r: Option<&'a [u8]>) ensures r.is_some() == (i <= s@.len()), r.is_some() ==> r.unwrap()@ == s@.skip(i as int) { s.get(i..) }
#[derive(Clone, Copy)]
//@ITEM file=read/macho/fixup.rs name=DyldChainedImport
//@SUBST macho:: ==> 
//@END
//@ITEM file=read/macho/fixup.rs name=DyldChainedImportIterator
//@SUBST macho:: ==> 
//@END
//@ITEM file=macho.rs name=DyldChainedFixupsHeader
//@SUBST U32<E, DyldChainedImportFormat> ==> ImportFormat<E>
//@SUBST <E: Endian> ==> <E>
//@END
//@ITEM file=macho.rs name=DyldChainedStartsInImage
//@SUBST <E: Endian> ==> <E>
//@END
//@ITEM file=read/macho/fixup.rs name=DyldChainedFixups
//@SUBST macho:: ==> 
//@END
impl<E: Endian> Pod for DyldChainedFixupsHeader<E> {
    open spec fn bytes(self) -> Seq<u8> { self.fixups_version.b@ + self.starts_offset.b@ + self.imports_offset.b@ + self.symbols_offset.b@ + self.imports_count.b@ + self.imports_format.b@ + self.symbols_format.b@ }
    open spec fn width() -> nat { 28 }
}
impl<E: Endian> Pod for DyldChainedStartsInImage<E> {
    open spec fn bytes(self) -> Seq<u8> { self.seg_count.b@ }
    open spec fn width() -> nat { 4 }
}
/// An import: the library, whether it is weak, the addend, the name, and how long its record is.
pub open spec fn import(format: u32, table: Seq<u8>, names: Seq<u8>, big: bool) -> Option<(int, bool, int, Seq<u8>, nat)> {
    if format == 1 || format == 2 {
        let n: nat = if format == 1 { 4 } else { 8 };
        if table.len() < n { None } else {
            let v = num(table.subrange(0, 4), big) as u64;
            let a = if format == 1 { 0 } else { wrap32(num(table.subrange(4, 8), big)) };
            let o = bits(v, 9, 23);
            if o > names.len() || string(names.skip(o as int)).is_none() { None } else { Some((library(bits(v, 0, 8) as int, 0x100), bits(v, 8, 1) == 1, a, string(names.skip(o as int)).unwrap(), n)) }
        }
    } else if format == 3 {
        if table.len() < 16 { None } else {
            let v = num(table.subrange(0, 8), big) as u64;
            let o = bits(v, 32, 32);
            if o > names.len() || string(names.skip(o as int)).is_none() { None } else { Some((library(bits(v, 0, 16) as int, 0x10000), bits(v, 16, 1) == 1, wrap64(num(table.subrange(8, 16), big)), string(names.skip(o as int)).unwrap(), 16)) }
        }
    } else { None }
}
pub open spec fn is_import<'data>(i: DyldChainedImport<'data>, x: (int, bool, int, Seq<u8>, nat)) -> bool { i.dylib.0 as int == x.0 && i.weak_import == x.1 && i.addend as int == x.2 && i.name@ == x.3 }
impl<'data> DyldChainedImport<'data> {
//@FN file=read/macho/fixup.rs name=parse in=impl<'data>~DyldChainedImport<'data>
//@SUBST macho:: ==> 
//@SUBST U32<E, DyldChainedImport32> ==> Import32<E>
//@SUBST U64<E, DyldChainedImport64> ==> Import64<E>
//@SUBST <E: Endian> ==> <E: Endian + 'data>
//@SUBST i64::from( ==> from_i32(
//@SUBST addend as i64 ==> addend64(addend)
//@START proof { let d = old(imports).0@; assert(d.len() >= 4 ==> d.take(4) == d.subrange(0, 4)); assert(d.len() >= 8 ==> d.take(8) == d.subrange(0, 8));
        assert(d.len() >= 8 ==> d.skip(4).take(4) =~= d.subrange(4, 8) && d.skip(4).skip(4) =~= d.skip(8)); assert(d.len() >= 16 ==> d.skip(8).take(8) =~= d.subrange(8, 16) && d.skip(8).skip(8) =~= d.skip(16)); }
//@SPEC ensures match import(format.0, old(imports).0@, symbols.0@, endian.big()) { None => r.is_err(), Some(x) => r.is_ok() && is_import(r.unwrap(), x) && final(imports).0@ == old(imports).0@.skip(x.4 as int) }
//@END
}
impl<'data, E: Endian + 'data> DyldChainedImportIterator<'data, E> {
//@FN file=read/macho/fixup.rs name=next in=impl<'data,~E:~Endian>~DyldChainedImportIterator
//@SUBST .map(Some) ==> .map_some()
//@SPEC ensures final(self).symbols == old(self).symbols, final(self).format == old(self).format, final(self).endian == old(self).endian,
        if old(self).count == 0 { r.is_ok() && r.unwrap().is_none() && final(self).count == 0 } else { match import(old(self).format.0, old(self).imports.0@, old(self).symbols.0@, old(self).endian.big()) {
            None => r.is_err() && final(self).count == 0,
            Some(x) => r.is_ok() && r.unwrap().is_some() && is_import(r.unwrap().unwrap(), x) && final(self).count == old(self).count - 1 && final(self).imports.0@ == old(self).imports.0@.skip(x.4 as int),
        } },
//@END
}
pub trait MapSome<T>: Sized { spec fn some(self) -> Result<Option<T>>; fn map_some(self) -> (r: Result<Option<T>>) ensures r == self.some(); }
impl<T> MapSome<T> for Result<T> {
    open spec fn some(self) -> Result<Option<T>> { match self { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }
    fn map_some(self) -> (r: Result<Option<T>>) { match self { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }
}
pub open spec fn field(d: Seq<u8>, o: int, big: bool) -> nat { num(d.subrange(o, o + 4), big) }
proof fn header<E: Endian>(h: DyldChainedFixupsHeader<E>, d: Seq<u8>) requires d.len() >= 28, h.bytes() == d.subrange(0, 28)
    ensures h.fixups_version.b@ == d.subrange(0, 4), h.starts_offset.b@ == d.subrange(4, 8), h.imports_offset.b@ == d.subrange(8, 12), h.symbols_offset.b@ == d.subrange(12, 16),
        h.imports_count.b@ == d.subrange(16, 20), h.imports_format.b@ == d.subrange(20, 24), h.symbols_format.b@ == d.subrange(24, 28)
{
    assert(h.fixups_version.b@ =~= h.bytes().subrange(0, 4)); assert(h.starts_offset.b@ =~= h.bytes().subrange(4, 8)); assert(h.imports_offset.b@ =~= h.bytes().subrange(8, 12));
    assert(h.symbols_offset.b@ =~= h.bytes().subrange(12, 16)); assert(h.imports_count.b@ =~= h.bytes().subrange(16, 20)); assert(h.imports_format.b@ =~= h.bytes().subrange(20, 24)); assert(h.symbols_format.b@ =~= h.bytes().subrange(24, 28));
    assert forall|a: int, b: int| 0 <= a <= b <= 28 implies #[trigger] h.bytes().subrange(a, b) == d.subrange(a, b) by { assert(d.subrange(0, 28).subrange(a, b) =~= d.subrange(a, b)); }
}
pub open spec fn parsed<'data, E: Endian>(f: DyldChainedFixups<'data, E>) -> bool { f.data.0@.len() >= 28 && f.header.bytes() == f.data.0@.subrange(0, 28) }
impl<'data, E: Endian> DyldChainedFixups<'data, E> {
//@FN file=read/macho/fixup.rs name=parse in=impl<'data,~E:~Endian>~DyldChainedFixups
//@SUBST macho:: ==> 
//@START proof { assert forall|h: DyldChainedFixupsHeader<E>| data@.len() >= 28 && h.bytes() == data@.subrange(0, 28) implies #[trigger] h.fixups_version.b@ == data@.subrange(0, 4) by { header(h, data@); } }
//@SPEC ensures r.is_ok() == (data@.len() >= 28 && field(data@, 0, endian.big()) == 0), r.is_ok() ==> parsed(r.unwrap()) && r.unwrap().data.0@ == data@
//@END
//@FN file=read/macho/fixup.rs name=imports in=impl<'data,~E:~Endian>~DyldChainedFixups
//@SUBST macho:: ==> 
//@SUBST data .get(self.header.imports_offset.get(endian) as usize..) ==> tail(data, self.header.imports_offset.get(endian) as usize)
//@SUBST data .get(self.header.symbols_offset.get(endian) as usize..) ==> tail(data, self.header.symbols_offset.get(endian) as usize)
//@START proof { header(*self.header, self.data.0@); }
//@SPEC requires parsed(*self),
    ensures ({ let d = self.data.0@; let big = endian.big();
        r.is_ok() == (field(d, 24, big) == 0 && field(d, 8, big) <= d.len() && field(d, 12, big) <= d.len())
        && (r.is_ok() ==> r.unwrap().endian == endian && r.unwrap().imports.0@ == d.skip(field(d, 8, big) as int) && r.unwrap().symbols.0@ == d.skip(field(d, 12, big) as int)
            && r.unwrap().count as nat == field(d, 16, big) && r.unwrap().format.0 as nat == field(d, 20, big)) })
//@END
//@FN file=read/macho/fixup.rs name=segments in=impl<'data,~E:~Endian>~DyldChainedFixups
//@SUBST macho:: ==> 
//@START proof { header(*self.header, self.data.0@); let d = self.data.0@;
        assert forall|o: int| 0 <= o && o + 4 <= d.len() implies #[trigger] d.skip(o).take(4) == d.subrange(o, o + 4) && d.skip(o).skip(4) == d.skip(o + 4) by { assert(d.skip(o).take(4) =~= d.subrange(o, o + 4)); assert(d.skip(o).skip(4) =~= d.skip(o + 4)); }
        assert forall|o: int, n: int| 0 <= o && 0 <= n && o + n <= d.len() implies #[trigger] d.skip(o).take(n) == d.subrange(o, o + n) by { assert(d.skip(o).take(n) =~= d.subrange(o, o + n)); } }
//@SPEC requires parsed(*self),
    ensures ({ let d = self.data.0@; let big = endian.big(); let o = field(d, 4, big) as int; let n = field(d, o, big) as int;
        r.is_ok() == (o + 4 <= d.len() && o + 4 + 4 * n <= d.len())
        && (r.is_ok() ==> r.unwrap().endian == endian && r.unwrap().data.0@ == d.skip(o) && r.unwrap().index == 0 && r.unwrap().seg_info_offsets@.len() == n
            && are(r.unwrap().seg_info_offsets@, d.subrange(o + 4, o + 4 + 4 * n))) })
//@END
}
}
fn main() {}
