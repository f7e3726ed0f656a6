use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
// Symbols and auxiliary records of COFF and XCOFF tables, for every table: iteration steps over the declared
// auxiliary records (and, in XCOFF, over null symbols), and auxiliary records are those of the symbol.
#[derive(Debug)]
pub struct Error(pub &'static str);
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub mod read { pub use super::Result; }
#[derive(Clone, Copy)]
pub struct SymbolIndex(pub usize);
/// A record that is laid over a table entry; that the fields are those bytes is an obligation of the Kani harnesses.
pub trait Rec: Sized { spec fn of(e: Seq<u8>) -> Self; spec fn fits(e: Seq<u8>) -> bool; }
trait ReadError<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn read_error(self, e: &'static str) -> (r: Result<T>) ensures r.is_ok() == self.good().is_some(), r.is_ok() ==> r.unwrap() == self.good().unwrap();
}
impl<T> ReadError<T> for Option<T> {
    closed spec fn good(self) -> Option<T> { self }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Some(v) => Ok(v), None => Err(Error("")) } }
}
impl<T> ReadError<T> for Result<T, ()> {
    closed spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(Error("")) } }
}
trait ThenRange: Sized {
    spec fn good(self) -> Option<usize>;
    fn then_range(self, n: u8) -> (r: Option<(usize, usize)>)
        ensures r == match self.good() { Some(x) => if x + n <= usize::MAX { Some((x, (x + n) as usize)) } else { None }, None => None };
}
impl ThenRange for Option<usize> {
    closed spec fn good(self) -> Option<usize> { self }
    fn then_range(self, n: u8) -> (r: Option<(usize, usize)>) { match self { Some(x) => match x.checked_add(n as usize) { Some(y) => Some((x, y)), None => None }, None => None } }
}
trait ThenSlice: Sized {
    spec fn good(self) -> Option<(usize, usize)>;
    fn then_slice<'data, T>(self, s: &'data [T]) -> (r: Option<&'data [T]>)
        ensures match self.good() {
            Some((a, b)) => r.is_some() == (a <= b <= s@.len()) && (r.is_some() ==> r.unwrap()@ == s@.subrange(a as int, b as int)),
            None => r.is_none() };
}
impl ThenSlice for Option<(usize, usize)> {
    closed spec fn good(self) -> Option<(usize, usize)> { self }
    #[verifier::external_body]
    fn then_slice<'data, T>(self, s: &'data [T]) -> (r: Option<&'data [T]>) { unimplemented!() }
}
trait ThenAt: Sized {
    spec fn good(self) -> Option<usize>;
    fn then_at<'data, T>(self, s: &'data [T]) -> (r: Option<&'data T>)
        ensures match self.good() {
            Some(a) => r.is_some() == (a < s@.len()) && (r.is_some() ==> *r.unwrap() == s@[a as int]),
            None => r.is_none() };
}
impl ThenAt for Option<usize> {
    closed spec fn good(self) -> Option<usize> { self }
    fn then_at<'data, T>(self, s: &'data [T]) -> (r: Option<&'data T>) { match self { Some(a) => if a < s.len() { Some(&s[a]) } else { None }, None => None } }
}
global size_of usize == 8;
// ---- the file: what C01, C02 and C03 decide ----
/// A word that becomes a `u64`.
pub struct U64T(pub u64);
impl U64T { fn into(self) -> (r: u64) ensures r == self.0 { self.0 } }
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s.last() as nat + 256 * be(s.drop_last()) } }
#[derive(Clone, Copy)]
pub struct LE;
#[derive(Clone, Copy)]
pub struct BE;
pub struct Word { pub b: [u8; 4] }
trait GetWord<E> { spec fn val(&self) -> nat; fn get(&self, e: E) -> (r: u32) ensures r == self.val(); }
impl GetWord<LE> for Word { closed spec fn val(&self) -> nat { le(self.b@) } #[verifier::external_body] fn get(&self, e: LE) -> (r: u32) { unimplemented!() } }
impl GetWord<BE> for Word { closed spec fn val(&self) -> nat { be(self.b@) } #[verifier::external_body] fn get(&self, e: BE) -> (r: u32) { unimplemented!() } }
pub trait ReadRef<'data>: Copy {
    spec fn all(self) -> Seq<u8>;
    fn read_slice<T: Entry>(self, offset: &mut u64, count: usize) -> (r: Result<&'data [T], ()>)
        ensures r.is_ok() == (*old(offset) + count * T::width() <= self.all().len()),
            r.is_ok() ==> r.unwrap()@.len() == count && joined(r.unwrap()@) == self.all().subrange(*old(offset) as int, *old(offset) + count * T::width())
                && *final(offset) == *old(offset) + count * T::width();
    fn read_at_word(self, offset: u64) -> (r: Result<&'data Word, ()>)
        ensures r.is_ok() == (offset + 4 <= self.all().len()), r.is_ok() ==> r.unwrap().b@ == self.all().subrange(offset as int, offset + 4);
}
/// `StringTable` (C13).
pub struct StringTable<R> { pub data: Option<R>, pub start: u64, pub end: u64 }
impl<R> StringTable<R> {
    fn new(data: R, start: u64, end: u64) -> (r: Self) ensures r == (StringTable { data: Some(data), start, end }) { StringTable { data: Some(data), start, end } }
    fn default() -> (r: Self) ensures r.data.is_none() { StringTable { data: None, start: 0, end: 0 } }
}
#[verifier::external_body]
fn none<'data, T>() -> (r: &'data [T]) ensures r@.len() == 0 { &[][..] }
/// The table of `n` entries at `at`, with the strings that follow.
pub open spec fn is_table<R, T: Entry>(d: Seq<u8>, data: R, at: nat, n: nat, len: nat, s: Seq<T>, t: StringTable<R>) -> bool {
    let e = at + n * T::width();
    if at == 0 { s.len() == 0 && t.data.is_none() }
    else { e + 4 <= d.len() && s.len() == n && joined(s) == d.subrange(at as int, e as int) && t == (StringTable { data: Some(data), start: e as u64, end: (e + len) as u64 }) }
}
/// The bytes of the entries one after the other.
pub open spec fn joined<T: Entry>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last().bytes() } }
pub trait Entry: Sized { spec fn bytes(&self) -> Seq<u8>; spec fn width() -> nat; }
/// `pod::bytes_of_slice` (C02).
#[verifier::external_body]
fn bytes_of_slice<'data, T: Entry>(s: &'data [T]) -> (r: &'data [u8]) ensures r@ == joined(s@) { unimplemented!() }
/// `pod::bytes_of` (C02).
#[verifier::external_body]
fn bytes_of<'data, T: Entry>(s: &'data T) -> (r: &'data [u8]) ensures r@ == s.bytes() { unimplemented!() }
pub struct Bytes<'data>(pub &'data [u8]);
impl<'data> Bytes<'data> {
    /// `Bytes::read` (C02).
    #[verifier::external_body]
    fn read<T: Rec>(self) -> (r: Result<&'data T, ()>) ensures r.is_ok() == T::fits(self.0@), r.is_ok() ==> *r.unwrap() == T::of(self.0@) { unimplemented!() }
}
/// The bytes before the first zero byte.
pub open spec fn until(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == 0 { 0 } else { 1 + until(s.skip(1)) } }
proof fn until_is(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|k: int| 0 <= k < i ==> s[k] != 0, i == s.len() || s[i] == 0,
    ensures until(s) == i, decreases i,
{ if i > 0 { assert forall|k: int| 0 <= k < i - 1 implies s.skip(1)[k] != 0 by { assert(s[k + 1] != 0); } until_is(s.skip(1), i - 1); } }
pub mod memchr {
    use vstd::prelude::*;
    /// The memchr crate.
    #[verifier::external_body]
    pub fn memchr(c: u8, s: &[u8]) -> (r: Option<usize>)
        ensures match r {
            Some(i) => i < s@.len() && s@[i as int] == c && (forall|k: int| 0 <= k < i ==> s@[k] != c),
            None => forall|k: int| 0 <= k < s@.len() ==> s@[k] != c }
    { unimplemented!() }
}
#[verifier::external_body]
fn prefix<'data>(s: &'data [u8], n: usize) -> (r: &'data [u8]) requires n <= s@.len(), ensures r@ == s@.take(n as int) { &s[..n] }
trait OkOr<T>: Sized { spec fn good(self) -> Option<T>; fn ok_opt(self) -> (r: Option<T>) ensures r == self.good(); }
impl<T> OkOr<T> for Result<T> {
    closed spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn ok_opt(self) -> (r: Option<T>) { match self { Ok(v) => Some(v), Err(_) => None } }
}
/// The entry `k` after the entry `i`.
pub open spec fn nth<T: Entry, R: Rec>(s: Seq<T>, i: nat, k: nat) -> Option<R> {
    if i + k < s.len() && R::fits(s[(i + k) as int].bytes()) { Some(R::of(s[(i + k) as int].bytes())) } else { None }
}
pub open spec fn ok_or<T>(r: Result<T>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
pub open spec fn okref<'a, T>(r: Result<&'a T>) -> Option<T> { match r { Ok(v) => Some(*v), Err(_) => None } }

// ---- XCOFF ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct AuxType(pub u8);
pub const AUX_FILE: AuxType = AuxType(252);
pub const AUX_CSECT: AuxType = AuxType(251);
pub trait XSymbol: Rec {
    spec fn null(&self) -> bool;
    spec fn aux(&self) -> u8;
    fn is_null(&self) -> (r: bool) ensures r == self.null();
    fn n_numaux(&self) -> (r: u8) ensures r == self.aux();
}
pub trait XAux: Rec {
    spec fn typ(&self) -> Option<AuxType>;
    fn x_auxtype(&self) -> (r: Option<AuxType>) ensures r == self.typ();
}
pub trait XEntry: Entry {}
pub trait FileHeader: Sized {
    spec fn symptr(&self) -> nat; spec fn nsyms(&self) -> nat;
    fn f_symptr(&self) -> (r: U64T) ensures r.0 == self.symptr();
    fn f_nsyms(&self) -> (r: u32) ensures r == self.nsyms();
    type SymbolBytes: Entry; type Symbol: XSymbol; type FileAux: XAux; type CsectAux: XAux; }
pub struct XTable<'data, Xcoff: FileHeader, R> { pub symbols: &'data [Xcoff::SymbolBytes], pub strings: StringTable<R>, pub header: PhantomData<Xcoff> }
pub struct XIter<'data, 'table, Xcoff: FileHeader, R> { pub symbols: &'table XTable<'data, Xcoff, R>, pub index: usize }
/// An auxiliary entry of type `t`; the narrow layout holds no type.
pub open spec fn xaux<T: Entry, R: XAux>(s: Seq<T>, i: nat, k: nat, t: AuxType) -> Option<R> {
    match nth::<T, R>(s, i, k) { Some(x) => if x.typ() == None::<AuxType> || x.typ() == Some(t) { Some(x) } else { None }, None => None }
}
/// The index of the first symbol at or after `i` that is not null, if no entry on the way is missing.
pub open spec fn xnext<T: Entry, R: XSymbol>(s: Seq<T>, i: nat) -> Option<(nat, R)> decreases s.len() - i {
    match nth::<T, R>(s, i, 0) { None => None, Some(x) => if !x.null() { Some((i, x)) } else if i + 1 + x.aux() > s.len() { xnext_end::<R>() } else { xnext(s, i + 1 + x.aux() as nat) } }
}
pub open spec fn xnext_end<R>() -> Option<(nat, R)> { None }
impl<'data, Xcoff: FileHeader, R: ReadRef<'data>> XTable<'data, Xcoff, R> {
    /// A slice of 18-byte entries is no longer than memory.
    #[verifier::external_body]
    proof fn short(self) ensures self.symbols@.len() <= 0x0fff_ffff_ffff_ffff {}
//@FN file=read/xcoff/symbol.rs name=parse in=SymbolTable<'data,~Xcoff,~R>
//@SUBST read_at::<U32<_>>(offset) ==> read_at_word(offset)
//@SUBST (&[][..], StringTable::default()) ==> (none(), StringTable::default())
//@SUBST Ok(SymbolTable { ==> Ok(Self {
//@SPEC ensures ({ let d = data.all(); let at = header.symptr(); let n = header.nsyms(); let e = at + n * Xcoff::SymbolBytes::width();
        let len = be(d.subrange(e as int, e as int + 4));
        &&& r.is_ok() == (at == 0 || (e + 4 <= d.len() && e + len <= u64::MAX))
        &&& r.is_ok() ==> is_table(d, data, at, n, len, r.unwrap().symbols@, r.unwrap().strings) }),
//@END
//@FN file=read/xcoff/symbol.rs name=get in=SymbolTable<'data,~Xcoff,~R>
//@SUBST <T: Pod> ==> <T: Rec>
//@SUBST .and_then(|x| self.symbols.get(x)) ==> .then_at(self.symbols)
//@START proof { self.short(); }
//@SPEC ensures okref(r) == nth::<Xcoff::SymbolBytes, T>(self.symbols@, index.0 as nat, offset as nat),
//@END
//@FN file=read/xcoff/symbol.rs name=symbol_unchecked in=SymbolTable<'data,~Xcoff,~R>
//@SPEC ensures okref(r) == nth::<Xcoff::SymbolBytes, Xcoff::Symbol>(self.symbols@, index.0 as nat, 0),
//@END
//@FN file=read/xcoff/symbol.rs name=symbol in=SymbolTable<'data,~Xcoff,~R>
//@SPEC ensures okref(r) == (match nth::<Xcoff::SymbolBytes, Xcoff::Symbol>(self.symbols@, index.0 as nat, 0) { Some(x) => if x.null() { None } else { Some(x) }, None => None }),
//@END
//@FN file=read/xcoff/symbol.rs name=aux_file in=SymbolTable<'data,~Xcoff,~R>
//@SUBST debug_assert!(self.symbol(index)?.has_aux_file()); ==>
//@SUBST xcoff:: ==> 
//@SPEC ensures okref(r) == xaux::<Xcoff::SymbolBytes, Xcoff::FileAux>(self.symbols@, index.0 as nat, offset as nat, AUX_FILE),
//@END
//@FN file=read/xcoff/symbol.rs name=aux_csect in=SymbolTable<'data,~Xcoff,~R>
//@SUBST debug_assert!(self.symbol(index)?.has_aux_csect()); ==>
//@SUBST xcoff:: ==> 
//@SPEC ensures okref(r) == xaux::<Xcoff::SymbolBytes, Xcoff::CsectAux>(self.symbols@, index.0 as nat, offset as nat, AUX_CSECT),
//@END
//@FN file=read/xcoff/symbol.rs name=iter in=SymbolTable<'data,~Xcoff,~R>
//@SUBST SymbolIterator<'data, 'table, Xcoff, R> ==> XIter<'data, 'table, Xcoff, R>
//@SUBST SymbolIterator { ==> XIter {
//@SPEC ensures r.symbols == self, r.index == 0,
//@END
//@FN file=read/xcoff/symbol.rs name=iter_none in=SymbolTable<'data,~Xcoff,~R>
//@SUBST pub(super) ==> pub
//@SUBST SymbolIterator<'data, 'table, Xcoff, R> ==> XIter<'data, 'table, Xcoff, R>
//@SUBST SymbolIterator { ==> XIter {
//@SPEC ensures r.symbols == self, r.index == self.symbols@.len(),
//@END
}
impl<'data, 'table, Xcoff: FileHeader, R: ReadRef<'data>> XIter<'data, 'table, Xcoff, R> {
//@FN file=read/xcoff/symbol.rs name=next in=Iterator~for~SymbolIterator
//@SUBST Option<Self::Item> ==> Option<(SymbolIndex, &'data Xcoff::Symbol)>
//@SUBST .ok()? ==> .ok_opt()?
//@LOOP 0 invariant
        self.symbols == old(self).symbols,
        self.symbols.symbols@.len() <= 0x0fff_ffff_ffff_ffff,
        xnext::<Xcoff::SymbolBytes, Xcoff::Symbol>(self.symbols.symbols@, old(self).index as nat) == xnext::<Xcoff::SymbolBytes, Xcoff::Symbol>(self.symbols.symbols@, self.index as nat),
    decreases usize::MAX - self.index,
//@START proof { self.symbols.short(); }
//@SPEC ensures final(self).symbols == old(self).symbols,
        match xnext::<Xcoff::SymbolBytes, Xcoff::Symbol>(old(self).symbols.symbols@, old(self).index as nat) {
            Some((i, x)) => r.is_some() && r.unwrap().0.0 == i && *r.unwrap().1 == x && final(self).index == i + 1 + x.aux(),
            None => r.is_none(),
        },
//@END
}

// ---- COFF ----
pub trait CSymbol: Rec {
    spec fn aux(&self) -> u8;
    fn number_of_aux_symbols(&self) -> (r: u8) ensures r == self.aux();
}
/// The auxiliary records; their layouts are obligations of `coff_aux_fields`.
pub struct ImageAuxSymbolFunction { pub b: [u8; 18] }
pub struct ImageAuxSymbolSection { pub b: [u8; 18] }
pub struct ImageAuxSymbolWeak { pub b: [u8; 18] }
impl Rec for ImageAuxSymbolFunction { uninterp spec fn of(e: Seq<u8>) -> Self; open spec fn fits(e: Seq<u8>) -> bool { e.len() >= 18 } }
impl Rec for ImageAuxSymbolSection { uninterp spec fn of(e: Seq<u8>) -> Self; open spec fn fits(e: Seq<u8>) -> bool { e.len() >= 18 } }
impl Rec for ImageAuxSymbolWeak { uninterp spec fn of(e: Seq<u8>) -> Self; open spec fn fits(e: Seq<u8>) -> bool { e.len() >= 18 } }
pub trait CoffHeader: Sized {
    spec fn symptr(&self) -> nat; spec fn nsyms(&self) -> nat;
    fn pointer_to_symbol_table(&self) -> (r: U64T) ensures r.0 == self.symptr();
    fn number_of_symbols(&self) -> (r: u32) ensures r == self.nsyms();
    type SymbolBytes: Entry; type Symbol: CSymbol; }
pub struct CTable<'data, R, Coff: CoffHeader> { pub symbols: &'data [Coff::SymbolBytes], pub strings: StringTable<R> }
pub struct CIter<'data, 'table, R, Coff: CoffHeader> { pub symbols: &'table CTable<'data, R, Coff>, pub index: SymbolIndex }
pub struct CoffCommon<'data, R, Coff: CoffHeader> { pub symbols: CTable<'data, R, Coff> }
pub struct CoffSymbol<'data, 'file, R, Coff: CoffHeader> { pub file: &'file CoffCommon<'data, R, Coff>, pub index: SymbolIndex, pub symbol: &'data Coff::Symbol }
pub struct CFileIter<'data, 'file, R, Coff: CoffHeader> { pub file: &'file CoffCommon<'data, R, Coff>, pub index: SymbolIndex }
impl<'data, R: ReadRef<'data>, Coff: CoffHeader> CTable<'data, R, Coff> {
    #[verifier::external_body]
    proof fn short(self) ensures self.symbols@.len() <= 0x0fff_ffff_ffff_ffff {}
    pub fn len(&self) -> (r: usize) ensures r == self.symbols@.len() { self.symbols.len() }
//@FN file=read/coff/symbol.rs name=parse in=SymbolTable<'data,~R,~Coff>
//@SUBST read_at::<U32<_>>(offset) ==> read_at_word(offset)
//@SUBST (&[][..], StringTable::default()) ==> (none(), StringTable::default())
//@SUBST Ok(SymbolTable { ==> Ok(Self {
//@SPEC ensures ({ let d = data.all(); let at = header.symptr(); let n = header.nsyms(); let e = at + n * Coff::SymbolBytes::width();
        let len = le(d.subrange(e as int, e as int + 4));
        &&& r.is_ok() == (at == 0 || (e + 4 <= d.len() && e + len <= u64::MAX))
        &&& r.is_ok() ==> is_table(d, data, at, n, len, r.unwrap().symbols@, r.unwrap().strings) }),
//@END
//@FN file=read/coff/symbol.rs name=get in=SymbolTable<'data,~R,~Coff>
//@SUBST <T: Pod> ==> <T: Rec>
//@SUBST .and_then(|x| self.symbols.get(x)) ==> .then_at(self.symbols)
//@START proof { self.short(); }
//@SPEC ensures okref(r) == nth::<Coff::SymbolBytes, T>(self.symbols@, index.0 as nat, offset as nat),
//@END
//@FN file=read/coff/symbol.rs name=symbol in=SymbolTable<'data,~R,~Coff>
//@SPEC ensures okref(r) == nth::<Coff::SymbolBytes, Coff::Symbol>(self.symbols@, index.0 as nat, 0),
//@END
//@FN file=read/coff/symbol.rs name=aux_function in=SymbolTable<'data,~R,~Coff>
//@SUBST pe:: ==> 
//@SPEC ensures okref(r) == nth::<Coff::SymbolBytes, ImageAuxSymbolFunction>(self.symbols@, index.0 as nat, 1),
//@END
//@FN file=read/coff/symbol.rs name=aux_section in=SymbolTable<'data,~R,~Coff>
//@SUBST pe:: ==> 
//@SPEC ensures okref(r) == nth::<Coff::SymbolBytes, ImageAuxSymbolSection>(self.symbols@, index.0 as nat, 1),
//@END
//@FN file=read/coff/symbol.rs name=aux_weak_external in=SymbolTable<'data,~R,~Coff>
//@SUBST pe:: ==> 
//@SPEC ensures okref(r) == nth::<Coff::SymbolBytes, ImageAuxSymbolWeak>(self.symbols@, index.0 as nat, 1),
//@END
//@FN file=read/coff/symbol.rs name=iter in=SymbolTable<'data,~R,~Coff>
//@SUBST SymbolIterator<'data, 'table, R, Coff> ==> CIter<'data, 'table, R, Coff>
//@SUBST SymbolIterator { ==> CIter {
//@SPEC ensures r.symbols == self, r.index.0 == 0,
//@END
//@FN file=read/coff/symbol.rs name=aux_file_name in=SymbolTable<'data,~R,~Coff>
//@SUBST .and_then(|x| Some(x..x.checked_add(aux_count.into())?)) ==> .then_range(aux_count)
//@SUBST .and_then(|x| self.symbols.get(x)) ==> .then_slice(self.symbols)
//@SUBST &bytes[..end] ==> prefix(bytes, end)
//@START proof { self.short();
        assert forall|s: Seq<u8>, i: int| 0 <= i < s.len() && s[i] == 0 && (forall|k: int| 0 <= k < i ==> s[k] != 0) implies #[trigger] s.take(i) == s.take(until(s)) by { until_is(s, i); }
        assert forall|s: Seq<u8>| (forall|k: int| 0 <= k < s.len() ==> s[k] != 0) implies s.take(#[trigger] until(s)) == s by { until_is(s, s.len() as int); assert(s.take(s.len() as int) =~= s); } }
//@SPEC ensures ({ let a = index.0 + 1; let b = a + aux_count;
        r.is_ok() == (b <= self.symbols@.len()) && (r.is_ok() ==> ({ let s = joined(self.symbols@.subrange(a, b)); r.unwrap()@ == s.take(until(s)) })) }),
//@END
}
impl<'data, 'table, R: ReadRef<'data>, Coff: CoffHeader> CIter<'data, 'table, R, Coff> {
//@FN file=read/coff/symbol.rs name=next in=Iterator~for~SymbolIterator
//@SUBST Option<Self::Item> ==> Option<(SymbolIndex, &'data Coff::Symbol)>
//@SUBST .ok()? ==> .ok_opt()?
//@START proof { self.symbols.short(); }
//@SPEC ensures final(self).symbols == old(self).symbols,
        match nth::<Coff::SymbolBytes, Coff::Symbol>(old(self).symbols.symbols@, old(self).index.0 as nat, 0) {
            Some(x) => r.is_some() && r.unwrap().0 == old(self).index && *r.unwrap().1 == x && final(self).index.0 == old(self).index.0 + 1 + x.aux(),
            None => r.is_none() && final(self).index == old(self).index,
        },
//@END
}
impl<'data, 'file, R: ReadRef<'data>, Coff: CoffHeader> CFileIter<'data, 'file, R, Coff> {
//@FN file=read/coff/symbol.rs name=new in=CoffSymbolIterator<'data,~'file,~R,~Coff>
//@SUBST pub(crate) ==> pub
//@SPEC ensures r.file == file, r.index.0 == 0,
//@END
//@FN file=read/coff/symbol.rs name=empty in=CoffSymbolIterator<'data,~'file,~R,~Coff>
//@SUBST pub(crate) ==> pub
//@SPEC ensures r.file == file, r.index.0 == file.symbols.symbols@.len(),
//@END
//@FN file=read/coff/symbol.rs name=next in=Iterator~for~CoffSymbolIterator
//@SUBST Option<Self::Item> ==> Option<CoffSymbol<'data, 'file, R, Coff>>
//@SUBST .ok()? ==> .ok_opt()?
//@START proof { self.file.symbols.short(); }
//@SPEC ensures final(self).file == old(self).file,
        match nth::<Coff::SymbolBytes, Coff::Symbol>(old(self).file.symbols.symbols@, old(self).index.0 as nat, 0) {
            Some(x) => r.is_some() && r.unwrap().index == old(self).index && *r.unwrap().symbol == x && r.unwrap().file == old(self).file && final(self).index.0 == old(self).index.0 + 1 + x.aux(),
            None => r.is_none() && final(self).index == old(self).index,
        },
//@END
}
}
fn main() {}
