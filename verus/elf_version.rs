use vstd::prelude::*;
verus! {
// The symbol's version request, for every version table.
pub trait FileHeader { type Endian: Copy; }
#[derive(Debug)]
pub struct Error { pub n: u8 }
pub struct SymbolIndex(pub usize);
pub struct VersymIndex(pub u16);
pub struct VersionIndex(pub u16);
impl VersymIndex {
    fn index(&self) -> (r: VersionIndex) ensures r.0 == self.0 & 0x7fff { VersionIndex(self.0 & 0x7fff) }
    fn is_hidden(&self) -> (r: bool) ensures r == (self.0 & 0x8000 != 0) { self.0 & 0x8000 != 0 }
}
impl VersionIndex {
    fn is_special(&self) -> (r: bool) ensures r == (self.0 <= 1) { self.0 <= 1 }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct Versym<E> { e: core::marker::PhantomData<E> }
impl<E: Copy> Versym<E> {
    pub uninterp spec fn val(self, e: E) -> u16;
    #[verifier::external_body]
    fn get(&self, e: E) -> (r: VersymIndex) ensures r.0 == self.val(e) { unimplemented!() }
}
fn global() -> (r: VersymIndex) ensures r.0 == 1 { VersymIndex(1) }
pub struct Version<'data> { pub name: &'data [u8], pub hash: u32, pub valid: bool, pub file: Option<&'data [u8]> }
#[verifier::external_body]
fn same(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn usable<'a, 'data>(v: &'a [Version<'data>], i: usize) -> (r: Result<Option<&'a Version<'data>>, Error>)
    ensures r.is_ok() == (i < v@.len() && v@[i as int].valid),
        r.is_ok() ==> r.unwrap().is_some() && *r.unwrap().unwrap() == v@[i as int] { unimplemented!() }

#[verifier::reject_recursive_types(Elf)]
pub struct VersionTable<'data, Elf: FileHeader> { pub symbols: &'data [Versym<Elf::Endian>], pub versions: &'data [Version<'data>] }
impl<'data, Elf: FileHeader> VersionTable<'data, Elf> {
    /// The version entry of a symbol, with the hidden bit; global when the table has none.
    pub open spec fn sym(&self, e: Elf::Endian, i: int) -> u16 { if i < self.symbols@.len() { self.symbols@[i].val(e) } else { 1 } }
    pub open spec fn valid(&self, v: u16) -> bool { v < self.versions@.len() && self.versions@[v as int].valid }
//@FN file=read/elf/version.rs name=version_index in=VersionTable<
//@SUBST versym.0.get(endian) ==> versym.get(endian)
//@SUBST elf::VER_NDX_GLOBAL.into() ==> global()
//@SUBST elf::VersymIndex ==> VersymIndex
//@SUBST self.symbols.get(index.0) ==> at(self.symbols, index.0)
//@SPEC ensures r.0 == self.sym(endian, index.0 as int)
//@END
//@FN file=read/elf/version.rs name=version in=VersionTable<
//@SUBST elf::VersionIndex ==> VersionIndex
//@SUBST Result<Option<&Version<'data>>> ==> Result<Option<&Version<'data>>, Error>
//@SUBST self.versions.get(usize::from(index)).filter(|version| version.valid).read_error("Invalid ELF symbol version index").map(Some) ==> usable(self.versions, index.0 as usize)
//@SPEC ensures
    index.0 <= 1 ==> r.is_ok() && r.unwrap().is_none(),
    index.0 > 1 ==> r.is_ok() == self.valid(index.0),
    index.0 > 1 && r.is_ok() ==> r.unwrap().is_some() && *r.unwrap().unwrap() == self.versions@[index.0 as int],
//@END
//@FN file=read/elf/version.rs name=matches in=VersionTable<
//@SUBST need.name == def.name ==> same(need.name, def.name)
//@SUBST def.name == need.name ==> same(need.name, def.name)
//@SPEC ensures ({
    let v = self.sym(endian, index.0 as int);
    let x = v & 0x7fff;
    r == if x <= 1 { need.is_none() }
        else if !self.valid(x) { false }
        else if need.is_some() { need.unwrap().hash == self.versions@[x as int].hash && need.unwrap().name@ == self.versions@[x as int].name@ }
        else { v & 0x8000 == 0 }
    })
//@END
}
#[verifier::external_body]
fn at<T>(s: &[T], i: usize) -> (r: Option<&T>) ensures r.is_some() == (i < s@.len()), r.is_some() ==> *r.unwrap() == s@[i as int] { s.get(i) }
}
fn main() {}
