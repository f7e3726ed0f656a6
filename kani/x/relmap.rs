// Context for the extracted Relocation and RelocationMap: the object file behind the map is
// replaced by the contract of its lookups (arbitrary answers, recorded), the hash map by a
// map observed at one arbitrary key.
#![allow(dead_code, unused)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Error(pub &'static str);
pub type Result<T> = core::result::Result<T, Error>;
pub trait ReadError<T> { fn read_error(self, e: &'static str) -> Result<T>; }
impl<T> ReadError<T> for core::result::Result<T, ()> { fn read_error(self, e: &'static str) -> Result<T> { match self { Ok(v) => Ok(v), Err(()) => Err(Error(e)) } } }
impl<T> ReadError<T> for Result<T> { fn read_error(self, e: &'static str) -> Result<T> { match self { Ok(v) => Ok(v), Err(_) => Err(Error(e)) } } }
impl<T> ReadError<T> for Option<T> { fn read_error(self, e: &'static str) -> Result<T> { match self { Some(v) => Ok(v), None => Err(Error(e)) } } }
pub trait ObjectSymbol { fn address(&self) -> u64; }
pub trait ObjectSection { fn address(&self) -> u64; fn kind(&self) -> SectionKind; fn relocations(&self) -> core::option::IntoIter<(u64, Relocation)>; }
pub trait Object<'data> {
    type Symbol<'f>: ObjectSymbol where Self: 'f, 'data: 'f;
    type Section<'f>: ObjectSection where Self: 'f, 'data: 'f;
    fn symbol_by_index<'f>(&'f self, i: SymbolIndex) -> Result<Self::Symbol<'f>>;
    fn section_by_index<'f>(&'f self, i: SectionIndex) -> Result<Self::Section<'f>>;
}
/// The map contract at one arbitrary key `w`; every other key only says whether it was present.
#[derive(Debug)]
pub struct Map<K, V> { pub w: K, pub v: Option<V>, pub other: bool }
impl<K: PartialEq + Copy + From<u64>, V: Copy> Map<K, V> {
    pub fn new() -> Self { Map { w: witness_key().into(), v: None, other: false } }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        if k == self.w { core::mem::replace(&mut self.v, Some(v)) } else if self.other { Some(v) } else { None }
    }
    pub fn get(&self, k: &K) -> Option<&V> { assert!(*k == self.w, "harness observes the map at its witness"); self.v.as_ref() }
    pub fn contains_key(&self, k: &K) -> bool { if *k == self.w { self.v.is_some() } else { self.other } }
}
impl<K: From<u64>, V> Default for Map<K, V> { fn default() -> Self { Map { w: witness_key().into(), v: None, other: false } } }
//@EXTRACT
pub fn relocation(kind: RelocationKind, encoding: RelocationEncoding, size: u8, target: RelocationTarget, subtractor: Option<SymbolIndex>, addend: i64, implicit_addend: bool, flags: RelocationFlags) -> Relocation {
    Relocation { kind, encoding, size, target, subtractor, addend, implicit_addend, flags }
}
pub fn map(w: u64, v: Option<(bool, u64)>, other: bool) -> RelocationMap {
    RelocationMap(Map { w, v: v.map(|(implicit_addend, addend)| RelocationMapEntry { implicit_addend, addend }), other })
}
pub fn entry(m: &RelocationMap) -> Option<(bool, u64)> { m.0.v.map(|e| (e.implicit_addend, e.addend)) }
