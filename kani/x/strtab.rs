// Context for the extracted write::StringTable and its sort: the hash set that numbers the
// strings is replaced by a list with the same contract (position of first insertion).
#![allow(dead_code, unused)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Error(pub &'static str);
impl From<&'static str> for Error { fn from(s: &'static str) -> Self { Error(s) } }
pub type Result<T> = core::result::Result<T, Error>;
pub trait WritableBuffer { fn reserve(&mut self, size: u64) -> core::result::Result<(), ()>; fn write_bytes(&mut self, val: &[u8]); }
/// An output abstracted to its length and the byte at one arbitrary offset.
pub struct Rec { pub w: u64, pub len: u64, pub at: Option<u8> }
impl WritableBuffer for Rec {
    fn reserve(&mut self, _: u64) -> core::result::Result<(), ()> { Ok(()) }
    fn write_bytes(&mut self, v: &[u8]) {
        if self.w >= self.len && self.w - self.len < v.len() as u64 { self.at = Some(v[(self.w - self.len) as usize]); }
        self.len += v.len() as u64;
    }
}
#[derive(Debug)]
pub struct IndexSet<K> { v: Vec<K> }
impl<K> Default for IndexSet<K> { fn default() -> Self { IndexSet { v: Vec::with_capacity(4) } } }
impl<'a> IndexSet<&'a [u8]> {
    pub fn insert_full(&mut self, k: &'a [u8]) -> (usize, bool) {
        match self.get_index_of(k) { Some(i) => (i, false), None => { self.v.push(k); (self.v.len() - 1, true) } }
    }
    pub fn insert(&mut self, k: &'a [u8]) -> bool { self.insert_full(k).1 }
    pub fn contains(&self, k: &[u8]) -> bool { self.get_index_of(k).is_some() }
    pub fn get_index_of(&self, k: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < self.v.len() { if eq(self.v[i], k) { return Some(i); } i += 1; }
        None
    }
    pub fn get_index(&self, i: usize) -> Option<&&'a [u8]> { self.v.get(i) }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn iter(&self) -> core::slice::Iter<'_, &'a [u8]> { self.v.iter() }
}
impl<'s, 'a> IntoIterator for &'s IndexSet<&'a [u8]> { type Item = &'s &'a [u8]; type IntoIter = core::slice::Iter<'s, &'a [u8]>; fn into_iter(self) -> Self::IntoIter { self.v.iter() } }
impl<'a> core::ops::Index<usize> for IndexSet<&'a [u8]> { type Output = &'a [u8]; fn index(&self, i: usize) -> &&'a [u8] { &self.v[i] } }
fn eq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
//@EXTRACT
