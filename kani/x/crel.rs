// Context for the extracted CrelIterator: `Bytes` is replaced by the contracts of its
// methods (LEB128 decoding: proved in C04; `read`: proved in C01), which record every call.
#![allow(dead_code, unused)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Error(pub &'static str);
pub mod elf {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub struct RelocationType(pub u32);
}
pub mod read {
    pub use super::Error;
    pub type Result<T> = core::result::Result<T, Error>;
}
pub trait ReadError<T> { fn read_error(self, e: &'static str) -> read::Result<T>; }
impl<T> ReadError<T> for Result<T, ()> { fn read_error(self, e: &'static str) -> read::Result<T> { match self { Ok(v) => Ok(v), Err(()) => Err(Error(e)) } } }
impl<T> ReadError<T> for Result<T, Error> { fn read_error(self, e: &'static str) -> read::Result<T> { match self { Ok(v) => Ok(v), Err(_) => Err(Error(e)) } } }
impl<T> ReadError<T> for Option<T> { fn read_error(self, e: &'static str) -> read::Result<T> { match self { Some(v) => Ok(v), None => Err(Error(e)) } } }
/// A read that was performed: kind 0 = one byte, 1 = unsigned, 2 = signed number.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Call { pub kind: u8, pub val: u64, pub ok: bool }
pub static mut CALLS: [Call; 12] = [Call { kind: 9, val: 0, ok: false }; 12];
pub static mut N: usize = 0;
#[derive(Debug, Clone, Copy)]
pub struct Bytes<'data>(pub &'data [u8]);
fn read(kind: u8) -> Result<u64, ()> {
    unsafe {
        let c = Call { kind, val: sym(), ok: sym() & 1 == 1 };
        CALLS[N] = c;
        N += 1;
        if c.ok { Ok(c.val) } else { Err(()) }
    }
}
impl<'data> Bytes<'data> {
    pub fn read<T: From1 + 'static>(&mut self) -> Result<&'data T, ()> { read(0).map(|v| T::from1(v as u8)) }
    pub fn read_uleb128(&mut self) -> Result<u64, ()> { read(1) }
    pub fn read_sleb128(&mut self) -> Result<i64, ()> { read(2).map(|v| v as i64) }
    pub fn is_empty(&self) -> bool { sym() & 1 == 1 }
}
pub trait From1 { fn from1(v: u8) -> &'static Self; }
impl From1 for u8 { fn from1(v: u8) -> &'static u8 { Box::leak(Box::new(v)) } }
#[derive(Debug, Clone, Copy)]
pub struct SymbolIndex(pub usize);
//@EXTRACT
impl<'data> CrelIterator<'data> {
    pub fn arbitrary(count: usize, flag_bits: u8, shift: u8, is_rela: bool, state: Crel) -> Self {
        CrelIterator { data: Bytes(&[]), header: CrelIteratorHeader { count, flag_bits, shift, is_rela }, state }
    }
    pub fn state(&self) -> Crel { self.state }
    pub fn hdr(&self) -> (u8, u8, bool) { (self.header.flag_bits, self.header.shift, self.header.is_rela) }
}
