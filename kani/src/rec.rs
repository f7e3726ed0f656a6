//! An output buffer abstracted to its length and one arbitrary byte.
use crate::shim::*;
use object::write::WritableBuffer;
use std::io;

/// The abstract view of a sink: how many bytes were written, and the byte at one arbitrary
/// offset `w` (so a statement about it is a statement about every offset).
pub struct Rec { pub w: u64, pub len: u64, pub at: Option<u8>, pub fail_at: u64 }
impl Rec {
    /// The start of an output file.
    pub fn start() -> Rec { Rec { w: any(), len: 0, at: None, fail_at: u64::MAX } }
    pub fn any() -> Rec {
        let w = any::<u64>(); let len = any::<u64>();
        assume(len < MAX_LEN as u64);
        Rec { w, len, at: if w < len { Some(any()) } else { None }, fail_at: u64::MAX }
    }
    pub fn push(&mut self, v: &[u8]) {
        if self.w >= self.len && self.w - self.len < v.len() as u64 { self.at = Some(v[(self.w - self.len) as usize]); }
        self.len += v.len() as u64;
    }
}
impl WritableBuffer for Rec {
    fn reserve(&mut self, _: u64) -> Result<(), ()> { Ok(()) }
    fn write_bytes(&mut self, v: &[u8]) { self.push(v) }
    fn write_zeros(&mut self, n: u64) {
        if self.w >= self.len && self.w - self.len < n { self.at = Some(0); }
        self.len += n;
    }
}
impl io::Write for Rec {
    fn write(&mut self, v: &[u8]) -> io::Result<usize> { self.push(v); Ok(v.len()) }
    fn write_all(&mut self, v: &[u8]) -> io::Result<()> { if self.len >= self.fail_at { return Err(io::ErrorKind::Other.into()); } self.push(v); Ok(()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// What the byte at `w` is after `v` is appended to a buffer of `len` bytes.
pub fn app(at: Option<u8>, w: u64, len: u64, v: &[u8]) -> Option<u8> {
    if w >= len && w - len < v.len() as u64 { Some(v[(w - len) as usize]) } else { at }
}
pub fn appz(at: Option<u8>, w: u64, len: u64, n: u64) -> Option<u8> {
    if w >= len && w - len < n { Some(0) } else { at }
}
