// Context for the extracted ReadCacheRange: the cached stream below it is replaced by that
// type's contract, `answers as the file's slice does`.
#![allow(dead_code, unused)]
use core::ops::Range;
pub trait ReadRef<'a>: Clone + Copy {
    fn len(self) -> Result<u64, ()>;
    fn read_bytes_at(self, offset: u64, size: u64) -> Result<&'a [u8], ()>;
    fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()>;
}
pub trait ReadCacheOps {}
pub struct Stream;
impl ReadCacheOps for Stream {}
#[derive(Debug)]
pub struct ReadCache<R: ReadCacheOps> { pub d: &'static [u8], pub m: core::marker::PhantomData<R> }
impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
    fn len(self) -> Result<u64, ()> { Ok(self.d.len() as u64) }
    fn read_bytes_at(self, offset: u64, size: u64) -> Result<&'a [u8], ()> { at(self.d, offset, size) }
    fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> { until(self.d, range, delimiter) }
}
//@EXTRACT
pub fn range(c: &'static ReadCache<Stream>, offset: u64, size: u64) -> ReadCacheRange<'static, Stream> {
    ReadCacheRange { r: c, offset, size }
}
