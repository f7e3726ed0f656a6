//! Bounded reads.
use crate::shim::*;
use ::memchr_dep as mc;
use core::ops::Range;
use object::read::{ReadRef, StringTable};
#[cfg(not(kani))]
use object::read::{ReadCache, ReadCacheOps, ReadCacheRange};
/// The repository's ReadCacheRange, extracted on every build (see x/read_cache.rs).
#[cfg(all(kani, x_read_cache))]
pub mod range_x {
    include!(concat!(env!("OUT_DIR"), "/read_cache.rs"));
    fn at(d: &'static [u8], o: u64, s: u64) -> Result<&'static [u8], ()> { object::ReadRef::read_bytes_at(d, o, s) }
    fn until(d: &'static [u8], r: Range<u64>, c: u8) -> Result<&'static [u8], ()> { object::ReadRef::read_bytes_at_until(d, r, c) }
    impl<'a, R: ReadCacheOps> object::ReadRef<'a> for ReadCacheRange<'a, R> {
        fn len(self) -> Result<u64, ()> { ReadRef::len(self) }
        fn read_bytes_at(self, o: u64, s: u64) -> Result<&'a [u8], ()> { ReadRef::read_bytes_at(self, o, s) }
        fn read_bytes_at_until(self, r: Range<u64>, d: u8) -> Result<&'a [u8], ()> { ReadRef::read_bytes_at_until(self, r, d) }
    }
}

/// A range of a cached stream over `d`.
#[cfg(all(kani, x_read_cache))]
fn range_of(d: &'static [u8], o: u64, s: u64) -> range_x::ReadCacheRange<'static, range_x::Stream> {
    let c: &'static _ = Box::leak(Box::new(range_x::ReadCache { d, m: core::marker::PhantomData }));
    range_x::range(c, o, s)
}
#[cfg(not(kani))]
fn range_of(d: &'static [u8], o: u64, s: u64) -> ReadCacheRange<'static, Stream> {
    let c: &'static _ = Box::leak(Box::new(ReadCache::new(Stream { d, pos: 0 })));
    c.range(o, s)
}
#[cfg(all(kani, not(x_read_cache)))]
fn range_of(d: &'static [u8], o: u64, s: u64) -> &'static [u8] {
    assume(o as u128 + s as u128 <= d.len() as u128);
    &d[o as usize..(o + s) as usize]
}

/// A stream over a slice; reads may be short, as a real stream's may.
#[cfg(not(kani))]
pub struct Stream {
    d: &'static [u8],
    pos: u64,
}
#[cfg(not(kani))]
impl ReadCacheOps for Stream {
    fn len(&mut self) -> Result<u64, ()> { Ok(self.d.len() as u64) }
    fn seek(&mut self, pos: u64) -> Result<u64, ()> { self.pos = pos; Ok(pos) }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ()> {
        let p = (self.pos as usize).min(self.d.len());
        let n = buf.len().min(self.d.len() - p).min(200);
        buf[..n].copy_from_slice(&self.d[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<(), ()> {
        let p = (self.pos as usize).min(self.d.len());
        if buf.len() > self.d.len() - p { return Err(()); }
        buf.copy_from_slice(&self.d[p..p + buf.len()]);
        self.pos += buf.len() as u64;
        Ok(())
    }
}

/// Spec of a plain read.
fn read_spec(d: &[u8], off: u64, size: u64) -> Option<&[u8]> {
    if size == 0 { return Some(&[]); }
    if off as u128 + size as u128 > d.len() as u128 { return None; }
    Some(&d[off as usize..(off + size) as usize])
}
/// Spec of a delimited read on bounded data.
fn until_spec(d: &[u8], r: &Range<u64>, delim: u8) -> Option<&'static [u8]> where {
    if r.start > r.end || r.end > d.len() as u64 { return None; }
    let (mut i, e) = (r.start as usize, r.end as usize);
    while i < e {
        if d[i] == delim {
            return Some(unsafe { core::slice::from_raw_parts(d.as_ptr().add(r.start as usize), i - r.start as usize) });
        }
        i += 1;
    }
    None
}
fn same(a: Result<&[u8], ()>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (Ok(x), Some(y)) => {
            if x.len() != y.len() { return false; }
            let mut i = 0;
            while i < x.len() {
                if x[i] != y[i] { return false; }
                i += 1;
            }
            true
        }
        (Err(()), None) => true,
        _ => false,
    }
}

/// In proof mode the bytes are compared in place; natively (cached copies) by value.
fn is_at_or_eq(b: &[u8], d: &[u8], off: usize) -> bool {
    #[cfg(kani)]
    return is_at(b, d, off, b.len());
    #[cfg(not(kani))]
    return d.get(off..).and_then(|t| t.get(..b.len())) == Some(b);
}

harnesses! {
    fn slice_reads() {
        let d = any_bytes::<16>();
        let n = d.len() as u128;
        let (off, size): (u64, u64) = (any(), any());
        ensure!(ReadRef::len(d) == Ok(d.len() as u64), "length of the file");
        match d.read_bytes_at(off, size) {
            Ok(r) => {
                reach!(size > 1, "read accepted");
                ensure!(r.len() as u64 == size && (size == 0 || is_at(r, d, off as usize, size as usize)), "read_bytes_at: exactly the bytes asked for");
            }
            Err(()) => ensure!(size > 0 && off as u128 + size as u128 > n, "read_bytes_at: fails only out of range"),
        }
        let mut o = off;
        match d.read_bytes(&mut o, size) {
            Ok(r) => ensure!(r.len() as u64 == size && (size == 0 || is_at(r, d, off as usize, size as usize)) && o == off.wrapping_add(size), "read_bytes: bytes asked for, offset advanced"),
            Err(()) => ensure!(size > 0 && off as u128 + size as u128 > n && o == off, "read_bytes: fails only out of range, offset unchanged"),
        }
    }
    fn slice_typed_reads() {
        let d = any_bytes::<16>();
        let n = d.len() as u128;
        let off: u64 = any();
        match d.read_at::<[u8; 4]>(off) {
            Ok(r) => { reach!(true, "read_at accepted"); ensure!(is_at(r, d, off as usize, 4), "read_at: record at the offset") }
            Err(()) => ensure!(off as u128 + 4 > n, "read_at: fails only out of range"),
        }
        let mut o = off;
        match d.read::<[u8; 4]>(&mut o) {
            Ok(r) => ensure!(is_at(r, d, off as usize, 4) && o == off + 4, "read: record at the offset, offset advanced"),
            Err(()) => ensure!(off as u128 + 4 > n && o == off, "read: fails only out of range, offset unchanged"),
        }
        let count: usize = any();
        let total = count as u128 * 4;
        match d.read_slice_at::<[u8; 4]>(off, count) {
            Ok(r) => {
                reach!(count > 1, "read_slice_at accepted");
                ensure!(r.len() == count && (count == 0 || (off as u128 + total <= n && r.as_ptr() as usize == d.as_ptr() as usize + off as usize)), "read_slice_at: records at the offset");
            }
            Err(()) => ensure!(count > 0 && off as u128 + total > n, "read_slice_at: fails only out of range"),
        }
        let mut o = off;
        match d.read_slice::<[u8; 4]>(&mut o, count) {
            Ok(r) => ensure!(r.len() == count && o == off.wrapping_add(total as u64), "read_slice: offset advanced past the records"),
            Err(()) => ensure!(o == off, "read_slice: offset unchanged on error"),
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn slice_delimited() {
        let d = any_bytes::<16>();
        let n = d.len() as u64;
        let (s, e): (u64, u64) = (any(), any());
        let delim: u8 = any();
        let w = witness();
        match d.read_bytes_at_until(s..e, delim) {
            Ok(r) => {
                reach!(r.len() > 1, "delimited read accepted");
                ensure!(s < e && e <= n && (r.len() as u64) < e - s, "delimited read stays in the range");
                ensure!(is_at(r, d, s as usize, r.len()), "delimited read starts at the range start");
                ensure!(d[s as usize + r.len()] == delim, "delimited read stops at a delimiter");
                ensure!(!(w < r.len()) || d[s as usize + w] != delim, "delimited read stops at the first delimiter");
            }
            Err(()) => ensure!(s > e || e > n || !((w as u64) < e - s) || d[s as usize + w] != delim, "delimited read fails only without a delimiter in range"),
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn string_table() {
        let d = any_bytes::<16>();
        let n = d.len() as u64;
        let (s, e): (u64, u64) = (any(), any());
        let off: u32 = any();
        let w = witness();
        let t = StringTable::new(d, s, e);
        let at = s as u128 + off as u128;
        match t.get(off) {
            Ok(r) => {
                reach!(r.len() > 1, "string found");
                ensure!(at < e as u128 && e <= n, "string table: lookup inside the table");
                let at = at as u64;
                ensure!((r.len() as u64) < e - at && is_at(r, d, at as usize, r.len()), "string table: string at start plus offset");
                ensure!(d[at as usize + r.len()] == 0, "string table: stops at the terminator");
                ensure!(!(w < r.len()) || d[at as usize + w] != 0, "string table: stops at the first terminator");
            }
            Err(()) => ensure!(at > e as u128 || e > n || !((w as u128) < e as u128 - at) || d[at as usize + w] != 0, "string table: fails only without a terminated string"),
        }
        let z: StringTable<'static, &'static [u8]> = StringTable::default();
        ensure!(z.get(off).is_err(), "empty string table has no strings");
    }
    /// A sub-range of a cached stream answers exactly as that part of the file.
    fn range_reads() {
        let d = any_bytes::<16>();
        let (o, s): (u64, u64) = (any(), any());
        let r = range_of(d, o, s);
        ensure!(r.len() == Ok(s), "range length");
        let (off, size): (u64, u64) = (any(), any());
        match r.read_bytes_at(off, size) {
            Ok(b) => {
                reach!(size > 1 && o > 0, "range read accepted");
                ensure!(size == 0 || off as u128 + size as u128 <= s as u128, "range read stays in the sub-range");
                ensure!(b.len() as u64 == size && (size == 0 || is_at_or_eq(b, d, o as usize + off as usize)), "range read is the file's bytes at range start plus offset");
            }
            Err(()) => ensure!(size > 0 && (off as u128 + size as u128 > s as u128 || o as u128 + off as u128 + size as u128 > d.len() as u128), "range read fails only out of range"),
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn range_delimited() {
        let d = any_bytes::<16>();
        let n = d.len() as u64;
        let (o, s): (u64, u64) = (any(), any());
        assume(o <= n && s <= n - o);
        let sub = &d[o as usize..(o + s) as usize];
        let r = range_of(d, o, s);
        let (a, e): (u64, u64) = (any(), any());
        let delim: u8 = any();
        let w = witness();
        match r.read_bytes_at_until(a..e, delim) {
            Ok(b) => {
                reach!(b.len() > 1 && o > 0, "range string accepted");
                ensure!(a < e && e <= s && (b.len() as u64) < e - a, "range delimited read stays in the sub-range");
                ensure!(is_at_or_eq(b, sub, a as usize), "range delimited read starts at the range start");
                ensure!(sub[a as usize + b.len()] == delim, "range delimited read stops at a delimiter");
                ensure!(!(w < b.len()) || sub[a as usize + w] != delim, "range delimited read stops at the first delimiter");
            }
            Err(()) => ensure!(a > e || e > s || !((w as u64) < e - a) || sub[a as usize + w] != delim, "range delimited read fails only without a delimiter in range"),
        }
    }
}

natives! {
    /// Bounded (exhaustive): files of at most 3 bytes over {0,1}, two plain reads and two
    /// delimited reads through one cache, offsets and sizes 0..=4 and 2^64-1.
    fn cache_histories() {
        let n = choose(4);
        let mut v = Vec::new();
        for _ in 0..n { v.push(choose(2) as u8); }
        let d: &'static [u8] = Box::leak(v.into_boxed_slice());
        let c = ReadCache::new(Stream { d, pos: 0 });
        ensure!((&c).len() == Ok(d.len() as u64), "cached length");
        fn v6() -> u64 { match choose(6) { 5 => u64::MAX, x => x as u64 } }
        for _ in 0..2 {
            if choose(2) == 0 {
                let (a, n) = (v6(), v6());
                ensure!(same((&c).read_bytes_at(a, n), read_spec(d, a, n)), "cached read equals the file's bytes");
            } else {
                let r = v6()..v6();
                let dl = choose(2) as u8;
                ensure!(same((&c).read_bytes_at_until(r.clone(), dl), until_spec(d, &r, dl)), "cached delimited read equals the slice's answer");
            }
        }
    }
    /// Bounded: delimited reads of up to 600 bytes, which span the cache's 256-byte steps,
    /// from a stream that returns short reads.
    fn cache_long_strings() {
        let n = [0usize, 1, 255, 256, 257, 258, 511, 512, 513, 600][choose(10)];
        let at = choose(602);
        let mut v = vec![7u8; n];
        if at < n { v[at] = 0; }
        let d: &'static [u8] = Box::leak(v.into_boxed_slice());
        let c = ReadCache::new(Stream { d, pos: 0 });
        let s = [0u64, 1, 2, 256][choose(4)];
        let e = (n as u64).saturating_sub([0u64, 1, 2, 300][choose(4)]);
        let r = s..e;
        ensure!(same((&c).read_bytes_at_until(r.clone(), 0), until_spec(d, &r, 0)), "long cached delimited read equals the slice's answer");
        let r2 = s..(n as u64);
        ensure!(same((&c).read_bytes_at_until(r2.clone(), 0), until_spec(d, &r2, 0)), "second long cached delimited read equals the slice's answer");
        ensure!(same(c.range(s, e.saturating_sub(s)).read_bytes_at_until(0..e.saturating_sub(s), 0), if s <= e { until_spec(d, &r, 0) } else { None }), "long range read equals the slice's answer");
    }
}
