//! Output buffers.
use crate::shim::*;
use object::write::{CountingBuffer, StreamingBuffer, WritableBuffer, WritableBufferExt, GrowableBuffer};
use object::{Endianness, Endian};
use std::io;

use crate::rec::*;
/// As `Rec`, with the trait's own `write_zeros`.
pub struct RecD(Rec);
impl WritableBuffer for RecD {
    fn reserve(&mut self, _: u64) -> Result<(), ()> { Ok(()) }
    fn write_bytes(&mut self, v: &[u8]) { self.0.push(v) }
}
/// A vector of any length and contents.
#[cfg(all(kani, not(feature = "bnd")))]
fn any_vec<const N: usize>() -> Vec<u8> {
    let len: usize = kani::any(); let cap: usize = kani::any();
    kani::assume(len <= cap && cap < MAX_LEN);
    if cap == 0 { return Vec::new(); }
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(cap, 1));
        kani::assume(!p.is_null());
        Vec::from_raw_parts(p, len, cap)
    }
}
#[cfg(any(not(kani), feature = "bnd"))]
fn any_vec<const N: usize>() -> Vec<u8> { some_bytes::<N>().to_vec() }

/// A writer that fails once, or not at all.
struct Once { fail: bool, bytes: u64 }
impl io::Write for Once {
    fn write(&mut self, v: &[u8]) -> io::Result<usize> { self.write_all(v).map(|()| v.len()) }
    fn write_all(&mut self, v: &[u8]) -> io::Result<()> {
        if self.fail { self.fail = false; return Err(io::ErrorKind::Other.into()) }
        self.bytes += v.len() as u64;
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

harnesses! {
    /// ensures: view' = view ++ val; the untouched tail is in place.
    fn slice_write_bytes() {
        let d = any_bytes_mut::<16>();
        let v = any_bytes::<16>();
        let (p, n, m) = (d.as_ptr() as usize, d.len(), v.len());
        assume(m <= n);
        let w = any::<usize>(); assume(w < n);
        let before = d[w];
        {
            let mut b: &mut [u8] = &mut *d;
            b.write_bytes(v);
            ensure!(b.len() == n - m && (n == m || b.as_ptr() as usize == p + m), "the rest of the slice follows the bytes written");
        }
        ensure!(d[w] == if w < m { v[w] } else { before }, "exactly the bytes given are written");
        reach!(m > 2 && w > m, "tail");
    }
    fn slice_write_zeros() {
        let d = any_bytes_mut::<16>();
        let m = any::<u64>();
        let (p, n) = (d.as_ptr() as usize, d.len());
        assume(m <= n as u64);
        let w = any::<usize>(); assume(w < n);
        let before = d[w];
        {
            let mut b: &mut [u8] = &mut *d;
            b.write_zeros(m);
            ensure!(b.len() == n - m as usize && (b.len() == 0 || b.as_ptr() as usize == p + m as usize), "the rest of the slice follows the zeros");
        }
        ensure!(d[w] == if (w as u64) < m { 0 } else { before }, "exactly the zeros asked for are written");
        reach!(m > 2 && w as u64 > m, "tail");
    }
    fn slice_reserve() {
        let d = any_bytes_mut::<16>();
        let m = any::<u64>();
        let n = d.len();
        let p = d.as_ptr() as usize;
        let mut b: &mut [u8] = d;
        ensure!(b.reserve(m).is_ok() == (m <= n as u64), "reserve succeeds exactly when it fits");
        ensure!(b.len() == n && b.as_ptr() as usize == p, "reserve writes nothing");
    }
    fn vec_write_bytes() {
        let mut d = any_vec::<16>();
        let v = any_bytes::<16>();
        let (n, m) = (d.len(), v.len());
        let w = any::<usize>(); assume(w < n + m);
        let before = if w < n { d[w] } else { 0 };
        WritableBuffer::write_bytes(&mut d, v);
        ensure!(d.len() == n + m, "length grows by the bytes given");
        ensure!(d[w] == if w < n { before } else { v[w - n] }, "old bytes kept, new bytes appended");
        reach!(n > 2 && w > n, "appended");
        core::mem::forget(d);
    }
    fn vec_reserve() {
        let mut d: Vec<u8> = Vec::new();
        let m = any::<u64>();
        assume(m < MAX_LEN as u64);
        ensure!(WritableBuffer::reserve(&mut d, m).is_ok(), "reserve succeeds");
        ensure!(d.is_empty() && d.capacity() as u64 >= m, "reserve writes nothing");
        core::mem::forget(d);
    }
    /// A reference, and a counting wrapper, write what the buffer behind writes and count it.
    fn counting_write_bytes() {
        let mut r = Rec::any();
        let v = any_bytes::<16>();
        let (w, len, at) = (r.w, r.len, r.at);
        let mut c = CountingBuffer::new(&mut r);
        let pre = any_below(9) as u64;
        c.write_zeros(pre);
        ensure!(c.count() == pre, "counts from zero");
        c.write_bytes(v);
        ensure!(c.count() == pre + v.len() as u64, "counts the bytes");
        let _ = c.into_inner();
        ensure!(r.len == len + pre + v.len() as u64, "length");
        ensure!(r.at == app(appz(at, w, len, pre), w, len + pre, v), "the bytes given reach the buffer behind");
    }
    fn counting_resize() {
        let mut r = Rec::any();
        let (w, len, at) = (r.w, r.len, r.at);
        let pre = any::<u32>() as u64;
        let to = any::<u64>();
        assume(pre <= to && to < MAX_LEN as u64);
        let mut c = CountingBuffer::new(&mut r);
        c.write_zeros(pre);
        c.resize(to);
        ensure!(c.count() == to, "resize ends at the new length");
        let _ = c.into_inner();
        ensure!(r.len == len + to && r.at == appz(at, w, len, to), "only zeros are appended, nothing is lost");
    }
    fn counting_write_align() {
        let mut r = Rec::any();
        let (w, len, at) = (r.w, r.len, r.at);
        let v = any_bytes::<16>();
        let k = any::<u8>(); assume(k < 40);
        let a = 1u64 << k;
        let mut c = CountingBuffer::new(&mut r);
        c.write_bytes(v);
        c.write_align(a);
        let n = c.count();
        ensure!(n & (a - 1) == 0 && n >= v.len() as u64 && n - (v.len() as u64) < a, "the smallest aligned length");
        let _ = c.into_inner();
        ensure!(r.len == len + n && r.at == appz(app(at, w, len, v), w, len + v.len() as u64, n - v.len() as u64), "padding is zero and nothing is lost");
        reach!(n > v.len() as u64, "padded");
    }
    fn counting_reserve() {
        let d = any_bytes_mut::<16>();
        let m = any::<u64>();
        let n = d.len();
        let mut c = CountingBuffer::new(d);
        ensure!(c.reserve(m).is_ok() == (m <= n as u64) && c.count() == 0, "reserve is the buffer's reserve and writes nothing");
    }
    fn streaming_write_bytes() {
        let mut r = Rec::any();
        let v = any_bytes::<16>();
        let (w, len, at) = (r.w, r.len, r.at);
        r.fail_at = any();
        let fails = len >= r.fail_at;
        let mut s = StreamingBuffer::new(r);
        ensure!(s.reserve(any()).is_ok(), "reserve");
        s.write_bytes(v);
        let e = s.result();
        ensure!(e.is_err() == fails, "an error of the writer is reported");
        core::mem::forget(e);
        let r = s.into_inner();
        if fails { ensure!(r.len == len && r.at == at, "nothing written") }
        else { ensure!(r.len == len + v.len() as u64 && r.at == app(at, w, len, v), "exactly the bytes given reach the writer"); }
    }
    /// An earlier error stays reported whatever is written afterwards, and nothing follows the failed write.
    fn streaming_write_after_error() {
        let v = any_bytes::<16>();
        let fails = any_bool();
        let mut s = StreamingBuffer::new(Once { fail: fails, bytes: 0 });
        s.write_bytes(v);
        s.write_bytes(v);
        let e = s.result();
        reach!(v.len() > 100, "a long write");
        ensure!(e.is_err() == fails || v.is_empty(), "an error of any write is reported");
        core::mem::forget(e);
        let r = s.into_inner();
        ensure!(r.bytes == if fails { 0 } else { 2 * v.len() as u64 }, "nothing is written after an error");
    }
    /// The provided `write_zeros`, as used by streaming buffers.  Bounded: up to 5000 zeros.
    [kani::unwind(6)]
    fn b_default_write_zeros() {
        let mut r = RecD(Rec::any());
        let (w, len, at) = (r.0.w, r.0.len, r.0.at);
        let n = any::<u64>(); assume(n <= 5000);
        r.write_zeros(n);
        ensure!(r.0.len == len + n && r.0.at == appz(at, w, len, n), "exactly n zeros are appended");
    }
    [kani::unwind(4)]
    fn b_streaming_write_zeros() {
        let r = Rec::any();
        let (w, len, at) = (r.w, r.len, r.at);
        let mut s = StreamingBuffer::new(r);
        let n = any::<u64>(); assume(n <= 3000);
        s.write_zeros(n);
        let e = s.result();
        ensure!(e.is_ok(), "no error");
        core::mem::forget(e);
        let r = s.into_inner();
        ensure!(r.len == len + n && r.at == appz(at, w, len, n), "exactly n zeros are appended");
    }
    fn write_pods() {
        let mut r = Rec::any();
        let (w, len, at) = (r.w, r.len, r.at);
        let e = any_endian();
        let (a, b, c) = (any::<u16>(), any::<u32>(), any::<u64>());
        r.write_u16(e, a);
        let (ab, bb, cb) = if e.is_big_endian() { (a.to_be_bytes(), b.to_be_bytes(), c.to_be_bytes()) } else { (a.to_le_bytes(), b.to_le_bytes(), c.to_le_bytes()) };
        let x = app(at, w, len, &ab);
        ensure!(r.len == len + 2 && r.at == x, "u16 in the byte order");
        r.write_u32(e, b);
        let x = app(x, w, len + 2, &bb);
        ensure!(r.len == len + 6 && r.at == x, "u32 in the byte order");
        r.write_u64(e, c);
        let x = app(x, w, len + 6, &cb);
        ensure!(r.len == len + 14 && r.at == x, "u64 in the byte order");
    }
    fn write_pod_slice() {
        let mut r = Rec::any();
        let (w, len, at) = (r.w, r.len, r.at);
        let d = any_bytes::<16>();
        let n = any::<usize>();
        if let Ok((s, _)) = object::pod::slice_from_bytes::<object::U32<object::LittleEndian>>(d, n) {
            r.write_pod_slice(s);
            ensure!(r.len == len + 4 * n as u64 && r.at == app(at, w, len, &d[..4 * n]), "exactly the records' bytes");
        }
    }
}

#[cfg(not(kani))]
fn ops(b: &mut CountingBuffer<&mut dyn WritableBuffer>, script: &[(u8, u64, Vec<u8>)]) {
    for (k, n, v) in script {
        match k {
            0 => b.write_bytes(v),
            1 => b.write_zeros(*n),
            2 => { let c = b.count(); b.resize(c + n) }
            3 => b.write_align(1 << (n % 13)),
            _ => b.write_u32(Endianness::Big, *n as u32),
        }
    }
}
/// A writer whose `n`th write fails.
#[cfg(not(kani))]
struct Flaky(Vec<u8>, usize, bool);
#[cfg(not(kani))]
impl io::Write for Flaky {
    fn write(&mut self, v: &[u8]) -> io::Result<usize> {
        if self.1 == 0 && !self.2 { self.2 = true; return Err(io::ErrorKind::Other.into()) }
        self.1 = self.1.saturating_sub(1);
        let n = v.len().min(700);
        self.0.extend_from_slice(&v[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// A writer that accepts a few bytes at a time.
#[cfg(not(kani))]
struct Short(Vec<u8>, usize);
#[cfg(not(kani))]
impl io::Write for Short {
    fn write(&mut self, v: &[u8]) -> io::Result<usize> { let n = v.len().min(self.1); self.0.extend_from_slice(&v[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

natives! {
    /// The same operations on every buffer kind, against a model.
    fn same_bytes() {
        let mut script = Vec::new();
        for _ in 0..rnd(9) {
            let v: Vec<u8> = (0..rnd(40)).map(|_| any()).collect();
            let n = match rnd(4) { 0 => rnd(10), 1 => rnd(5000), 2 => 1024 * rnd(5), _ => rnd(64) };
            script.push((rnd(5) as u8, n, v));
        }
        let mut model: Vec<u8> = Vec::new();
        for (k, n, v) in &script {
            match k {
                0 => model.extend(v),
                1 | 2 => { for _ in 0..*n { model.push(0) } }
                3 => while model.len() as u64 % (1 << (n % 13)) != 0 { model.push(0) },
                _ => model.extend((*n as u32).to_be_bytes()),
            }
        }
        let mut vec: Vec<u8> = Vec::new();
        let count = { let mut c = CountingBuffer::new(&mut vec as &mut dyn WritableBuffer); ops(&mut c, &script); c.count() };
        ensure!(vec == model && count == model.len() as u64, "in-memory buffer");
        for k in [1, 3, 1 << 20] {
            let mut s = StreamingBuffer::new(Short(Vec::new(), k));
            let count = { let mut c = CountingBuffer::new(s.as_writable()); ops(&mut c, &script); c.count() };
            ensure!(s.result().is_ok() && s.flush().is_ok() && count == model.len() as u64, "streaming buffer without error");
            ensure!(s.into_inner().0 == model, "streaming buffer");
        }
        // one write fails, later ones would succeed
        let mut s = StreamingBuffer::new(Flaky(Vec::new(), rnd(6) as usize, false));
        { let mut c = CountingBuffer::new(s.as_writable()); ops(&mut c, &script); }
        let err = if rnd(2) == 0 { s.result().is_err() } else { s.flush().is_err() };
        let Flaky(got, _, failed) = s.into_inner();
        ensure!(err == failed, "an error of any write is reported");
        ensure!(if failed { model.starts_with(&got) } else { got == model }, "nothing is written after an error");
        let mut fixed = vec![0xa5u8; model.len() + 3];
        {
            let mut b: &mut [u8] = &mut fixed;
            ensure!(b.reserve(model.len() as u64).is_ok() && b.reserve(model.len() as u64 + 4).is_err(), "reserve on a fixed buffer");
            let mut c = CountingBuffer::new(&mut b as &mut dyn WritableBuffer);
            ops(&mut c, &script);
            ensure!(c.count() == model.len() as u64, "fixed buffer count");
        }
        ensure!(fixed[..model.len()] == model[..] && fixed[model.len()..] == [0xa5; 3], "fixed buffer");
    }
    /// A whole object written to every buffer kind.
    fn same_objects() {
        use object::{write, Architecture as A, BinaryFormat as F, SectionKind, SymbolKind, SymbolScope, SymbolFlags};
        let (f, a) = [(F::Elf, A::X86_64), (F::Elf, A::I386), (F::MachO, A::Aarch64), (F::Coff, A::X86_64), (F::Xcoff, A::PowerPc64)][rnd(5) as usize];
        let build = |seed: &[u64]| {
            let mut o = write::Object::new(f, a, if f == F::Xcoff { Endianness::Big } else { Endianness::Little });
            for (i, x) in seed.iter().enumerate() {
                let s = o.add_section(if f == F::MachO { o.segment_name(write::StandardSegment::Text).to_vec() } else { Vec::new() }, format!("s{i}").into_bytes(), if x % 3 == 0 { SectionKind::Data } else { SectionKind::Text });
                let d = vec![*x as u8; (x % 3000) as usize];
                let off = o.append_section_data(s, &d, 1 << (x % 5));
                o.add_symbol(write::Symbol { name: format!("sym{}", x % 1000 + i as u64).into_bytes(), value: off, size: d.len() as u64, kind: SymbolKind::Text, scope: SymbolScope::Linkage, weak: false, section: write::SymbolSection::Section(s), flags: SymbolFlags::None });
            }
            o
        };
        let seed: Vec<u64> = (0..rnd(5)).map(|_| any()).collect();
        let Ok(v) = build(&seed).write() else { return };
        let mut out = Vec::new();
        ensure!(build(&seed).write_stream(&mut out).is_ok() && out == v, "streamed object");
        let mut short = Short(Vec::new(), 7);
        ensure!(build(&seed).write_stream(&mut short).is_ok() && short.0 == v, "streamed object, short writes");
        let mut flaky = Flaky(Vec::new(), rnd(9) as usize, false);
        let r = build(&seed).write_stream(&mut flaky);
        ensure!(r.is_err() == flaky.2 && v.starts_with(&flaky.0), "an error of any write is reported");
        let mut vec: Vec<u8> = Vec::new();
        ensure!(build(&seed).emit(&mut vec).is_ok() && vec == v, "emitted object");
        let mut fixed = vec![0xa5u8; v.len() + 2];
        { let mut b: &mut [u8] = &mut fixed; ensure!(build(&seed).emit(&mut b).is_ok(), "fixed buffer"); }
        ensure!(fixed[..v.len()] == v[..] && fixed[v.len()..] == [0xa5; 2], "object in a fixed buffer");
        let mut fixed = vec![0u8; v.len().saturating_sub(1)];
        { let mut b: &mut [u8] = &mut fixed; ensure!(build(&seed).emit(&mut b).is_err(), "too small a fixed buffer is refused"); }
    }
}
