//! Zero-copy typed views.
use crate::shim::*;
use ::memchr_dep as mc;
use object::pod::{self, Pod};
use object::read::Bytes;
use object::{elf, pe, LittleEndian as LE, BigEndian as BE};

fn addr<T>(p: *const T) -> usize {
    p as usize
}

/// Contract of the `from_bytes` family for one element type.
fn cast_contract<T: Pod>() {
    let all = any_bytes::<24>();
    let k = any::<usize>();
    assume(k <= all.len());
    let d = &all[k..]; // every alignment of the start
    let size = core::mem::size_of::<T>();
    let aligned = addr(d.as_ptr()) % core::mem::align_of::<T>() == 0;
    match pod::from_bytes::<T>(d) {
        Ok((v, tail)) => {
            reach!(true, "from_bytes accepts");
            ensure!(d.len() >= size && aligned, "from_bytes: accepted only if long enough and aligned");
            ensure!(addr(v) == addr(d.as_ptr()), "from_bytes: view is the head of the input");
            ensure!(is_at(tail, d, size, d.len() - size), "from_bytes: tail is everything after");
            ensure!(is_at(pod::bytes_of(v), d, 0, size), "bytes_of: inverse of from_bytes");
        }
        Err(()) => {
            reach!(true, "from_bytes rejects");
            ensure!(d.len() < size || !aligned, "from_bytes: rejected only if short or misaligned")
        }
    }
    let count = any::<usize>();
    let total = count as u128 * size as u128;
    match pod::slice_from_bytes::<T>(d, count) {
        Ok((v, tail)) => {
            reach!(count > 1, "slice_from_bytes accepts");
            ensure!(total <= d.len() as u128 && aligned, "slice_from_bytes: accepted only if long enough and aligned");
            ensure!(v.len() == count, "slice_from_bytes: exactly count elements");
            ensure!(addr(v.as_ptr()) == addr(d.as_ptr()), "slice_from_bytes: view is the head of the input");
            ensure!(is_at(tail, d, total as usize, d.len() - total as usize), "slice_from_bytes: tail is everything after");
            ensure!(is_at(pod::bytes_of_slice(v), d, 0, total as usize), "bytes_of_slice: inverse of slice_from_bytes");
        }
        Err(()) => {
            reach!(true, "slice_from_bytes rejects");
            ensure!(total > d.len() as u128 || !aligned, "slice_from_bytes: rejected only if short or misaligned")
        }
    }
}

fn cast_all_contract<T: Pod>() {
    let all = any_bytes::<24>();
    let k = any::<usize>();
    assume(k <= all.len());
    let d = &all[k..];
    let size = core::mem::size_of::<T>();
    let aligned = addr(d.as_ptr()) % core::mem::align_of::<T>() == 0;
    let whole = d.len() % size == 0;
    match pod::slice_from_all_bytes::<T>(d) {
        Ok(v) => {
            reach!(v.len() > 1, "slice_from_all_bytes accepts");
            ensure!(whole && aligned, "slice_from_all_bytes: accepted only exact multiples");
            ensure!(v.len() * size == d.len() && addr(v.as_ptr()) == addr(d.as_ptr()), "slice_from_all_bytes: the whole input");
        }
        Err(()) => ensure!(!whole || !aligned, "slice_from_all_bytes: rejected only if partial or misaligned"),
    }
}

fn cast_mut_contract<T: Pod>() {
    let all = any_bytes_mut::<24>();
    let k = any::<usize>();
    assume(k <= all.len());
    let d = &mut all[k..];
    let (p, n) = (addr(d.as_ptr()), d.len());
    let size = core::mem::size_of::<T>();
    let aligned = p % core::mem::align_of::<T>() == 0;
    match pod::from_bytes_mut::<T>(d) {
        Ok((v, tail)) => {
            reach!(true, "from_bytes_mut accepts");
            ensure!(n >= size && aligned, "from_bytes_mut: accepted only if long enough and aligned");
            ensure!(addr(v as *const T) == p, "from_bytes_mut: view is the head");
            ensure!(tail.len() == n - size && (tail.is_empty() || addr(tail.as_ptr()) == p + size), "from_bytes_mut: tail is everything after");
            let b = pod::bytes_of_mut(v);
            ensure!(b.len() == size && addr(b.as_ptr()) == p, "bytes_of_mut: inverse");
        }
        Err(()) => ensure!(n < size || !aligned, "from_bytes_mut: rejected only if short or misaligned"),
    }
    let d = &mut all[k..];
    let count = any::<usize>();
    let total = count as u128 * size as u128;
    match pod::slice_from_bytes_mut::<T>(d, count) {
        Ok((v, tail)) => {
            reach!(count > 1, "slice_from_bytes_mut accepts");
            ensure!(total <= n as u128 && aligned, "slice_from_bytes_mut: accepted only if long enough and aligned");
            ensure!(v.len() == count && addr(v.as_ptr()) == p, "slice_from_bytes_mut: count elements at the head");
            ensure!(tail.len() as u128 == n as u128 - total && (tail.is_empty() || addr(tail.as_ptr()) == p + total as usize), "slice_from_bytes_mut: tail is everything after");
            let b = pod::bytes_of_slice_mut(v);
            ensure!(b.len() as u128 == total && (b.is_empty() || addr(b.as_ptr()) == p), "bytes_of_slice_mut: inverse");
        }
        Err(()) => ensure!(total > n as u128 || !aligned, "slice_from_bytes_mut: rejected only if short or misaligned"),
    }
    let d = &mut all[k..];
    match pod::slice_from_all_bytes_mut::<T>(d) {
        Ok(v) => ensure!(n % size == 0 && aligned && v.len() * size == n && addr(v.as_ptr()) == p, "slice_from_all_bytes_mut: the whole input"),
        Err(()) => ensure!(n % size != 0 || !aligned, "slice_from_all_bytes_mut: rejected only if partial or misaligned"),
    }
}

/// Contract of the byte cursor: on success consumes exactly what it returned, on failure is empty.
fn cursor_bytes_contract() {
    let all = any_bytes::<24>();
    let k = any::<usize>();
    assume(k <= all.len());
    let d = &all[k..];
    let n = d.len();
    let c = any::<usize>();

    let mut b = Bytes(d);
    ensure!(b.len() == n && b.is_empty() == (n == 0), "cursor length");
    let r = b.skip(c);
    ensure!(r.is_ok() == (c <= n), "skip: fails exactly when too long");
    ensure!(if c <= n { is_at(b.0, d, c, n - c) } else { b.0.is_empty() }, "skip: cursor after exactly c bytes, empty on error");

    let mut b = Bytes(d);
    let r = b.read_bytes(c);
    ensure!(r.is_ok() == (c <= n), "read_bytes: fails exactly when too long");
    match r {
        Ok(h) => {
            reach!(c > 0, "read_bytes accepts");
            ensure!(is_at(h.0, d, 0, c) && is_at(b.0, d, c, n - c), "read_bytes: returns and consumes exactly c bytes")
        }
        Err(()) => ensure!(b.0.is_empty(), "read_bytes: empty on error"),
    }

    let o = any::<usize>();
    let fits = o <= n && c <= n - o;
    match Bytes(d).read_bytes_at(o, c) {
        Ok(h) => ensure!(fits && is_at(h.0, d, o, c), "read_bytes_at: exactly the bytes asked for"),
        Err(()) => ensure!(!fits, "read_bytes_at: fails only out of range"),
    }

}

fn cursor_read_contract<T: Pod>() {
    let all = any_bytes::<24>();
    let k = any::<usize>();
    assume(k <= all.len());
    let d = &all[k..];
    let n = d.len();
    let size = core::mem::size_of::<T>();
    let aligned = addr(d.as_ptr()) % core::mem::align_of::<T>() == 0;
    let o = any::<usize>();
    let mut b = Bytes(d);
    match b.read::<T>() {
        Ok(v) => {
            reach!(true, "read accepts");
            ensure!(n >= size && aligned && addr(v) == addr(d.as_ptr()), "read: head of the input");
            ensure!(is_at(b.0, d, size, n - size), "read: consumes exactly the record");
        }
        Err(()) => ensure!((n < size || !aligned) && b.0.is_empty(), "read: fails only if short, empty on error"),
    }
    let al_o = addr(d.as_ptr()).wrapping_add(o) % core::mem::align_of::<T>() == 0;
    match Bytes(d).read_at::<T>(o) {
        Ok(v) => ensure!(o <= n && n - o >= size && al_o && addr(v) == addr(d.as_ptr()) + o, "read_at: record at the offset"),
        Err(()) => ensure!(o > n || n - o < size || !al_o, "read_at: fails only out of range"),
    }

}

fn cursor_slice_contract<T: Pod>() {
    let all = any_bytes::<24>();
    let k = any::<usize>();
    assume(k <= all.len());
    let d = &all[k..];
    let n = d.len();
    let size = core::mem::size_of::<T>();
    let aligned = addr(d.as_ptr()) % core::mem::align_of::<T>() == 0;
    let c = any::<usize>();
    let o = any::<usize>();
    let al_o = addr(d.as_ptr()).wrapping_add(o) % core::mem::align_of::<T>() == 0;
    let total = c as u128 * size as u128;
    let mut b = Bytes(d);
    match b.read_slice::<T>(c) {
        Ok(v) => {
            reach!(c > 0, "read_slice accepts");
            ensure!(total <= n as u128 && aligned && v.len() == c && addr(v.as_ptr()) == addr(d.as_ptr()), "read_slice: count records at the head");
            ensure!(is_at(b.0, d, total as usize, n - total as usize), "read_slice: consumes exactly the records");
        }
        Err(()) => ensure!((total > n as u128 || !aligned) && b.0.is_empty(), "read_slice: fails only if short, empty on error"),
    }
    match Bytes(d).read_slice_at::<T>(o, c) {
        Ok(v) => ensure!(o <= n && total <= (n - o) as u128 && al_o && v.len() == c && addr(v.as_ptr()) == addr(d.as_ptr()) + o, "read_slice_at: records at the offset"),
        Err(()) => ensure!(o > n || total > (n - o) as u128 || !al_o, "read_slice_at: fails only out of range"),
    }
}

harnesses! {
    fn cast_u8() { cast_contract::<u8>() }
    fn cast_u16() { cast_contract::<u16>() }
    fn cast_arr3() { cast_contract::<[u8; 3]>() }
    fn cast_sym64() { cast_contract::<elf::Sym64<LE>>() }
    fn cast_coff_symbol() { cast_contract::<pe::ImageSymbol>() }
    fn cast_all_u32() { cast_all_contract::<u32>() }
    fn cast_all_arr3() { cast_all_contract::<[u8; 3]>() }
    fn cast_mut_u16() { cast_mut_contract::<u16>() }
    fn cast_mut_arr3() { cast_mut_contract::<[u8; 3]>() }
    fn cursor_bytes() { cursor_bytes_contract() }
    fn cursor_read_u32() { cursor_read_contract::<u32>() }
    fn cursor_read_nhdr() { cursor_read_contract::<elf::NoteHeader32<BE>>() }
    fn cursor_slice_u32() { cursor_slice_contract::<u32>() }
    fn cursor_slice_arr3() { cursor_slice_contract::<[u8; 3]>() }
    /// Delimited read on the cursor.
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn cursor_string() {
        let d = any_bytes::<16>();
        let n = d.len();
        let w = witness();
        let mut b = Bytes(d);
        match b.read_string() {
            Ok(s) => {
                reach!(s.len() > 1, "read_string accepts");
                ensure!(s.len() < n && d[s.len()] == 0, "read_string: stops at a zero byte");
                ensure!(!(w < s.len()) || d[w] != 0, "read_string: stops at the first zero byte");
                ensure!(is_at(s, d, 0, s.len()), "read_string: head of the input");
                ensure!(is_at(b.0, d, s.len() + 1, n - s.len() - 1), "read_string: consumes the terminator");
            }
            Err(()) => {
                ensure!(!(w < n) || d[w] != 0, "read_string: fails only without terminator");
                ensure!(b.0.is_empty(), "read_string: empty on error");
            }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn cursor_string_at() {
        let d = any_bytes::<16>();
        let n = d.len();
        let o = any::<usize>();
        let w = witness();
        match Bytes(d).read_string_at(o) {
            Ok(s) => {
                reach!(s.len() > 1, "read_string_at accepts");
                ensure!(o < n && s.len() < n - o && d[o + s.len()] == 0, "read_string_at: stops at a zero byte");
                ensure!(!(w < s.len()) || d[o + w] != 0, "read_string_at: stops at the first zero byte");
                ensure!(is_at(s, d, o, s.len()), "read_string_at: starts at the offset");
            }
            Err(()) => ensure!(o > n || !(w < n - o) || d[o + w] != 0, "read_string_at: fails only without terminator in range"),
        }
    }
}

natives! {}
