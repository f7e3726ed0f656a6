//! Written string tables.
use crate::shim::*;
use object::write::{StringTable, WritableBuffer};

/// The table and its sort as in /repo, over a list with the contract of the hash set.
pub mod x {
    #[cfg(x_strtab)]
    include!(concat!(env!("OUT_DIR"), "/strtab.rs"));
}
fn has_at(b: &[u8], base: u64, off: u64, s: &[u8]) -> bool {
    if off < base { return false; }
    let o = (off - base) as usize;
    if o + s.len() >= b.len() { return false; }
    let mut i = 0;
    while i < s.len() { if b[o + i] != s[i] { return false; } i += 1; }
    b[o + s.len()] == 0
}
fn str_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
/// A string of at most `max` bytes.
fn any_str(a: &[u8; 2], max: usize) -> &[u8] {
    let n = any_below(max + 1);
    assume(a[0] != 0 && a[1] != 0);
    &a[..n]
}
#[cfg(x_strtab)]
fn two(in_order: bool) {
    let base = any::<u32>() & 7;
    let (a, b) = (any_array::<2>(), any_array::<2>());
    let (s, t) = (any_str(&a, if in_order { 2 } else { 1 }), any_str(&b, if in_order { 2 } else { 1 }));
    let mut tab = if in_order { x::StringTable::new_in_order(base) } else { x::StringTable::new() };
    let i = tab.add(s);
    let j = tab.add(t);
    let k = tab.add(s);
    ensure!(k == i && (i == j) == str_eq(s, t), "the same string is one entry, other strings are others");
    ensure!(str_eq(tab.get_string(i), s) && str_eq(tab.get_string(j), t) && tab.get_id(t) == j, "entries keep their strings");
    // the byte at an arbitrary offset of the output stands for all of them
    let mut out = x::Rec { w: any::<u8>() as u64, len: 0, at: None };
    let n = match tab.write(&mut out, base) { Ok(n) => n, Err(_) => { ensure!(false, "the table is written"); return } };
    ensure!(n as u64 == base as u64 + out.len, "the reported size is the bytes written plus the base");
    let at = |off: u64, s: &[u8]| {
        off >= base as u64 && off - (base as u64) + (s.len() as u64) < out.len && {
            let o = off - base as u64;
            out.w < o || out.w > o + s.len() as u64 || out.at == Some(if out.w == o + s.len() as u64 { 0 } else { s[(out.w - o) as usize] })
        }
    };
    ensure!(at(tab.get_offset(i) as u64, s), "the first string is at its offset, terminated");
    ensure!(at(tab.get_offset(j) as u64, t), "the second string is at its offset, terminated");
    reach!(in_order || out.len < (s.len() + t.len() + 2) as u64 && !str_eq(s, t), "a shared suffix");
    core::mem::forget(tab);
}

harnesses! {
    /// Bounded: two strings of at most two arbitrary bytes.
    [kani::unwind(6)]
    fn b_two_in_order() {
        #[cfg(x_strtab)] two(true);
        #[cfg(not(x_strtab))] reach!(false, "extraction lost the string table");
    }
}

#[cfg(not(kani))]
fn check_table(strings: &[Vec<u8>], base: u32, in_order: bool) {
    let mut tab = if in_order { StringTable::new_in_order(base) } else { StringTable::new() };
    ensure!(tab.is_empty(), "starts empty");
    let ids: Vec<_> = strings.iter().map(|s| tab.add(s)).collect();
    for (n, s) in strings.iter().enumerate() {
        for (m, t) in strings.iter().enumerate() { ensure!((ids[n] == ids[m]) == (s == t), "one entry per distinct string"); }
        ensure!(tab.get_string(ids[n]) == &s[..] && tab.get_id(s) == ids[n], "entries keep their strings");
    }
    let mut out: Vec<u8> = Vec::new();
    let size = tab.write(&mut out, base).unwrap();
    ensure!(size as u64 == base as u64 + out.len() as u64, "the reported size is the bytes written plus the base");
    for (n, s) in strings.iter().enumerate() {
        ensure!(has_at(&out, base as u64, tab.get_offset(ids[n]) as u64, s), "every string is at its offset, terminated");
    }
    if in_order {
        let mut want = Vec::new();
        for (n, s) in strings.iter().enumerate() { if !strings[..n].contains(s) { want.extend(s); want.push(0); } }
        ensure!(out == want, "strings in the order added");
    } else if !strings.is_empty() {
        let mut b2: Vec<u8> = Vec::new();
        ensure!(tab.write(&mut b2, base).is_err(), "a second write is refused");
    }
}

natives! {
    /// Every list of three strings of at most two letters, sorted and in order.
    fn small_tables() {
        let base = choose(3) as u32 * 2;
        let in_order = choose(2) == 1;
        let n = choose(4);
        let strings: Vec<Vec<u8>> = (0..n).map(|_| { let k = choose(7); [&b""[..], b"a", b"b", b"aa", b"ab", b"ba", b"bb"][k].to_vec() }).collect();
        check_table(&strings, base, in_order);
    }
    fn random_tables() {
        let base = rnd(8) as u32;
        let in_order = rnd(3) == 0;
        let n = rnd(if rnd(10) == 0 { 200 } else { 12 });
        let letters = 1 + rnd(4);
        let mut strings: Vec<Vec<u8>> = Vec::new();
        for _ in 0..n {
            let mut s: Vec<u8> = if !strings.is_empty() && rnd(2) == 0 { let t = &strings[rnd(strings.len() as u64) as usize]; t[rnd(t.len() as u64 + 1) as usize..].to_vec() } else { Vec::new() };
            let mut pre: Vec<u8> = (0..rnd(5)).map(|_| match rnd(8) { 0 => 255, 1 => 1, 2 => 128, _ => 97 + rnd(letters) as u8 }).collect();
            pre.append(&mut s);
            strings.push(pre);
        }
        check_table(&strings, base, in_order);
    }
    /// Sizes at which offsets stop fitting are refused or exact.
    fn refused() {
        let mut t = StringTable::new();
        let big = vec![b'x'; 3];
        t.add(&big);
        let mut out = Vec::new();
        let base = u32::MAX - 5 + choose(6) as u32;
        match t.write(&mut out, base) {
            Ok(n) => ensure!(n as u64 == base as u64 + 4, "size"),
            Err(_) => ensure!(base as u64 + 4 > u32::MAX as u64, "refused only when the size does not fit"),
        }
    }
    /// The encoders' and builders' string tables.
    fn elf_tables() {
        let n = choose(4);
        let strings: Vec<Vec<u8>> = (0..n).map(|_| { let k = choose(7); [&b"foo"[..], b"a", b"b", b"aa", b"xfoo", b"ba", b"bb"][k].to_vec() }).collect();
        let mut tab = StringTable::new();
        let ids: Vec<_> = strings.iter().map(|s| tab.add(s)).collect();
        let enc = object::write::elf::Encoder::new(object::Endianness::Little, true, object::elf::EM_X86_64);
        let mut out = Vec::new();
        let size = enc.strtab(&mut out, &mut tab).unwrap();
        ensure!(out.len() as u64 == size as u64, "reported size");
        for (s, i) in strings.iter().zip(ids) {
            let o = tab.get_offset(i) as usize;
            ensure!(out[o..].starts_with(s) && out[o + s.len()] == 0, "every string is at its offset");
        }
    }
}
