//! ELF relocation decoding.
use crate::shim::*;
use object::elf::{self, RelocationType};
use object::read::elf::{Crel, CrelIterator, FileHeader, Rel, Rela, Relr, RelrIterator};
use object::read::Bytes;
use object::{BigEndian as BE, Endianness, LittleEndian as LE, I32, I64, U32, U64};

macro_rules! info32 {
    ($t:ident, $e:ident) => {{
        let (sym, typ) = (any::<u32>(), any::<u32>());
        let mut r = any_pod!(elf::$t<Endianness>);
        let w = r.r_info.get($e);
        ensure!(r.r_sym($e) == w >> 8 && r.r_type($e).0 == w & 0xff, "r_info splits at bit 8");
        assume(sym < 1 << 24 && typ < 256);
        r.set_r_info($e, sym, RelocationType(typ));
        ensure!(r.r_info.get($e) == sym << 8 | typ, "r_info packs at bit 8");
        ensure!(r.r_sym($e) == sym && r.r_type($e).0 == typ, "round trip");
        r
    }};
}

macro_rules! relr_first {
    ($h:ident, $r:ident, $u:ident, $i:ident, $size:literal, $bits:literal) => {{
        let e = LE;
        let (a, b) = (any::<$i>(), any::<$i>());
        assume(a & 1 == 0 && b & 1 == 1);
        let data = [elf::$r($u::new(e, a)), elf::$r($u::new(e, b))];
        let mut it = RelrIterator::<elf::$h<LE>>::new(e, &data);
        ensure!(it.next() == Some(a), "an even word is its own address");
        let got = it.next();
        let v = (b >> 1) as u64;
        let want = if v == 0 { None } else { Some(a.wrapping_add($size * (1 + v.trailing_zeros() as $i))) };
        ensure!(got == want, "first set bit of the bitmap");
    }};
}
macro_rules! relr_next {
    ($r:ident, $i:ident, $size:literal) => {{
        let (o, b) = (any::<$i>(), any::<$i>());
        let (mut x, mut y) = (o, b);
        let r = <elf::$r<LE> as Relr>::next(&mut x, &mut y);
        ensure!(x == o.wrapping_add($size) && y == b >> 1, "advances one word and one bit");
        ensure!(r == if b & 2 != 0 { Some(x) } else { None }, "yields exactly the set bits");
    }};
}

/// The repository's CREL iterator, extracted on every build (see x/crel.rs).
#[cfg(x_crel)]
pub mod x {
    include!(concat!(env!("OUT_DIR"), "/crel.rs"));
    fn sym() -> u64 { crate::shim::any() }
}
/// One step from an arbitrary state: accumulates the deltas that the entry's flags announce.
#[cfg(x_crel)]
fn crel_step() {
    let (count, shift, rela) = (any::<usize>(), any::<u8>() & 3, any_bool());
    let fb = if rela { 3 } else { 2 };
    let s0 = x::Crel { r_offset: any(), r_sym: any(), r_type: x::elf::RelocationType(any()), r_addend: if rela { any() } else { 0 } };
    let mut it = x::CrelIterator::arbitrary(count, fb, shift, rela, s0);
    unsafe { x::N = 0 };
    let call = |k: usize| unsafe { x::CALLS[k] };
    ensure!(it.len() == count && it.is_empty() == (count == 0) && it.is_rela() == rela, "remaining count");
    let e = it.next();
    if count == 0 { ensure!(e.is_none() && unsafe { x::N } == 0, "no more entries than declared"); return }
    let e = e.unwrap();
    let mut k = 0;
    let mut ok = true;
    let (mut delta, mut s) = (0u64, s0);
    let mut b = 0u8;
    macro_rules! field { ($cond:expr, $kind:literal, $v:ident => $use:expr) => {
        if ok && $cond {
            let c = call(k);
            k += 1;
            ensure!(c.kind == $kind, "fields are read in order, with their signedness");
            if c.ok { let $v = c.val; $use; } else { ok = false; }
        }
    } }
    field!(true, 0, v => { b = v as u8; delta = (b as u64 & 0x7f) >> fb });
    field!(b & 0x80 != 0, 1, v => delta = delta.wrapping_add(v << (7 - fb)));
    field!(b & 1 != 0, 2, v => s.r_sym = s.r_sym.wrapping_add(v as u32));
    field!(b & 2 != 0, 2, v => s.r_type.0 = s.r_type.0.wrapping_add(v as u32));
    field!(rela && b & 4 != 0, 2, v => s.r_addend = s.r_addend.wrapping_add(v as i64));
    s.r_offset = s0.r_offset.wrapping_add(delta << shift);
    ensure!(unsafe { x::N } == k, "nothing else is read");
    match e {
        Ok(c) => {
            reach!(rela && k == 5, "every field present");
            ensure!(ok, "a truncated entry is an error");
            ensure!(c.r_offset == s.r_offset, "offset is the sum of the deltas, shifted");
            ensure!(c.r_sym == s.r_sym && c.r_type == s.r_type, "symbol and type are the sums of the deltas");
            ensure!(c.r_addend == s.r_addend, "addend is the sum of the deltas");
            let t = it.state();
            ensure!(t.r_offset == c.r_offset && t.r_sym == c.r_sym && t.r_type == c.r_type && t.r_addend == c.r_addend, "the next entry accumulates onto this one");
            ensure!(it.len() == count - 1, "one entry fewer remains");
            ensure!(it.hdr() == (fb, shift, rela), "the header stays");
        }
        Err(_) => { reach!(true, "truncated"); ensure!(!ok, "a whole entry is decoded"); ensure!(it.next().is_none(), "stops after an error") }
    }
}
#[cfg(x_crel)]
fn crel_header() {
    unsafe { x::N = 0 };
    let r = x::CrelIterator::new(&[]);
    let h = unsafe { x::CALLS[0] };
    ensure!(unsafe { x::N } == 1 && h.kind == 1, "the header is one unsigned number");
    match r {
        Ok(it) => {
            ensure!(h.ok, "a bad header number is an error");
            ensure!(it.len() as u64 == h.val >> 3, "count");
            ensure!(it.hdr() == (if h.val & 4 != 0 { 3 } else { 2 }, (h.val & 3) as u8, h.val & 4 != 0), "flag bits, shift and addend bit");
            let t = it.state();
            ensure!(t.r_offset == 0 && t.r_sym == 0 && t.r_type.0 == 0 && t.r_addend == 0, "accumulators start at zero");
        }
        Err(_) => ensure!(!h.ok, "only a bad header number fails"),
    }
}
#[cfg(not(x_crel))]
fn crel_step() { reach!(false, "extraction lost; the native stand-in remains") }
#[cfg(not(x_crel))]
fn crel_header() { reach!(false, "extraction lost; the native stand-in remains") }

harnesses! {
    fn crel_entry() { crel_step() }
    fn crel_start() { crel_header() }
    fn rel32_info() {
        let e = any_endian();
        let r = info32!(Rel32, e);
        let c = Crel::from_rel(&r, e);
        ensure!(c.r_offset == r.r_offset.get(e) as u64 && c.r_sym == r.r_sym(e) && c.r_type == r.r_type(e) && c.r_addend == 0, "common form of a rel entry");
        let s = Rel::symbol(&r, e);
        ensure!(s.map(|s| s.0) == if r.r_sym(e) == 0 { None } else { Some(r.r_sym(e) as usize) }, "symbol zero is no symbol");
    }
    fn rela32_info() {
        let e = any_endian();
        let r = info32!(Rela32, e);
        let m = any_bool();
        let c = Crel::from_rela(&r, e, m);
        ensure!(c.r_offset == r.r_offset.get(e) as u64 && c.r_sym == r.r_sym(e) && c.r_type == r.r_type(e) && c.r_addend == r.r_addend.get(e) as i64, "common form of a rela entry");
        let s = Rela::symbol(&r, e, m);
        ensure!(s.map(|s| s.0) == if r.r_sym(e) == 0 { None } else { Some(r.r_sym(e) as usize) }, "symbol zero is no symbol");
        let x = any_pod!(elf::Rel32<Endianness>);
        let y = elf::Rela32::from(x);
        ensure!(y.r_offset == x.r_offset && y.r_info == x.r_info && y.r_addend.get(e) == 0, "rel to rela keeps the entry");
    }
    fn rel64_info() {
        let e = any_endian();
        let (sym, typ) = (any::<u32>(), any::<u32>());
        let mut r = any_pod!(elf::Rel64<Endianness>);
        let w = r.r_info.get(e);
        ensure!(r.r_sym(e) as u64 == w >> 32 && r.r_type(e).0 == w as u32, "r_info splits at bit 32");
        r.set_r_info(e, sym, RelocationType(typ));
        ensure!(r.r_info.get(e) == (sym as u64) << 32 | typ as u64, "r_info packs at bit 32");
        ensure!(r.r_sym(e) == sym && r.r_type(e).0 == typ, "round trip");
        let c = Crel::from_rel(&r, e);
        ensure!(c.r_offset == r.r_offset.get(e) && c.r_sym == sym && c.r_type.0 == typ && c.r_addend == 0, "common form of a rel entry");
    }
    fn rela64_info() {
        let (e, mips) = (any_endian(), any_bool());
        assume(!mips || e == Endianness::Little);
        let (sym, typ) = (any::<u32>(), any::<u32>());
        let mut r = any_pod!(elf::Rela64<Endianness>);
        r.set_r_info(e, mips, sym, RelocationType(typ));
        let b = object::pod::bytes_of(&r.r_info);
        let (s, t) = (sym.to_le_bytes(), typ.to_le_bytes());
        let want = if mips {
            // r_sym, r_ssym, r_type3, r_type2, r_type
            [s[0], s[1], s[2], s[3], t[3], t[2], t[1], t[0]]
        } else if e == Endianness::Little {
            [t[0], t[1], t[2], t[3], s[0], s[1], s[2], s[3]]
        } else {
            [s[3], s[2], s[1], s[0], t[3], t[2], t[1], t[0]]
        };
        let mut i = 0;
        while i < 8 { ensure!(b[i] == want[i], "r_info bytes are those of the format"); i += 1; }
        ensure!(r.r_sym(e, mips) == sym && r.r_type(e, mips).0 == typ, "round trip");
        let c = Crel::from_rela(&r, e, mips);
        ensure!(c.r_offset == r.r_offset.get(e) && c.r_sym == sym && c.r_type.0 == typ && c.r_addend == r.r_addend.get(e), "common form of a rela entry");
        ensure!(Rela::r_info(&r, e, mips) == (sym as u64) << 32 | typ as u64, "r_info in the common layout");
    }
    fn mips64el_files() {
        let e = any_endian();
        let h = any_pod!(elf::FileHeader64<Endianness>);
        ensure!(h.is_mips64el(e) == (h.e_ident.class.0 == 2 && h.e_ident.data.0 == 1 && h.e_machine.get(e).0 == 8), "MIPS64 layout exactly for little-endian 64-bit MIPS");
        let h = any_pod!(elf::FileHeader32<Endianness>);
        ensure!(h.is_mips64el(e) == (h.e_ident.class.0 == 2 && h.e_ident.data.0 == 1 && h.e_machine.get(e).0 == 8), "MIPS64 layout exactly for little-endian 64-bit MIPS");
    }
    /// Every state of the bitmap decoder.
    fn relr32_step() { relr_next!(Relr32, u32, 4) }
    fn relr64_step() { relr_next!(Relr64, u64, 8) }
    /// Bounded: an address word and one bitmap word, any values.
    [kani::unwind(36)]
    fn b_relr32() { relr_first!(FileHeader32, Relr32, U32, u32, 4, 31) }
}
#[cfg(not(kani))]
use crate::craft::*;
#[cfg(not(kani))]
use object::{Object, ObjectSection};
#[cfg(not(kani))]
fn uleb(mut v: u64, o: &mut Vec<u8>) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { o.push(b); return } o.push(b | 0x80); } }
#[cfg(not(kani))]
fn sleb(mut v: i64, o: &mut Vec<u8>) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 && b & 0x40 == 0 || v == -1 && b & 0x40 != 0 { o.push(b); return } o.push(b | 0x80); } }
#[cfg(not(kani))]
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct R { pub off: u64, pub sym: u32, pub typ: u32, pub add: i64 }
/// An independent CREL encoder.
#[cfg(not(kani))]
pub fn crel_encode(rs: &[R], rela: bool, shift: u32) -> Vec<u8> {
    let mut o = vec![];
    uleb((rs.len() as u64) << 3 | (rela as u64) << 2 | shift as u64, &mut o);
    let fb = if rela { 3 } else { 2 };
    let mut p = R::default();
    for r in rs {
        let d = (r.off.wrapping_sub(p.off) & (u64::MAX >> 0)) >> shift;
        let fl = (r.sym != p.sym) as u8 | ((r.typ != p.typ) as u8) << 1 | ((rela && r.add != p.add) as u8) << 2;
        let wide = ((d as u128) << fb) | fl as u128;
        if wide < 0x80 { o.push(wide as u8); } else { o.push(wide as u8 & 0x7f | 0x80); uleb((wide >> 7) as u64, &mut o); }
        if fl & 1 != 0 { sleb(r.sym as i64 - p.sym as i64, &mut o); }
        if fl & 2 != 0 { sleb(r.typ as i64 - p.typ as i64, &mut o); }
        if fl & 4 != 0 { sleb(r.add.wrapping_sub(p.add), &mut o); }
        p = R { add: if rela { r.add } else { 0 }, ..*r };
    }
    o
}
#[cfg(not(kani))]
fn some_r(shift: u32, prev: u64) -> R {
    R {
        off: prev.wrapping_add([1u64, 15, 16, 0x1f, 1000, 0x1000_0000_0000][choose(6)] << shift),
        sym: [0, 1, 70, u32::MAX, 0x8000_0000][choose(5)],
        typ: [0, 2, 300][choose(3)],
        add: [0, -1, i64::MIN, 64][choose(4)],
    }
}

natives! {
    fn crel_streams() {
        let rela = choose(2) == 1;
        let shift = choose(4) as u32;
        let (a, b);
        a = some_r(shift, 0);
        b = some_r(shift, a.off);
        for rs in [&[][..], &[a], &[a, b], &[a, b, R { off: b.off, ..a }]] {
            let mut d = crel_encode(rs, rela, shift);
            let n = d.len();
            d.push(0x55);
            let it = CrelIterator::new(&d).unwrap();
            ensure!(it.len() == rs.len() && it.is_rela() == rela, "header");
            let got: Vec<R> = it.map(|r| { let r = r.unwrap(); R { off: r.r_offset, sym: r.r_sym, typ: r.r_type.0, add: r.r_addend } }).collect();
            let want: Vec<R> = rs.iter().map(|r| R { add: if rela { r.add } else { 0 }, ..*r }).collect();
            ensure!(got == want, "entries");
            for k in 0..n {
                match CrelIterator::new(&d[..k]) {
                    Ok(it) => { let v: Vec<_> = it.collect(); ensure!(v.iter().any(|x| x.is_err()), "truncated stream is an error"); ensure!(v[..v.len() - 1].iter().zip(&want).all(|(x, w)| x.as_ref().is_ok_and(|x| x.r_offset == w.off)), "entries before the end are right") }
                    Err(_) => ensure!(k < 10, "header truncated"),
                }
            }
        }
    }
    fn relr_streams() {
        let wide = choose(2) == 1;
        let big = choose(2) == 1;
        let e = if big { Endianness::Big } else { Endianness::Little };
        let bits = if wide { 63u64 } else { 31 };
        let size = if wide { 8u64 } else { 4 };
        let mask = if wide { u64::MAX } else { u32::MAX as u64 };
        let w: Vec<u64> = (0..choose(5)).map(|_| [0x1000, 0, 1, 3, 0x8000_0000_8000_0001 & mask, mask, 0xffff_ffff_ffff_fff0 & mask, 0x15][choose(8)]).collect();
        let mut want = vec![];
        let mut base = 0u64;
        for x in &w {
            if x & 1 == 0 { want.push(*x); base = x.wrapping_add(size); } else {
                for i in 0..bits { if x >> (i + 1) & 1 == 1 { want.push(base.wrapping_add(i * size).wrapping_sub(0) & mask); } }
                base = base.wrapping_add(bits * size);
            }
        }
        // A table that starts with a bitmap has no base address: not well formed.
        assume(w.first().is_none_or(|x| x & 1 == 0));
        let got: Vec<u64> = if wide {
            let d: Vec<_> = w.iter().map(|x| elf::Relr64(U64::new(e, *x))).collect();
            RelrIterator::<elf::FileHeader64<Endianness>>::new(e, &d).collect()
        } else {
            let d: Vec<_> = w.iter().map(|x| elf::Relr32(U32::new(e, *x as u32))).collect();
            RelrIterator::<elf::FileHeader32<Endianness>>::new(e, &d).map(|x| x as u64).collect()
        };
        ensure!(got == want, "addresses in order");
    }
    /// Relocations through the unified reader: rel, rela and crel sections for one target, chained.
    fn elf_sections() {
        let (big, wide) = (choose(2) == 1, choose(2) == 1);
        let mips = choose(2) == 1;
        let kinds = [[9u32, 4, 0x4000_0014], [4, 9, 4], [0x4000_0014, 0x4000_0014, 9]][choose(3)];
        let mask = if wide { u64::MAX } else { u32::MAX as u64 };
        let b0 = elf_body_off(wide, 0);
        let mut body = W::new(big, wide);
        let mut sh = vec![Sh::default(), Sh { typ: 1, off: b0, size: 0, ..Sh::default() }];
        // symbol table with three symbols, and another (dynamic) one that must not be confused with it
        let ssize = if wide { 24u64 } else { 16 };
        sh.push(Sh { typ: 2, off: b0, size: 3 * ssize, link: 3, ent: ssize, info: 1, ..Sh::default() });
        body.pad(3 * ssize as usize);
        sh.push(Sh { typ: 3, off: b0, size: 1, ..Sh::default() });
        let mut want = vec![];
        for (k, t) in kinds.iter().enumerate() {
            body.align(8);
            let off = b0 + body.pos();
            let rs: Vec<R> = (0..2u32).map(|i| R { off: (0x1234 + 0x100 * k as u64 + i as u64) & mask, sym: (i + k as u32) % 3, typ: 1 + i + k as u32, add: -5 + k as i64 }).collect();
            match t {
                0x4000_0014 => { let v = crel_encode(&rs, true, 0); body.bytes(&v); }
                _ => for r in &rs {
                    body.word(r.off);
                    if wide {
                        if mips && !big && *t == 4 { body.u32(r.sym).u8(0).u8((r.typ >> 16) as u8).u8((r.typ >> 8) as u8).u8(r.typ as u8); } else { body.u64((r.sym as u64) << 32 | r.typ as u64); }
                    } else { body.u32(r.sym << 8 | r.typ); }
                    if *t == 4 { body.word(r.add as u64); }
                },
            }
            sh.push(Sh { typ: *t, off, size: b0 + body.pos() - off, link: 2, info: 1, ..Sh::default() });
            want.extend(rs.iter().map(|r| (R { add: if *t == 9 { 0 } else { r.add }, ..*r }, *t == 9)));
        }
        // Relocations of another section, and for another symbol table.
        sh.push(Sh { typ: 9, off: b0, size: 16, link: 2, info: 3, ..Sh::default() });
        sh.push(Sh { typ: 9, off: b0, size: 16, link: 0, info: 1, ..Sh::default() });
        let f = elf(big, wide, 1, if mips { 8 } else { 62 }, &body.b, &[], &sh, 3);
        // rel entries of a MIPS64EL file use the split layout too; the reader documents only rela.
        assume(!(mips && wide && !big && kinds.contains(&9)));
        let o = object::File::parse(&*f).unwrap();
        let s = o.sections().next().unwrap();
        let mut got: Vec<_> = s.relocations().collect();
        let mut w: Vec<_> = want.iter().collect();
        ensure!(got.len() == w.len(), "every relocation of the section, once");
        got.sort_by_key(|x| x.0);
        w.sort_by_key(|x| x.0.off);
        for ((off, g), (r, implicit)) in got.iter().zip(w) {
            ensure!(*off == r.off && g.addend() == r.add && g.has_implicit_addend() == *implicit, "offset and addend");
            let t = match g.target() { object::RelocationTarget::Symbol(s) => s.0 as u32, _ => 0 };
            ensure!(t == r.sym, "symbol");
            ensure!(g.flags() == object::RelocationFlags::Elf { r_type: RelocationType(r.typ) }, "type");
        }
    }
}
