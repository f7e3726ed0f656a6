//! Relocation application.
use crate::shim::*;
use object::{RelocationEncoding as E, RelocationKind as K, SectionKind};

/// The repository's RelocationMap, extracted on every build (see x/relmap.rs).
#[cfg(x_relmap)]
pub mod x {
    use object::{RelocationEncoding, RelocationFlags, RelocationKind, SectionIndex, SectionKind, SymbolIndex};
    include!(concat!(env!("OUT_DIR"), "/relmap.rs"));
    fn witness_key() -> u64 { crate::shim::any() }
}
fn kinds() -> K {
    match any_below(12) {
        0 => K::Unknown, 1 => K::None, 2 => K::Absolute, 3 => K::Relative, 4 => K::Got, 5 => K::GotRelative,
        6 => K::GotBaseRelative, 7 => K::GotBaseOffset, 8 => K::PltRelative, 9 => K::ImageOffset, 10 => K::SectionOffset, _ => K::SectionIndex,
    }
}
fn encodings() -> E {
    match any_below(6) { 0 => E::Unknown, 1 => E::Generic, 2 => E::X86Signed, 3 => E::AArch64Call, 4 => E::X86RipRelative, _ => E::X86Branch }
}
fn section_kinds() -> SectionKind {
    match any_below(5) { 0 => SectionKind::Debug, 1 => SectionKind::Text, 2 => SectionKind::Unknown, 3 => SectionKind::DebugString, _ => SectionKind::Metadata }
}
#[cfg(x_relmap)]
pub struct Sym(u64);
#[cfg(x_relmap)]
pub struct Sec(u64, SectionKind);
/// Lookups answer at the indices the relocation names; asking for any other is recorded.
#[cfg(x_relmap)]
pub struct Obj { i: usize, sym: Option<u64>, j: usize, sub: Option<u64>, sec: Option<(u64, SectionKind)> }
#[cfg(x_relmap)]
impl x::ObjectSymbol for Sym { fn address(&self) -> u64 { self.0 } }
#[cfg(x_relmap)]
impl x::ObjectSection for Sec {
    fn address(&self) -> u64 { self.0 }
    fn kind(&self) -> SectionKind { self.1 }
    fn relocations(&self) -> core::option::IntoIter<(u64, x::Relocation)> { None.into_iter() }
}
#[cfg(x_relmap)]
impl x::Object<'static> for Obj {
    type Symbol<'f> = Sym;
    type Section<'f> = Sec;
    fn symbol_by_index<'f>(&'f self, i: object::SymbolIndex) -> x::Result<Sym> {
        ensure!(i.0 == self.i || i.0 == self.j, "looks up the symbols that the relocation names");
        (if i.0 == self.i { self.sym } else { self.sub }).map(Sym).ok_or(x::Error(""))
    }
    fn section_by_index<'f>(&'f self, i: object::SectionIndex) -> x::Result<Sec> {
        ensure!(i.0 == self.i, "looks up the section that the relocation names");
        self.sec.map(|s| Sec(s.0, s.1)).ok_or(x::Error(""))
    }
}
/// Any map, any relocation at any offset: the entry at any offset afterwards.
#[cfg(x_relmap)]
fn add_one() {
    let (kind, enc, skind) = (kinds(), encodings(), section_kinds());
    let (i, j) = (any::<usize>(), any::<usize>());
    let sym = if any_bool() { Some(any::<u64>()) } else { None };
    let sub = if any_bool() { Some(any::<u64>()) } else { None };
    let sub = if i == j { sym } else { sub };
    let sec = if any_bool() { Some((any::<u64>(), skind)) } else { None };
    let t = any_below(3);
    let target = match t { 0 => x::RelocationTarget::Symbol(object::SymbolIndex(i)), 1 => x::RelocationTarget::Section(object::SectionIndex(i)), _ => x::RelocationTarget::Absolute };
    let has_sub = any_bool();
    let (addend, implicit) = (any::<i64>(), any_bool());
    let (w, off) = (any::<u64>(), any::<u64>());
    let before = if any_bool() { Some((any_bool(), any::<u64>())) } else { None };
    let other = any_bool();
    let o: &'static Obj = Box::leak(Box::new(Obj { i, sym, j, sub, sec }));
    let mut m = x::map(w, before, other);
    let mut rel = x::relocation(kind, enc, any(), target, if has_sub { Some(object::SymbolIndex(j)) } else { None }, any(), implicit,
        object::RelocationFlags::Coff { typ: object::pe::RelocationType(0) });
    rel.set_addend(addend);
    let r = m.add::<Obj>(o, off, rel);
    let after = x::entry(&m);
    if w != off { ensure!(after == before, "entries at other offsets are unchanged"); }
    let base = match t {
        0 => sym,
        1 => sec.map(|s| if s.1 == SectionKind::Debug { 0 } else { s.0 }),
        _ => None,
    };
    let base = if has_sub { match (base, sub) { (Some(b), Some(s)) => Some(b.wrapping_sub(s)), _ => None } } else { base };
    let taken = if w == off { before.is_some() } else { other };
    match r {
        Ok(()) => {
            if kind == K::None { ensure!(after == before, "a no-op relocation changes nothing"); return; }
            reach!(has_sub && t == 0 && w == off, "symbol difference");
            ensure!(kind == K::Absolute && enc == E::Generic, "only supported relocations are accepted");
            ensure!(base.is_some(), "a relocation with an invalid or unsupported target is rejected");
            ensure!(!taken, "two relocations at one offset are rejected");
            if w == off {
                ensure!(after == Some((implicit, base.unwrap().wrapping_add(addend as u64))), "target address plus addend");
                let v = any::<u64>();
                let want = base.unwrap().wrapping_add(addend as u64).wrapping_add(if implicit { v } else { 0 });
                ensure!(m.relocate(w, v) == want, "applied value");
            }
        }
        Err(_) => {
            reach!(taken, "duplicate");
            ensure!(kind != K::None, "a no-op relocation is accepted");
            // a subtractor is either applied or rejected
            ensure!(has_sub || kind != K::Absolute || enc != E::Generic || base.is_none() || taken, "a supported relocation is accepted");
        }
    }
}
/// Any map: the value at any offset.
#[cfg(x_relmap)]
fn relocate_one() {
    let w = any::<u64>();
    let e = if any_bool() { Some((any_bool(), any::<u64>())) } else { None };
    let m = x::map(w, e, any_bool());
    let v = any::<u64>();
    let want = match e { None => v, Some((false, a)) => a, Some((true, a)) => a.wrapping_add(v) };
    ensure!(m.relocate(w, v) == want, "adds the recorded value to an implicit addend, replaces it otherwise, leaves other offsets unchanged");
}
#[cfg(not(x_relmap))]
fn add_one() { reach!(false, "extraction lost; the native stand-in remains") }
#[cfg(not(x_relmap))]
fn relocate_one() { reach!(false, "extraction lost; the native stand-in remains") }

harnesses! {
    fn add() { add_one() }
    fn relocate() { relocate_one() }
}

#[cfg(not(kani))]
use crate::craft::*;
#[cfg(not(kani))]
use object::{Object, ObjectSection};
/// (machine, wide, big, type, size) of plain absolute data relocations, from each psABI.
#[cfg(not(kani))]
const ABS: &[(u16, bool, bool, u32, u8)] = &[
    (62, true, false, 1, 64), (62, true, false, 10, 32), (62, true, false, 12, 16), (62, true, false, 14, 8),
    (62, false, false, 10, 32), (3, false, false, 1, 32), (3, false, false, 20, 16), (3, false, false, 22, 8),
    (183, true, false, 257, 64), (183, true, false, 258, 32), (183, true, true, 257, 64), (40, false, false, 2, 32),
    (40, false, true, 2, 32), (243, true, false, 2, 64), (243, false, false, 1, 32), (21, true, true, 38, 64), (21, true, false, 1, 32),
    (20, false, true, 1, 32), (22, true, true, 22, 64), (22, true, true, 4, 32), (2, false, true, 3, 32), (43, true, true, 32, 64),
    (8, true, true, 18, 64), (8, false, true, 2, 32), (258, true, false, 2, 64), (258, true, false, 1, 32),
];
#[cfg(not(kani))]
fn check_map(f: &object::File<'_>, secname: &str, want: &[(u64, u64, u64)]) {
    let s = f.section_by_name(secname).unwrap();
    let m = s.relocation_map().unwrap();
    for &(o, v, w) in want { ensure!(m.relocate(o, v) == w, "offset {o:#x}: {:#x} != {w:#x}", m.relocate(o, v)); }
}
natives! {
    /// ELF relocatable files of every architecture: symbol and section targets.
    fn elf_maps() {
        let (machine, wide, big, typ, _) = ABS[choose(ABS.len())];
        let rela = choose(2) == 1;
        let to_section = choose(2) == 1;
        let debug_target = choose(2) == 1;
        let sval = [0u64, 0x10, 0xffff_fff0][choose(3)];
        let saddr = [0u64, 0x4000][choose(2)];
        let addend = [0i64, 5, -3][choose(3)];
        let mut w = W::new(big, wide);
        w.pad(16);
        let sym_at = w.pos();
        for i in 0..2 {
            let (v, info) = if i == 0 { (0, 0u8) } else { (sval, if to_section { 3 } else { 1 }) };
            if wide { w.u32(0).u8(info).u8(0).u16(i as u16).u64(v).u64(0); } else { w.u32(0).u32(v as u32).u32(0).u8(info).u8(0).u16(i as u16); }
        }
        w.align(8);
        let rel_at = w.pos();
        w.word(4);
        let mips64el = machine == 8 && wide && !big;
        ensure!(!mips64el, "not in the table");
        if wide { w.u64(1 << 32 | typ as u64); } else { w.u32(1 << 8 | typ); }
        if rela { w.word(addend as u64); }
        let rel_end = w.pos();
        let str_at = w.pos();
        let target = if debug_target { ".debug_str" } else { ".text" };
        let mut names = vec![0u8];
        let n1 = names.len() as u32; names.extend_from_slice(target.as_bytes()); names.push(0);
        let n2 = names.len() as u32; names.extend_from_slice(b".debug_info\0");
        w.bytes(&names);
        let base = elf_body_off(wide, 0);
        let sh = [
            Sh::default(),
            Sh { name: n1, typ: 1, flags: if debug_target { 0 } else { 6 }, addr: saddr, off: base, size: 16, ..Sh::default() },
            Sh { name: n2, typ: 1, off: base, size: 16, ..Sh::default() },
            Sh { typ: 2, off: base + sym_at, size: if wide { 48 } else { 32 }, link: 5, info: 1, ent: if wide { 24 } else { 16 }, ..Sh::default() },
            Sh { typ: if rela { 4 } else { 9 }, off: base + rel_at, size: rel_end - rel_at, link: 3, info: 2, ent: rel_end - rel_at, ..Sh::default() },
            Sh { typ: 3, off: base + str_at, size: names.len() as u64, ..Sh::default() },
        ];
        let file = elf(big, wide, 1, machine, &w.b, &[], &sh, 5);
        let f = object::File::parse(&file[..]).unwrap();
        // the ELF reader reports symbol targets; the symbol's own value counts
        let a = sval.wrapping_add(if rela { addend as u64 } else { 0 });
        let v = 0x11;
        check_map(&f, ".debug_info", &[(4, v, if rela { a } else { a.wrapping_add(v) }), (0, v, v), (5, v, v), (3, 7, 7)]);
        let (_, r) = f.section_by_name(".debug_info").unwrap().relocations().next().unwrap();
        let size = ABS.iter().find(|x| (x.0, x.1, x.3) == (machine, wide, typ)).unwrap().4;
        ensure!(r.size() == size && r.has_implicit_addend() == !rela && r.addend() == if rela { addend } else { 0 }, "width and addend");
    }
    /// Relocations that are not plain absolute ones make the map fail.
    fn elf_unsupported() {
        // PC-relative, GOT, PLT, unknown
        let (machine, typ) = [(62u16, 2u32), (62, 9), (62, 4), (62, 200), (62, 11), (183, 261), (243, 35), (22, 5)][choose(8)];
        let twice = choose(2) == 1;
        let big = machine == 22;
        let mut w = W::new(big, true);
        w.pad(16);
        let sym_at = w.pos();
        w.pad(16 + 24);
        w.u32(0).u8(1).u8(0).u16(1).u64(8).u64(0);
        let rel_at = w.pos();
        let ok = [1u32, 257, 2, 22][match machine { 62 => 0, 183 => 1, 243 => 2, _ => 3 }];
        w.u64(0).u64(1 << 32 | ok as u64).u64(1);
        w.u64(if twice { 0 } else { 8 }).u64(1 << 32 | if twice { ok } else { typ } as u64).u64(1);
        let end = w.pos();
        w.bytes(b"\0.debug_info\0");
        let base = elf_body_off(true, 0);
        let sh = [
            Sh::default(),
            Sh { name: 1, typ: 1, off: base, size: 16, ..Sh::default() },
            Sh { typ: 2, off: base + sym_at, size: 48, link: 4, info: 1, ent: 24, ..Sh::default() },
            Sh { typ: 4, off: base + rel_at, size: end - rel_at, link: 2, info: 1, ent: 24, ..Sh::default() },
            Sh { typ: 3, off: base + end, size: 13, ..Sh::default() },
        ];
        let file = elf(big, true, 1, machine, &w.b, &[], &sh, 4);
        let f = object::File::parse(&file[..]).unwrap();
        ensure!(f.section_by_name(".debug_info").unwrap().relocation_map().is_err(), "rejected");
    }
    /// Mach-O: external symbols, sections, pairs with a subtractor or an explicit addend.
    fn macho_maps() {
        let arm = choose(2) == 1;
        let big = false;
        let shape = choose(4);
        let (sval, tval) = ([0x20u64, 0x1_0000_0000][choose(2)], 0x8u64);
        let len = 2 + choose(2) as u32;
        let mut w = W::new(big, true);
        w.pad(32);
        let rel_at = w.pos();
        let info = |sym: u32, ext: u32, ty: u32| sym | len << 25 | ext << 27 | ty << 28;
        let mut n = 1;
        let mut want = None;
        let v = 0x30;
        match shape {
            0 => { w.u32(8).u32(info(0, 1, 0)); want = Some(sval + v); }
            1 => { // B - A
                let ty = if arm { 1 } else { 5 };
                w.u32(8).u32(info(1, 1, ty)).u32(8).u32(info(0, 1, 0)); n = 2; want = Some(sval.wrapping_sub(tval) + v); }
            2 => if arm { w.u32(8).u32(info(0x00ff_fffb, 0, 10)).u32(8).u32(info(0, 1, 0)); n = 2; want = Some(sval - 5); } else { w.u32(8).u32(info(0, 1, 2) | 1 << 24); },
            _ => { w.u32(8).u32(info(7, 1, 0)); }
        }
        let sym_at = w.pos();
        w.u32(1).u8(0xf).u8(1).u16(0).u64(sval);
        w.u32(1).u8(0xf).u8(1).u16(0).u64(tval);
        let str_at = w.pos();
        w.bytes(b"\0_a\0");
        let b = MACHO_BODY as u32;
        let segs = [Mg { name: [0; 16], vmaddr: 0, vmsize: 32, off: b as u64, size: 32, sections: vec![
            Ms { sect: name16("__debug_info"), seg: name16("__DWARF"), size: 32, off: b, reloff: b + rel_at as u32, nreloc: n, ..Ms::default() }] }];
        let mut c = W::new(big, true);
        c.u32(2).u32(24).u32(b + sym_at as u32).u32(2).u32(b + str_at as u32).u32(4);
        let mut file = macho(big, true, 1, &segs, 1, &c.b, &w.b);
        if arm { file[4..8].copy_from_slice(&0x0100_000cu32.to_le_bytes()); }
        let f = object::File::parse(&file[..]).unwrap();
        match want {
            Some(x) => check_map(&f, "__debug_info", &[(8, v, x), (0, v, v), (7, 1, 1)]),
            None => ensure!(f.sections().next().unwrap().relocation_map().is_err(), "rejected"),
        }
    }
    fn coff_maps() {
        // (machine, type, supported)
        let (m, t, ok) = [(0x8664u16, 1u16, true), (0x8664, 2, true), (0x8664, 4, false), (0x8664, 11, false), (0x14c, 6, true), (0x14c, 0x14, false), (0xaa64, 0xe, true), (0xaa64, 1, true), (0x1c4, 1, true)][choose(9)];
        let sval = [0u32, 0x44][choose(2)];
        let secva = [0u32, 0x1000][choose(2)];
        let mut body = vec![0u8; 16];
        let base = coff_hdr_len(1, false) as u32;
        body.extend_from_slice(&4u32.to_le_bytes());
        body.extend_from_slice(&0u32.to_le_bytes());
        body.extend_from_slice(&t.to_le_bytes());
        let mut syms = b"sym\0\0\0\0\0".to_vec();
        syms.extend_from_slice(&sval.to_le_bytes());
        syms.extend_from_slice(&1u16.to_le_bytes());
        syms.extend_from_slice(&[0, 0, 2, 0]);
        let file = coff(m, &[Cs { name: name8(".debug_x"), va: secva, rsize: 16, roff: base, reloff: base + 16, nrel: 1, ..Cs::default() }], &body, 1, &syms, &[], false);
        let f = object::File::parse(&file[..]).unwrap();
        if ok { check_map(&f, ".debug_x", &[(4, 0x10, 0x10 + sval as u64 + secva as u64), (0, 3, 3)]); }
        else { ensure!(f.sections().next().unwrap().relocation_map().is_err(), "rejected"); }
    }
}
