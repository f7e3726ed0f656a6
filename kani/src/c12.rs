//! Address-to-symbol lookup.
use crate::shim::*;
use object::read::{SymbolMap, SymbolMapEntry, SymbolMapName};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct E { pub a: u64, pub s: u64, pub id: usize }
impl SymbolMapEntry for E {
    fn address(&self) -> u64 { self.a }
    fn size(&self) -> u64 { self.s }
}
/// `r` is the nearest entry at or below `q` of the list.
fn nearest<'a>(l: &[E], q: u64, r: Option<&'a E>) -> bool {
    let mut best: Option<u64> = None;
    let mut i = 0;
    while i < l.len() {
        if l[i].a <= q && best.is_none_or(|b| b < l[i].a) { best = Some(l[i].a); }
        i += 1;
    }
    match r { Some(e) => best == Some(e.a) && l[e.id] == *e, None => best.is_none() }
}
fn check(l: &[E], q: u64) {
    let m = SymbolMap::new(l.to_vec());
    let b = m.before(q);
    ensure!(nearest(l, q, b), "the nearest preceding entry");
    let c = m.containing(q);
    match (b, c) {
        (None, None) => {}
        (Some(b), None) => ensure!(b.s != 0 && q - b.a >= b.s, "nothing only when the address is past the entry"),
        (_, Some(c)) => ensure!(nearest(l, q, Some(c)) && (c.s == 0 || q - c.a < c.s), "an entry whose extent has the address"),
    }
}

harnesses! {
    /// Bounded: one or two entries with arbitrary addresses and sizes.
    [kani::unwind(5)]
    fn b_two_entries() {
        let q = any::<u64>();
        let l = [E { a: any(), s: any(), id: 0 }, E { a: any(), s: any(), id: 1 }];
        reach!(l[0].a > l[1].a && l[1].a < q, "out of order");
        check(&l, q);
    }
}

#[cfg(not(kani))]
mod files {
    use super::*;
    use crate::craft::*;
    use object::{Object, ObjectSection, ObjectSymbol};
    use std::collections::BTreeMap;

    pub fn near(l: &[u64]) -> u64 {
        if l.is_empty() || rnd(4) == 0 { return match rnd(4) { 0 => 0, 1 => u64::MAX, 2 => rnd(64), _ => any::<u64>() }; }
        let x = l[rnd(l.len() as u64) as usize];
        match rnd(3) { 0 => x, 1 => x.wrapping_add(1 + rnd(9)), _ => x.wrapping_sub(1 + rnd(9)) }
    }
    /// A symbol as it was put into the file.
    #[derive(Debug, Clone)]
    pub struct S { pub addr: u64, pub size: u64, pub name: String, pub want: bool }
    /// The map of the file against the symbols put in: every wanted address has one entry, made of
    /// one of its symbols; the extent is the symbol's, or ends where the next symbol or a section does.
    pub fn against(file: &[u8], syms: &[S]) {
        let f = match object::File::parse(file) { Ok(f) => f, Err(e) => { ensure!(false, "parses {e}"); return } };
        let mut wanted: BTreeMap<u64, Vec<&S>> = BTreeMap::new();
        for s in syms { if s.want { wanted.entry(s.addr).or_default().push(s); } }
        let mut ends: Vec<u64> = wanted.keys().copied().collect();
        for s in f.sections() { ends.push(s.address().saturating_add(s.size())); }
        let m = f.symbol_map();
        ensure!(m.symbols().len() == wanted.len(), "one entry per address");
        let mut qs: Vec<u64> = ends.clone();
        for &a in &ends { qs.extend([a.wrapping_sub(1), a.wrapping_add(1)]); }
        for s in syms { let e = s.addr.wrapping_add(s.size); qs.extend([e, e.wrapping_sub(1)]); }
        qs.extend([0, u64::MAX]);
        for q in qs {
            let b = m.before(q);
            let w = wanted.range(..=q).next_back();
            ensure!(b.map(|e| e.address()) == w.map(|(a, _)| *a), "the nearest preceding symbol");
            let (Some(b), Some((a, at))) = (b, w) else { ensure!(m.containing(q).is_none(), "nothing below the first symbol"); continue };
            ensure!(at.iter().any(|s| s.name == b.name()), "the name of a symbol there");
            let guess = ends.iter().filter(|e| **e > *a).min().map_or(0, |e| e - a);
            ensure!(at.iter().any(|s| s.name == b.name() && b.size() == if s.size != 0 { s.size } else { guess }), "extent of the entry");
            let c: Option<&SymbolMapName> = m.containing(q);
            ensure!(c == if b.size() == 0 || q - a < b.size() { Some(b) } else { None }, "an entry only within its extent");
        }
    }
    pub fn addrs(wide: bool, n: u64) -> Vec<u64> {
        let mut v: Vec<u64> = Vec::new();
        for _ in 0..n { let a = match rnd(3) { 0 => 0x1000 + rnd(64), 1 => 0x1000 + rnd(0x2000), _ => near(&v) }; v.push(if wide { a } else { a & 0xffff_ffff }); }
        v
    }
    pub fn elf_map() {
        let (big, wide) = (rnd(2) == 0, rnd(2) == 0);
        let mut a = W::new(big, wide);
        let mut names = W::new(big, wide);
        names.bytes(b"\0.text\0");
        let mut syms = Vec::new();
        if wide { a.pad(24); } else { a.pad(16); }
        let n = rnd(8);
        let m = if wide { u64::MAX } else { 0xffff_ffff };
        for (i, addr) in addrs(wide, n).into_iter().enumerate() {
            let size = match rnd(4) { 0 | 1 => 0, 2 => rnd(40), _ => any::<u64>() } & m;
            let typ = [0u8, 1, 2, 2, 3, 4, 6][rnd(7) as usize];
            let shndx: u16 = if rnd(5) == 0 { 0 } else { 1 };
            let bind = rnd(3) as u8;
            let name = if rnd(9) == 0 { String::new() } else { format!("s{i}") };
            let off = if name.is_empty() { 0 } else { let p = names.pos() as u32; names.bytes(name.as_bytes()).u8(0); p };
            if wide { a.u32(off).u8(bind << 4 | typ).u8(0).u16(shndx).u64(addr).u64(size); }
            else { a.u32(off).u32(addr as u32).u32(size as u32).u8(bind << 4 | typ).u8(0).u16(shndx); }
            // named definitions of code, data or (in a section) unknown kind
            let want = shndx != 0 && !name.is_empty() && matches!(typ, 0 | 1 | 2);
            syms.push(S { addr, size, name, want });
        }
        let boff = elf_body_off(wide, 0);
        let nl = a.pos();
        a.bytes(&names.b);
        let mut sh = [Sh::default(); 4];
        sh[1] = Sh { name: 1, typ: 1, flags: 6, addr: 0x1000 + rnd(0x100), off: boff, size: if rnd(2) == 0 { 0 } else { rnd(0x1800) }, align: 1, ..Sh::default() };
        sh[1].typ = 8; // no file bytes wanted
        let dynsym = rnd(3) == 0;
        sh[2] = Sh { typ: if dynsym { 11 } else { 2 }, off: boff, size: nl, link: 3, info: 1, align: 8, ent: if wide { 24 } else { 16 }, ..Sh::default() };
        sh[3] = Sh { typ: 3, off: boff + nl, size: names.pos(), align: 1, ..Sh::default() };
        let f = elf(big, wide, 2, if wide { 62 } else { 3 }, &a.b, &[], &sh, 3);
        against(&f, &syms);
    }
    pub fn macho_map() {
        let (big, wide) = (rnd(2) == 0, rnd(2) == 0);
        let mut a = W::new(big, wide);
        let mut names = W::new(big, wide);
        names.u8(0);
        let mut syms = Vec::new();
        let n = rnd(8);
        for (i, addr) in addrs(wide, n).into_iter().enumerate() {
            let (typ, sect): (u8, u8) = [(0x0e, 1), (0x0f, 1), (0x0e, 1), (1, 0), (2, 0), (0x24, 1), (0x1e, 1)][rnd(7) as usize];
            let name = if rnd(9) == 0 { String::new() } else { format!("s{i}") };
            let off = if name.is_empty() { 0 } else { let p = names.pos() as u32; names.bytes(name.as_bytes()).u8(0); p };
            a.u32(off).u8(typ).u8(sect).u16(0).word(addr);
            let want = matches!(typ, 0x0e | 0x0f | 0x1e) && sect == 1 && !name.is_empty();
            syms.push(S { addr, size: 0, name, want });
        }
        let f = with_syms(big, wide, n as u32, &a.b, &names.b, 0x1000 + rnd(0x100), rnd(0x1800));
        against(&f, &syms);
    }
    pub fn with_syms(big: bool, wide: bool, n: u32, syms: &[u8], names: &[u8], addr: u64, size: u64) -> Vec<u8> {
        let sec = Ms { sect: name16("__text"), seg: name16("__TEXT"), addr, size, off: MACHO_BODY as u32, flags: 0x8000_0400, ..Ms::default() };
        let seg = Mg { name: name16("__TEXT"), vmaddr: addr, vmsize: size, off: 0, size: 0, sections: vec![sec] };
        let mut x = W::new(big, wide);
        x.u32(2).u32(24).u32(MACHO_BODY as u32).u32(n).u32((MACHO_BODY + syms.len()) as u32).u32(names.len() as u32);
        let mut body = syms.to_vec();
        body.extend(names);
        macho(big, wide, 1, &[seg], 1, &x.b, &body)
    }
    pub fn coff_map() {
        let n = rnd(8);
        let bigobj = rnd(2) == 0;
        let mut a = W::new(false, false);
        let mut syms = Vec::new();
        let mut recs = 0;
        let base = 0x1000;
        for i in 0..n {
            let off = if rnd(2) == 0 { rnd(16) } else { rnd(0x800) };
            let name = format!("s{i}");
            let (class, sec) = [(2u8, 1u16), (3, 1), (2, 0), (2, 0xffff), (2, 1)][rnd(5) as usize];
            let func = rnd(2) == 0;
            a.bytes(&name8(&name)).u32(off as u32);
            if bigobj { a.u32(sec as i16 as i32 as u32); } else { a.u16(sec); }
            let fsize = if func && class == 2 && rnd(2) == 0 { 1 + rnd(60) as u32 } else { 0 };
            let aux = (fsize != 0 && sec == 1) as u8;
            a.u16(if func { 0x20 } else { 0 }).u8(class).u8(aux);
            if aux == 1 { a.u32(0).u32(fsize).u32(0).u32(0).u16(0); if bigobj { a.u16(0); } }
            recs += 1 + aux as u32;
            let want = sec == 1 && !name.is_empty();
            syms.push(S { addr: if sec == 1 { base + off } else { off }, size: if aux == 1 { fsize as u64 } else { 0 }, name, want });
        }
        let cs = Cs { name: name8(".text"), va: base as u32, rsize: rnd(0x900) as u32, flags: 0x6000_0020, ..Cs::default() };
        let f = coff(0x8664, &[cs], &[], recs, &a.b, &[], bigobj);
        against(&f, &syms);
    }
    /// Debug entries of a Mach-O file.
    pub fn stabs() {
        let (big, wide) = (rnd(2) == 0, rnd(2) == 0);
        let mut a = W::new(big, wide);
        let mut names = W::new(big, wide);
        names.u8(0);
        let mut count = 0u32;
        let (mut obj, mut fun): (Option<usize>, Option<(String, u64)>) = (None, None);
        let mut want: Vec<(u64, u64, String, usize)> = Vec::new();
        let mut objs: Vec<(String, Option<String>)> = Vec::new();
        let mut seen: Vec<u64> = Vec::new();
        for i in 0..rnd(14) {
            let k = rnd(7);
            let name = if rnd(4) == 0 { String::new() } else { match rnd(4) { 0 => format!("a{i}(b{i})"), 1 => format!("x{i})"), 2 => format!("a{i}(b(c))"), _ => format!("s{i}") } };
            let off = if name.is_empty() { 0 } else { let p = names.pos() as u32; names.bytes(name.as_bytes()).u8(0); p };
            let v = if k == 2 && name.is_empty() { rnd(50) } else { near(&seen) } & if wide { u64::MAX } else { 0xffff_ffff };
            seen.push(v);
            // N_SO, N_OSO, N_FUN, N_STSYM, N_GSYM, a plain symbol
            let typ: u8 = [0x64, 0x66, 0x24, 0x26, 0x20, 0x0f, 0x24][k as usize];
            a.u32(off).u8(typ).u8(1).u16(0).word(v);
            count += 1;
            match typ {
                0x64 => obj = None,
                0x66 => {
                    obj = None;
                    if !name.is_empty() {
                        obj = Some(objs.len());
                        objs.push(match name.find('(') {
                            Some(p) if name.ends_with(')') => (name[..p].into(), Some(name[p + 1..name.len() - 1].into())),
                            _ => (name.clone(), None),
                        });
                    }
                }
                0x24 if !name.is_empty() => fun = Some((name, v)),
                0x24 => if let (Some((n, at)), Some(o)) = (fun.take(), obj) { want.push((at, v, n, o)); },
                0x26 => if let Some(o) = obj { want.push((v, 0, name, o)); },
                _ => {}
            }
        }
        let f = with_syms(big, wide, count, &a.b, &names.b, 0x1000, 0x100);
        let f = object::File::parse(&f[..]).unwrap();
        let m = f.object_map();
        let got: Vec<_> = m.objects().iter().map(|o| (String::from_utf8_lossy(o.path()).into_owned(), o.member().map(|m| String::from_utf8_lossy(m).into_owned()))).collect();
        ensure!(got == objs, "object files");
        let tup = |e: &object::read::ObjectMapEntry| (e.address(), e.size(), String::from_utf8_lossy(e.name()).into_owned(), e.object_index());
        let mut all: Vec<_> = m.symbols().iter().map(tup).collect();
        all.sort();
        let mut w2 = want.clone();
        w2.sort();
        ensure!(all == w2, "entries");
        let mut qs = seen.clone();
        for (a, s, ..) in &want { qs.extend([a.wrapping_sub(1), a.wrapping_add(1), a.wrapping_add(*s), a.wrapping_add(*s).wrapping_sub(1)]); }
        for q in qs {
            let best = want.iter().filter(|w| w.0 <= q).map(|w| w.0).max();
            match m.get(q) {
                Some(e) => {
                    let e = tup(e);
                    ensure!(Some(e.0) == best && want.contains(&e) && (e.1 == 0 || q - e.0 < e.1), "an entry whose extent has the address");
                }
                None => ensure!(best.is_none() || want.iter().any(|w| Some(w.0) == best && w.1 != 0 && q - w.0 >= w.1), "nothing only past the nearest entry"),
            }
        }
    }
}

natives! {
    /// Every list of up to five entries over three addresses.
    fn small_lists() {
        let n = choose(6);
        let l: Vec<E> = (0..n).map(|id| E { a: [3u64, 7, 8][choose(3)], s: [0u64, 2][choose(2)], id }).collect();
        for q in [0, 2, 3, 4, 5, 7, 8, 9, u64::MAX] { check(&l, q); }
    }
    fn random_lists() {
        let n = rnd(if rnd(10) == 0 { 300 } else { 20 });
        let mut seen = Vec::new();
        let l: Vec<E> = (0..n as usize).map(|id| { let a = files::near(&seen); seen.push(a); E { a, s: if rnd(2) == 0 { rnd(20) } else { any::<u64>() }, id } }).collect();
        for _ in 0..8 { check(&l, files::near(&seen)); }
    }
    fn elf_maps() { files::elf_map() }
    fn macho_maps() { files::macho_map() }
    fn coff_maps() { files::coff_map() }
    fn stab_maps() { files::stabs() }
}
