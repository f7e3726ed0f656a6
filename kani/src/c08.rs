//! Malformed archives and XCOFF input.
use crate::shim::*;
use ::memchr_dep as mc;
use object::pod::{bytes_of, bytes_of_slice};
use object::read::archive::*;
use object::read::xcoff::*;
use object::read::{SectionIndex, SymbolIndex};
use object::{archive, xcoff, BigEndian as BE};

macro_rules! inside { ($b:expr, $d:expr) => { ensure!(inside($b, $d), "the result is made of bytes of the file") } }

macro_rules! header { ($h:ty) => {{
    let d = any_bytes::<512>();
    let mut off: u64 = any();
    let o = off;
    if let Ok(h) = <$h>::parse(d, &mut off) {
        let n = core::mem::size_of::<$h>() as u64;
        ensure!(is_at(bytes_of(h), d, o as usize, n as usize) && off - o == n, "the header at its offset");
        let p = off;
        let r = h.aux_header(d, &mut off);
        if let Ok(a) = r {
            ensure!(off - p == h.f_opthdr() as u64, "the offset after the auxiliary header");
            if let Some(a) = a { reach!(off > 100, "an auxiliary header"); inside!(bytes_of(a), d); ensure!(is_at(bytes_of(a), d, p as usize, h.f_opthdr() as usize), "the auxiliary header after the header") }
        }
    }
}}}
macro_rules! sections { ($h:ty, $s:ty) => {{
    let d = any_bytes::<512>();
    let h = any_pod!($h);
    let mut off: u64 = any();
    let o = off;
    if let Ok(t) = h.sections(d, &mut off) {
        ensure!(t.len() == h.f_nscns() as usize, "as many sections as declared");
        ensure!(off - o == t.len() as u64 * core::mem::size_of::<$s>() as u64, "the offset after the sections");
        let i = SectionIndex(any());
        match t.section(i) {
            Ok(s) => { reach!(i.0 > 10, "a section"); inside!(bytes_of(s), d); ensure!(i.0 >= 1 && i.0 <= t.len(), "indices start at one") }
            Err(_) => ensure!(i.0 == 0 || i.0 > t.len(), "every section can be read"),
        }
    }
}}}
macro_rules! section_data { ($s:ty) => {{
    let d = any_bytes::<512>();
    let s = any_pod!($s);
    if let Ok(b) = s.data(d) { reach!(b.len() > 100, "section data"); inside!(b, d); ensure!(s.file_range().is_some() || b.is_empty(), "no bytes without a range") }
    if let Ok(r) = s.relocations(d) { reach!(r.len() > 100, "relocations"); inside!(bytes_of_slice(r), d); ensure!(r.len() == Into::<u32>::into(s.s_nreloc()) as usize, "as many relocations as declared") }
}}}
macro_rules! section_name { ($s:ty) => {{
    let s = any_pod!($s);
    let n = s.name();
    reach!(n.len() == 8, "a name without a terminator");
    inside!(n, s.s_name());
}}}
macro_rules! symtab { ($h:ty, $s:ty) => {{
    let d = any_bytes::<512>();
    let h = any_pod!($h);
    if let Ok(t) = h.symbols(d) {
        ensure!(t.len() == if Into::<u64>::into(h.f_symptr()) == 0 { 0 } else { h.f_nsyms() as usize }, "as many records as declared");
        let i = SymbolIndex(any());
        match t.symbol(i) {
            Ok(s) => { reach!(i.0 > 10, "a symbol"); ensure!(i.0 < t.len() && !s.is_null(), "only the records of the table"); inside!(bytes_of(s), d) }
            Err(_) => {}
        }
        let k: usize = any();
        match t.get::<xcoff::SymbolBytes>(i, k) {
            Ok(s) => { inside!(bytes_of(s), d); ensure!(i.0 < t.len() && k < t.len() - i.0, "only the records of the table") }
            Err(_) => ensure!(i.0.checked_add(k).map_or(true, |x| x >= t.len()), "every record can be read"),
        }
    }
}}}
macro_rules! aux { ($h:ty, $m:ident, $has:ident, $t:expr) => {{
    let d = any_bytes::<512>();
    let h = any_pod!($h);
    let Ok(t) = h.symbols(d) else { return };
    let i = SymbolIndex(any());
    let Ok(s) = t.symbol(i) else { return };
    if !s.$has() { return }
    let k: usize = any();
    let r = t.$m(i, k);
    if let Ok(a) = r {
        reach!(k > 2, "an auxiliary record");
        let Ok(b) = t.get::<xcoff::SymbolBytes>(i, k) else { ensure!(false, "only the records of the table"); return };
        ensure!(core::ptr::eq(bytes_of(a).as_ptr(), bytes_of(b).as_ptr()), "the record itself");
        ensure!(a.x_auxtype().map_or(true, |x| x == $t), "of the type asked for");
    }
}}}
macro_rules! symname { ($s:ty) => {{
    let d = any_bytes::<256>();
    let s: &'static $s = Box::leak(Box::new(any_pod!($s)));
    let strings = object::read::StringTable::new(d, any(), any());
    if let Ok(n) = s.name(strings) { reach!(n.len() > 10, "a long name"); ensure!(inside(n, d) || inside(n, bytes_of(s)), "the name is in the record or the file") }
    let _ = (s.section(), s.is_undefined(), s.has_aux_csect(), s.name_offset());
}}}
macro_rules! fname { ($s:ty) => {{
    let d = any_bytes::<256>();
    let s: &'static $s = Box::leak(Box::new(any_pod!($s)));
    let strings = object::read::StringTable::new(d, any(), any());
    if let Ok(n) = s.fname(strings) { reach!(n.len() > 10, "a long name"); ensure!(inside(n, d) || inside(n, bytes_of(s)), "the name is in the record or the file") }
}}}
macro_rules! symsteps { ($h:ty) => {{
    let d = any_bytes::<512>();
    let h = any_pod!($h);
    let Ok(t) = h.symbols(d) else { return };
    let mut it = t.iter();
    // the first record is not a null symbol, nor is the next one
    if t.symbol(SymbolIndex(0)).is_err() { return }
    let Some((i, s)) = it.next() else { ensure!(false, "the first symbol"); return };
    ensure!(i.0 == 0, "starts at the first symbol");
    let j = 1 + s.n_numaux() as usize;
    if t.symbol(SymbolIndex(j)).is_err() { return }
    match it.next() {
        Some((k, y)) => { reach!(k.0 > 3, "auxiliary records skipped"); ensure!(k.0 == j && j < t.len(), "auxiliary records are skipped"); inside!(bytes_of(y), d) }
        None => ensure!(j >= t.len(), "every symbol is returned"),
    }
}}}

harnesses! {
    /// Every file of any length, header at any offset.
    fn header32() { header!(xcoff::FileHeader32) }
    fn header64() { header!(xcoff::FileHeader64) }
    fn sections32() { sections!(xcoff::FileHeader32, xcoff::SectionHeader32) }
    fn sections64() { sections!(xcoff::FileHeader64, xcoff::SectionHeader64) }
    fn section_data32() { section_data!(xcoff::SectionHeader32) }
    fn section_data64() { section_data!(xcoff::SectionHeader64) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn section_name32() { section_name!(xcoff::SectionHeader32) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn section_name64() { section_name!(xcoff::SectionHeader64) }
    fn symtab32() { symtab!(xcoff::FileHeader32, xcoff::Symbol32) }
    fn symtab64() { symtab!(xcoff::FileHeader64, xcoff::Symbol64) }
    fn aux_file32() { aux!(xcoff::FileHeader32, aux_file, has_aux_file, xcoff::AUX_FILE) }
    fn aux_file64() { aux!(xcoff::FileHeader64, aux_file, has_aux_file, xcoff::AUX_FILE) }
    fn aux_csect32() { aux!(xcoff::FileHeader32, aux_csect, has_aux_csect, xcoff::AUX_CSECT) }
    fn aux_csect64() { aux!(xcoff::FileHeader64, aux_csect, has_aux_csect, xcoff::AUX_CSECT) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn symname32() { symname!(xcoff::Symbol32) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn symname64() { symname!(xcoff::Symbol64) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn fname32() { fname!(xcoff::FileAux32) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn fname64() { fname!(xcoff::FileAux64) }
    [kani::unwind(3)]
    fn symsteps32() { symsteps!(xcoff::FileHeader32) }
    [kani::unwind(3)]
    fn symsteps64() { symsteps!(xcoff::FileHeader64) }
}

#[cfg(not(kani))]
mod low {
    use super::*;
    use crate::craft::*;
    use crate::fuzz::*;
    use object::read::{Object, ObjectSection, ObjectSymbol, ObjectSymbolTable};

    /// An XCOFF file with sections of each kind, an auxiliary header, and symbols with auxiliary records.
    pub fn image(wide: bool) -> Vec<u8> {
        let exec = uni(3) != 0;
        let aux_len = if wide { 120 } else { 72 };
        let opt = if exec { aux_len } else { [0, 28][uni(2) as usize] };
        let nsec = 5;
        let body_off = (if wide { 24 } else { 20 }) + opt + nsec * if wide { 72 } else { 40 };
        let body_len = 0x80;
        let rel_off = body_off + 0x40;
        let sym_off = body_off + body_len;
        let mut w = W::new(true, wide);
        let mut s = W::new(true, wide);
        let nsyms = symbols(&mut s, wide);
        let flags = if exec { 2u16 } else { 0 };
        if wide { w.u16(0x1f7).u16(nsec as u16).u32(0).u64(sym_off as u64).u16(opt as u16).u16(flags).u32(nsyms); }
        else { w.u16(0x1df).u16(nsec as u16).u32(0).u32(sym_off as u32).u32(nsyms).u16(opt as u16).u16(flags); }
        for i in 0..opt { w.u8(i as u8); }
        let secs = [
            (".text", 0x100u64, 0x20u64, body_off, rel_off, 3u32, 0x20u32),
            (".data", 0x200, 0x20, body_off + 0x20, rel_off, 1, 0x40),
            (".bss", 0x300, 0x40, 0, 0, 0, 0x80),
            (".dwinfo", 0, 0x10, body_off + 0x10, 0, 0, 0x1_0010),
            ("abcdefgh", 0, 0, 0, 0, 0xffff, 0x8000),
        ];
        for (n, a, z, o, r, k, f) in secs {
            w.bytes(&name8(n)).word(a).word(a).word(z).word(o as u64).word(r as u64).word(0);
            if wide { w.u32(k).u32(0).u32(f).u32(0); } else { w.u16(k as u16).u16(0).u32(f); }
        }
        for i in 0..0x40 { w.u8(i); }
        for i in 0..3u64 { w.word(0x100 + i * 8).u32(i as u32).u8([0x1f, 0x3f, 0x8f][i as usize]).u8([0, 2, 3][i as usize]); }
        w.pad(sym_off);
        w.bytes(&s.b);
        w.u32(4 + 20).bytes(b"long_name.c\0function\0");
        w.b
    }
    fn symbols(s: &mut W, wide: bool) -> u32 {
        let mut n = 0;
        let mut sym = |s: &mut W, name: Result<&str, u32>, v: u64, sec: i16, ty: u16, class: u8, aux: &[(u8, u8)]| {
            if wide { s.u64(v).u32(name.err().unwrap_or(4)).u16(sec as u16).u16(ty).u8(class).u8(aux.len() as u8); }
            else { match name { Ok(x) => { s.bytes(&name8(x)); } Err(o) => { s.u32(0).u32(o); } } s.u32(v as u32).u16(sec as u16).u16(ty).u8(class).u8(aux.len() as u8); }
            for &(k, t) in aux {
                match k {
                    // file
                    252 => { if uni(2) == 0 { s.bytes(b"file.c\0\0"); } else { s.u32(0).u32(4); } s.bytes(&[0; 6]).u8(t).bytes(&[0; 2]).u8(if wide { 252 } else { 0 }); }
                    // csect
                    251 => { s.u32(8).u32(0).u16(0).u8(t).u8(uni(18) as u8).u32(0).u8(0).u8(if wide { 251 } else { 0 }); }
                    _ => { s.bytes(&[t; 17]).u8(k); }
                }
            }
            n += 1 + aux.len() as u32;
        };
        sym(s, Ok(".file"), 0, -2, 0, 103, &[(252, 0), (252, 1)]);
        sym(s, Err(16), 0x100, 1, 0, 2, &[(254, 0), (251, 1)]);
        sym(s, Ok("hid"), 0x108, 1, 0, 107, &[(251, 0x19)]);
        sym(s, Ok("label"), 0x110, 1, 0x2000, 111, &[(251, 2)]);
        sym(s, Ok("undef"), 0, 0, 0, 2, &[(251, 0)]);
        sym(s, Ok("common"), 0x300, 3, 0, 2, &[(251, 3)]);
        sym(s, Ok("abs"), 7, -1, 0, 3, &[]);
        sym(s, Ok(""), 0, 0, 0, 0, &[(1, 1)]);
        sym(s, Ok("info"), 0, -2, 0, 110, &[]);
        n
    }
    pub fn images() {
        let wide = uni(2) == 0;
        let mut v = image(wide);
        damage(&mut v, true);
        let d = settle(v);
        walk::<xcoff::FileHeader32>(d);
        walk::<xcoff::FileHeader64>(d);
        any_file(d);
    }
    fn walk<X: FileHeader>(d: &'static [u8]) {
        let Ok(f) = XcoffFile::<X>::parse(d) else { return };
        let t = f.xcoff_symbol_table();
        let _ = (f.xcoff_header().f_timdat(), t.is_empty(), f.xcoff_section_table().is_empty());
        if let Some(a) = f.xcoff_aux_header() { ensure!(inside(bytes_of(a), d), "auxiliary header"); let _ = (a.o_mflag(), a.o_entry().into(), a.o_algntext(), a.o_snbss()); }
        for s in f.xcoff_section_table().iter() {
            if let Ok(b) = s.data(d) { ensure!(inside(b, d), "section data") }
            if let Ok(r) = s.relocations(d) { ensure!(inside(bytes_of_slice(r), d), "relocations") }
            ensure!(inside(s.name(), d), "section name");
        }
        for (i, s) in t.iter().take(500) {
            okb(s.name(t.strings()), d);
            let n = s.n_numaux() as usize;
            if s.has_aux_file() { for k in [1, n, n + 1, usize::MAX] { if let Ok(x) = t.aux_file(i, k) { okb(x.fname(t.strings()), d); let _ = x.x_ftype(); } } }
            if s.has_aux_csect() { for k in [1, n, n + 1, usize::MAX] { if let Ok(x) = t.aux_csect(i, k) { let _ = (x.sym_type(), x.alignment(), x.x_scnlen(), x.x_smclas(), x.x_parmhash(), x.x_snhash(), x.x_stab(), x.x_snstab()); } } }
        }
    }
    /// Every record of the symbol table, as a symbol of its own.
    pub fn records() {
        let wide = uni(2) == 0;
        let mut v = image(wide);
        damage(&mut v, true);
        let d = settle(v);
        fn go<'d, O: Object<'d>>(o: &O, d: &'d [u8]) {
            for i in 0..25 { if let Ok(s) = o.symbol_by_index(SymbolIndex(i)) {
                okb(s.name_bytes(), d);
                let _ = (s.size(), s.kind(), s.is_definition(), s.scope(), s.flags(), s.section());
            } }
        }
        if let Ok(f) = XcoffFile32::parse(d) { go(&f, d) }
        if let Ok(f) = XcoffFile64::parse(d) { go(&f, d) }
    }

    fn num(w: &mut W, v: u64, n: usize, ebcdic: bool) {
        let mut s = format!("{v}").into_bytes();
        s.resize(n, b' ');
        if ebcdic { for c in &mut s { *c = if *c == b' ' { 0x40 } else { *c - b'0' + 0xf0 } } }
        w.bytes(&s);
    }
    fn head(w: &mut W, name: &[u8], size: u64, ebcdic: bool) {
        let mut n = name.to_vec();
        n.resize(16, if ebcdic { 0x40 } else { b' ' });
        w.bytes(&n);
        for (v, k) in [(123456, 12), (7, 6), (8, 6), (100644, 8)] { num(w, v, k, ebcdic) }
        num(w, size, 10, ebcdic);
        w.bytes(if ebcdic { &[0x79, 0x15] } else { b"`\n" });
    }
    fn body(w: &mut W, b: &[u8]) { w.bytes(b); if b.len() & 1 == 1 { w.u8(b'\n'); } }
    /// An archive of each kind: symbol table, name table, members with short and extended names.
    pub fn sample() -> Vec<u8> {
        let kind = uni(9);
        let mut w = W::new(true, false);
        match kind {
            7 => return aix(),
            8 => {
                w.bytes(&archive::ZOS_MAGIC);
                if uni(2) == 0 { head(&mut w, &[0x6D, 0x6D, 0x4B, 0xE2, 0xE8, 0xD4, 0xC4, 0xC5, 0xC6], 5, true); body(&mut w, b"01234"); }
                head(&mut w, &[0x81, 0x4b, 0x96], 7, true);
                body(&mut w, b"member1");
                head(&mut w, &[0x7B, 0xF1, 0x61, 0xf4, 0x40], 9, true);
                body(&mut w, b"name.data");
                return w.b;
            }
            _ => {}
        }
        w.bytes(if kind == 6 { &archive::THIN_MAGIC } else { &archive::MAGIC });
        let names: &[u8] = if kind == 3 { b"a_long_name_with_nul\0second\0" } else { b"a_long_name_for_member.o/\nsecond/\n" };
        match kind {
            0 | 6 => { head(&mut w, b"/", 4 + 8 + 8, false); w.u32(2).u32(200).u32(300).bytes(b"foo\0bar\0"); head(&mut w, b"//", names.len() as u64, false); body(&mut w, names); }
            1 => { head(&mut w, b"/SYM64/", 8 + 16 + 8, false); w.u64(2).u64(200).u64(300).bytes(b"foo\0bar\0"); head(&mut w, b"//", names.len() as u64, false); body(&mut w, names); }
            2 => { head(&mut w, b"//", names.len() as u64, false); body(&mut w, names); }
            3 => {
                head(&mut w, b"/", 4 + 8 + 8, false); w.u32(2).u32(200).u32(300).bytes(b"foo\0bar\0");
                let mut l = W::new(false, false);
                l.u32(2).u32(200).u32(300).u32(2).u16(1).u16(2).bytes(b"bar\0foo\0");
                head(&mut w, b"/", l.b.len() as u64, false); body(&mut w, &l.b);
                if uni(4) != 0 { head(&mut w, b"//", names.len() as u64, false); body(&mut w, names); }
                if uni(2) == 0 { head(&mut w, b"/<ECSYMBOLS>/", 4, false); w.u32(0); }
            }
            4 => {
                let mut l = W::new(false, false);
                l.u32(16).u32(0).u32(200).u32(4).u32(300).u32(8).bytes(b"foo\0bar\0");
                if uni(2) == 0 { head(&mut w, b"__.SYMDEF", l.b.len() as u64, false); } else { head(&mut w, b"#1/20", l.b.len() as u64 + 20, false); w.bytes(b"__.SYMDEF SORTED\0\0\0\0"); }
                body(&mut w, &l.b);
            }
            5 => {
                let mut l = W::new(false, false);
                l.u64(32).u64(0).u64(200).u64(4).u64(300).u64(8).bytes(b"foo\0bar\0");
                if uni(2) == 0 { head(&mut w, b"__.SYMDEF_64", l.b.len() as u64, false); } else { head(&mut w, b"#1/20", l.b.len() as u64 + 20, false); w.bytes(b"__.SYMDEF_64 SORTED\0"); }
                body(&mut w, &l.b);
            }
            _ => {}
        }
        head(&mut w, b"short.o/", 7, false);
        if kind != 6 { body(&mut w, b"member1"); }
        for n in [&b"/0"[..], b"/26", b"has space/", b"bare", b"#1/12"] {
            if n[0] == b'/' && (4..6).contains(&kind) || n[0] == b'#' && kind < 4 { continue }
            head(&mut w, n, 16, false);
            if kind != 6 { body(&mut w, b"bsd_name\0\0\0\0data"); }
        }
        w.b
    }
    fn aix() -> Vec<u8> {
        let mut w = W::new(true, false);
        let mut m: Vec<(u64, W)> = vec![];
        let mut at = 128u64;
        let member = |name: &[u8], data: &[u8], at: u64| {
            let mut w = W::new(true, false);
            num(&mut w, data.len() as u64, 20, false);
            for _ in 0..2 { num(&mut w, 0, 20, false) }
            for v in [1234, 1, 2, 100644] { num(&mut w, v, 12, false) }
            num(&mut w, name.len() as u64, 4, false);
            w.bytes(name);
            if w.b.len() & 1 == 1 { w.u8(0); }
            w.bytes(b"`\n").bytes(data);
            if w.b.len() & 1 == 1 { w.u8(0); }
            (at, w)
        };
        let mut push = |m: &mut Vec<(u64, W)>, name: &[u8], data: &[u8]| { let x = member(name, data, at); at += x.1.b.len() as u64; m.push(x); };
        push(&mut m, b"one.o", b"first member");
        push(&mut m, b"second_name.o", b"second");
        let mut t = W::new(true, false);
        num(&mut t, 2, 20, false);
        for i in 0..2 { num(&mut t, m[i].0, 20, false) }
        t.bytes(b"one.o\0second_name.o\0");
        push(&mut m, b"", &t.b);
        push(&mut m, b"", b"\0\0\0\0\0\0\0\x01\0\0\0\0\0\0\0\x80foo\0");
        w.bytes(&archive::AIX_BIG_MAGIC);
        let which = uni(3);
        let z = m[3].0;
        for v in [if uni(8) == 0 { 0 } else { m[2].0 }, if which == 0 { z } else { 0 }, if which == 1 { z } else { 0 }, m[0].0, m[1].0, 0] { num(&mut w, v, 20, false) }
        for x in m { w.bytes(&x.1.b); }
        w.b
    }
    /// Damage that keeps numbers numbers, half of the time.
    fn damage_digits(d: &mut Vec<u8>) {
        for _ in 0..1 + uni(3) {
            if d.is_empty() { return }
            let p = uni(d.len() as u64) as usize;
            // the next digit from here
            // or a number next to the largest one
            if uni(4) == 0 && d.len() > p + 20 {
                let p = (p..d.len() - 20).find(|&q| d[q].is_ascii_digit()).unwrap_or(p);
                d[p..p + 20].copy_from_slice(format!("184467440737095516{:02}", 10 + uni(12)).as_bytes());
                continue;
            }
            let Some(q) = (p..d.len()).find(|&q| d[q].is_ascii_digit() || d[q] >= 0xf0) else { continue };
            d[q] = match uni(6) { 0 => b' ', 1 => b'9', 2 => b'/', 3 => b'0', 4 => 0, _ => d[q].wrapping_add(1) };
        }
    }
    pub fn archives() {
        let mut v = sample();
        if uni(2) == 0 { damage(&mut v, uni(2) == 0) } else { damage_digits(&mut v) }
        let d = settle(v);
        let _ = object::FileKind::parse(d);
        let Ok(a) = ArchiveFile::parse(d) else { return };
        let _ = (a.kind(), a.is_thin());
        let member = |m: &ArchiveMember| {
            ensure!(inside(m.name(), d), "member name");
            let _ = (m.date(), m.uid(), m.gid(), m.mode(), m.is_thin(), m.header().is_some(), m.aix_header().is_some());
            if let Ok(b) = m.data(d) { ensure!(inside(b, d), "member data"); if b.len() < d.len() { let _ = object::FileKind::parse(b); } }
        };
        let mut it = a.members();
        let mut n = 0;
        while let Some(m) = it.next() {
            n += 1;
            ensure!(n <= d.len(), "iteration makes progress");
            match m { Ok(m) => member(&m), Err(_) => ensure!(it.next().is_none(), "iteration ends after an error") }
        }
        if let Ok(Some(s)) = a.symbols() {
            let (lo, hi) = s.size_hint();
            ensure!(hi == Some(lo) || lo == 0, "a size hint");
            for x in s.take(500) { if let Ok(x) = x { ensure!(inside(x.name(), d), "symbol name"); if let Ok(m) = a.member(x.offset()) { member(&m) } } }
        }
        for _ in 0..4 { if let Ok(m) = a.member(ArchiveOffset(value(8, 8, d, true))) { member(&m) } }
    }
}
natives! {
    /// Damaged XCOFF files.
    fn images() { low::images() }
    fn records() { low::records() }
    /// Damaged archives of each kind.
    fn archives() { low::archives() }
}
