//! Malformed ELF input.
use crate::shim::*;
use ::memchr_dep as mc;
use object::elf;
use object::pod::{bytes_of, bytes_of_slice};
use object::read::elf::*;
use object::read::{SectionIndex, StringTable, SymbolIndex};
use object::Endianness;

type F32 = elf::FileHeader32<Endianness>;
type F64 = elf::FileHeader64<Endianness>;
macro_rules! inside { ($b:expr, $d:expr) => { ensure!(inside($b, $d), "the result is made of bytes of the file") } }
fn le(x: usize, a: usize) -> usize { (x + (a - 1)) & !(a - 1) }

macro_rules! header { ($t:ty, $($what:tt)*) => {{
    let d = any_bytes::<128>();
    if let Ok(h) = <$t>::parse(d) {
        inside!(bytes_of(h), d);
        if let Ok(e) = h.endian() { header!(@ $($what)*, h, e, d) }
    }
}};
(@ ph, $h:ident, $e:ident, $d:ident) => {{
    let n = $h.phnum($e, $d);
    if let Ok(p) = $h.program_headers($e, $d) {
        reach!(p.len() > 1000, "many program headers");
        inside!(bytes_of_slice(p), $d);
        ensure!(p.is_empty() || n == Ok(p.len() as u32), "as many program headers as declared");
    }
}};
(@ sh, $h:ident, $e:ident, $d:ident) => {{
    let n = $h.shnum($e, $d);
    if let Ok(p) = $h.section_headers($e, $d) {
        reach!(p.len() > 70000, "extended numbering");
        inside!(bytes_of_slice(p), $d);
        ensure!(p.is_empty() || n == Ok(p.len() as u32), "as many section headers as declared");
    }
}};
(@ str, $h:ident, $e:ident, $d:ident) => {{
    let _ = $h.shstrndx($e, $d);
    let _ = $h.section_strings_index($e, $d);
}}
}
macro_rules! tables { ($s:ident, $($what:tt)*) => {{
    let (d, e) = (any_bytes::<128>(), any_endian());
    let h = any_pod!(elf::$s<Endianness>);
    let (o, n) = (u64::from(h.sh_offset(e)), u64::from(h.sh_size(e)));
    let sec = if h.sh_type(e) != elf::SHT_NOBITS && read_spec(d, o, n) && n > 0 { &d[o as usize..(o + n) as usize] } else { &[][..] };
    tables!(@ $($what)*, h, e, d, sec, o, n)
}};
(@ rel, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    if let Ok(Some((r, l))) = $h.rel($e, $d) { reach!(r.len() > 1000, "relocations"); inside!(bytes_of_slice(r), $sec); ensure!(l.0 == $h.sh_link($e) as usize, "linked section"); }
}};
(@ rela, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    if let Ok(Some((r, l))) = $h.rela($e, $d) { reach!(r.len() > 1000, "relocations"); inside!(bytes_of_slice(r), $sec); ensure!(l.0 == $h.sh_link($e) as usize, "linked section"); }
}};
(@ dynamic, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    if let Ok(Some((r, _))) = $h.dynamic($e, $d) { reach!(r.len() > 1000, "dynamic entries"); inside!(bytes_of_slice(r), $sec); }
}};
(@ group, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    if let Ok(Some((_, r))) = $h.group($e, $d) { reach!(r.len() > 1000, "group members"); inside!(bytes_of_slice(r), $sec); }
}};
(@ versym, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    if let Ok(Some((r, _))) = $h.gnu_versym($e, $d) { reach!(r.len() > 1000, "symbol versions"); inside!(bytes_of_slice(r), $sec); }
}};
(@ hash, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    if let Ok(Some(r)) = $h.hash_header($e, $d) { inside!(bytes_of(r), $d); }
    let r = $h.hash($e, $d);
    reach!(matches!(r, Ok(Some(_))), "a hash table");
}};
(@ gnu_hash, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    if let Ok(Some(r)) = $h.gnu_hash_header($e, $d) { inside!(bytes_of(r), $d); }
    let r = $h.gnu_hash($e, $d);
    reach!(matches!(r, Ok(Some(_))), "a hash table");
}};
(@ compression, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    if let Ok(Some((c, o2, n2))) = $h.compression($e, $d) {
        reach!(n2 > 1000, "compressed data");
        inside!(bytes_of(c), $d);
        ensure!(o2 >= $o && o2 - $o <= $n && n2 == $n - (o2 - $o), "the payload is the rest of the section");
    }
}};
(@ strings, $h:ident, $e:ident, $d:ident, $sec:ident, $o:ident, $n:ident) => {{
    let r = $h.strings($e, $d);
    reach!(matches!(r, Ok(Some(_))), "a string table");
}}
}
macro_rules! segment { ($s:ident) => {{
    let (d, e) = (any_bytes::<128>(), any_endian());
    let h = any_pod!(elf::$s<Endianness>);
    let (o, n) = h.file_range(e);
    let seg = if read_spec(d, o, n) && n > 0 { &d[o as usize..(o + n) as usize] } else { &[][..] };
    if let Ok(r) = h.data(e, d) { inside!(r, seg); }
    if let Ok(Some(r)) = h.dynamic(e, d) { inside!(bytes_of_slice(r), seg); }
    if let Ok(Some(r)) = h.data_range(e, d, any(), any()) { inside!(r, seg); }
}}}
macro_rules! note { ($t:ty, $w:ty) => {{
    let (d, e) = (any_bytes::<64>(), any_endian());
    let align: $w = any();
    let r = NoteIterator::<$t>::new(e, align, d);
    ensure!(r.is_ok() == (align <= 4 || align == 8), "alignments 4 and 8 are supported");
    if let Ok(mut it) = r {
        let a = if align == 8 { 8 } else { 4 };
        let r = it.next();
        let rd = |at: usize| { let b = [d[at], d[at + 1], d[at + 2], d[at + 3]]; (if e == Endianness::Big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }) as usize };
        match r {
            Ok(None) => ensure!(d.is_empty(), "the end only at the end"),
            Ok(Some(n)) => {
                reach!(n.desc().len() > 1000, "a note");
                let (ns, ds) = (rd(0), rd(4));
                ensure!(n.name_bytes().is_empty() && ns == 0 || is_at(n.name_bytes(), d, 12, ns), "the name follows the header");
                ensure!(n.desc().is_empty() && ds == 0 || is_at(n.desc(), d, le(12 + ns, a), ds), "the descriptor follows the padded name");
                ensure!(n.n_type(e).0 as usize == rd(8), "the type");
                let end = le(le(12 + ns, a) + ds, a);
                if end >= d.len() { ensure!(matches!(it.next(), Ok(None)), "nothing after the last note"); }
            }
            Err(_) => {
                ensure!(d.len() < 12 || { let (ns, ds) = (rd(0), rd(4)); ns > d.len() - 12 || le(12 + ns, a) > d.len() || ds > d.len() - le(12 + ns, a) }, "an error only when the note is cut off");
                ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error");
            }
        }
    }
}}}
macro_rules! verdef { ($s:ident) => {{
    let (d, e) = (any_bytes::<64>(), any_endian());
    let mut h = any_pod!(elf::$s<Endianness>);
    h.sh_offset.set(e, 0);
    h.sh_size.set(e, d.len() as _);
    if let Ok(Some((mut it, _))) = h.gnu_verdef(e, d) {
        match it.next() {
            Ok(Some((v, mut aux))) => {
                inside!(bytes_of(v), d);
                match aux.next() {
                    Ok(Some(a)) => { reach!(a.vda_next.get(e) > 100, "an auxiliary entry"); inside!(bytes_of(a), d); let _ = aux.next(); }
                    Ok(None) => {}
                    Err(_) => ensure!(matches!(aux.next(), Ok(None)), "iteration ends after an error"),
                }
                let _ = it.next();
            }
            Ok(None) => {}
            Err(_) => ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"),
        }
    }
}}}
macro_rules! verneed { ($s:ident) => {{
    let (d, e) = (any_bytes::<64>(), any_endian());
    let mut h = any_pod!(elf::$s<Endianness>);
    h.sh_offset.set(e, 0);
    h.sh_size.set(e, d.len() as _);
    if let Ok(Some((mut it, _))) = h.gnu_verneed(e, d) {
        match it.next() {
            Ok(Some((v, mut aux))) => {
                inside!(bytes_of(v), d);
                match aux.next() {
                    Ok(Some(a)) => { reach!(a.vna_next.get(e) > 100, "an auxiliary entry"); inside!(bytes_of(a), d); let _ = aux.next(); }
                    Ok(None) => {}
                    Err(_) => ensure!(matches!(aux.next(), Ok(None)), "iteration ends after an error"),
                }
                let _ = it.next();
            }
            Ok(None) => {}
            Err(_) => ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"),
        }
    }
}}}
macro_rules! symbols { ($t:ty, $s:ident) => {{
    let (d, e) = (any_bytes::<128>(), any_endian());
    let h = any_pod!(elf::$s<Endianness>);
    assume(h.sh_type(e) == elf::SHT_SYMTAB);
    // one more section of any kind: it may hold the extended indices or be the string table
    let more = [any_pod!(elf::$s<Endianness>)];
    let secs = SectionTable::<$t>::new(&more, StringTable::default());
    let (o, n) = (u64::from(h.sh_offset(e)), u64::from(h.sh_size(e)));
    if let Ok(t) = SymbolTable::parse(e, d, &secs, SectionIndex(any()), &h) {
        let seg = if read_spec(d, o, n) && n > 0 { &d[o as usize..(o + n) as usize] } else { &[][..] };
        inside!(bytes_of_slice(t.symbols()), seg);
        let i = SymbolIndex(any());
        let r = t.symbol(i);
        ensure!(r.is_ok() == (i.0 < t.len()) || i.0 == 0, "a symbol exactly for the indices of the table");
        if let Ok(s) = r {
            reach!(i.0 > 1000, "a symbol");
            let x = t.shndx(e, i);
            let w = s.st_shndx(e);
            match t.symbol_section(e, s, i) {
                Ok(Some(k)) => ensure!(k.0 == if w == elf::SHN_XINDEX { x.unwrap() as usize } else { w.0 as usize }, "the section of the symbol"),
                Ok(None) => {}
                Err(_) => ensure!(w == elf::SHN_XINDEX && x.is_none(), "an error only for a missing extended index"),
            }
        }
    }
}}}
macro_rules! attributes { ($t:ty) => {{
    let (d, e) = (any_bytes::<64>(), any_endian());
    if let Ok(a) = AttributesSection::<$t>::new(e, d) {
        if let Ok(mut it) = a.subsections() {
            match it.next() {
                Ok(Some(s)) => {
                    inside!(s.vendor(), d);
                    ensure!(s.length() as usize + 1 <= d.len(), "a subsection is inside its section");
                    match s.subsubsections().next() {
                        Ok(Some(t)) => {
                            reach!(t.attributes_data().len() > 100, "attributes");
                            ensure!(t.length() <= s.length(), "nested lengths");
                            inside!(t.indices_data(), d);
                            inside!(t.attributes_data(), d);
                        }
                        _ => {}
                    }
                }
                Ok(None) => {}
                Err(_) => ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"),
            }
        }
    }
}}}

harnesses! {
    /// Every file of any length.
    fn header_ph32() { header!(F32, ph) }
    fn header_sh32() { header!(F32, sh) }
    fn header_str32() { header!(F32, str) }
    fn header_ph64() { header!(F64, ph) }
    fn header_sh64() { header!(F64, sh) }
    fn header_str64() { header!(F64, str) }
    /// Every section header over every file.
    fn rel32() { tables!(SectionHeader32, rel) }
    fn rela32() { tables!(SectionHeader32, rela) }
    fn dynamic32() { tables!(SectionHeader32, dynamic) }
    fn group32() { tables!(SectionHeader32, group) }
    fn versym32() { tables!(SectionHeader32, versym) }
    fn hash32() { tables!(SectionHeader32, hash) }
    fn gnu_hash32() { tables!(SectionHeader32, gnu_hash) }
    fn compression32() { tables!(SectionHeader32, compression) }
    fn strings32() { tables!(SectionHeader32, strings) }
    fn rel64() { tables!(SectionHeader64, rel) }
    fn rela64() { tables!(SectionHeader64, rela) }
    fn dynamic64() { tables!(SectionHeader64, dynamic) }
    fn group64() { tables!(SectionHeader64, group) }
    fn versym64() { tables!(SectionHeader64, versym) }
    fn hash64() { tables!(SectionHeader64, hash) }
    fn gnu_hash64() { tables!(SectionHeader64, gnu_hash) }
    fn compression64() { tables!(SectionHeader64, compression) }
    fn strings64() { tables!(SectionHeader64, strings) }
    fn segment32() { segment!(ProgramHeader32) }
    fn note32() { note!(F32, u32) }
    fn verdef32() { verdef!(SectionHeader32) }
    fn verneed32() { verneed!(SectionHeader32) }
    fn symbols32() { symbols!(F32, SectionHeader32) }
    fn segment64() { segment!(ProgramHeader64) }
    fn note64() { note!(F64, u64) }
    fn verdef64() { verdef!(SectionHeader64) }
    fn verneed64() { verneed!(SectionHeader64) }
    fn symbols64() { symbols!(F64, SectionHeader64) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn attributes32() { attributes!(F32) }
}

#[cfg(not(kani))]
pub mod low {
    use super::*;
    use crate::craft::*;
    use crate::fuzz::*;
    use object::read::{self, ReadRef};

    /// One of everything the ELF readers read.
    pub fn sample(big: bool, wide: bool, exec: bool) -> Vec<u8> {
        let machine = [62u16, 3, 40, 183, 8, 20, 21, 22, 243, 258, 2, 43][uni(12) as usize];
        let ns = 5 + uni(4) as usize; // symbols
        let mut names = W::new(big, wide);
        names.u8(0);
        let mut sh: Vec<Sh> = vec![Sh::default()];
        let nph = if exec { 6 } else { 0 };
        let boff = elf_body_off(wide, nph);
        let mut w = W::new(big, wide);
        let ws = if wide { 8u64 } else { 4 };
        let addr = |off: u64| if exec { 0x10000 + off } else { 0 };
        macro_rules! sec { ($name:expr, $typ:expr, $flags:expr, $link:expr, $info:expr, $ent:expr, $f:expr) => {{
            w.align(8);
            let at = w.pos();
            let f: &mut dyn FnMut(&mut W) = &mut $f;
            f(&mut w);
            let n = names.pos() as u32;
            names.bytes($name.as_bytes()).u8(0);
            sh.push(Sh { name: n, typ: $typ, flags: $flags, addr: if $flags & 2 != 0 { addr(boff + at) } else { 0 }, off: boff + at, size: w.pos() - at, link: $link, info: $info, align: 8, ent: $ent });
            sh.len() - 1
        }} }
        let sym = |w: &mut W, name: u32, info: u8, other: u8, shndx: u16, val: u64, size: u64| {
            if wide { w.u32(name).u8(info).u8(other).u16(shndx).u64(val).u64(size); } else { w.u32(name).u32(val as u32).u32(size as u32).u8(info).u8(other).u16(shndx); }
        };
        let sysv = |n: &[u8]| { let mut h: u32 = 0; for &c in n { h = (h << 4).wrapping_add(c as u32); h ^= (h & 0xf000_0000) >> 24; h &= 0x0fff_ffff } h };
        let gnu = |n: &[u8]| { let mut h: u32 = 5381; for &c in n { h = h.wrapping_mul(33).wrapping_add(c as u32) } h };
        let rel = |w: &mut W, o: u64, s: u32, t: u32, a: Option<i64>| {
            w.word(o).word(if wide { (s as u64) << 32 | t as u64 } else { ((s << 8) | t & 0xff) as u64 });
            if let Some(a) = a { w.word(a as u64); }
        };
        let strs: &[u8] = b"\0f0\0f1\0f2\0f3\0f4\0f5\0f6\0lib.so\0V1\0V2\0/rpath\0";
        let sname = |i: usize| if i == 0 { 0 } else { 3 * i as u32 - 2 };
        let text = sec!(".text", 1, 6, 0, 0, 0, |w| { w.bytes(&[0x90; 24]); });
        // 2 symtab 3 strtab 4 symtab_shndx 5 dynsym 6 dynstr
        sec!(".symtab", 2, 0, 3, 2, if wide { 24 } else { 16 }, |w| for i in 0..ns { sym(w, sname(i), if i == 0 { 0 } else { 0x12 - (i as u8 & 1) }, 0, if i == 0 { 0 } else if i == 4 { 0xffff } else { [1, 0, 0xfff1, 0xfff2][i % 4] }, 0x10000 + 4 * i as u64, 4) });
        sec!(".strtab", 3, 0, 0, 0, 0, |w| { w.bytes(strs); });
        sec!(".symtab_shndx", 18, 0, 2, 0, 4, |w| for i in 0..ns { w.u32(i as u32); });
        sec!(".dynsym", 11, 2, 6, 1, if wide { 24 } else { 16 }, |w| for i in 0..ns { sym(w, sname(i), if i == 0 { 0 } else { 0x12 }, 0, if i % 2 == 0 { 0 } else { 1 }, 0x10000 + 4 * i as u64, 4) });
        let dynstr = sec!(".dynstr", 3, 2, 0, 0, 0, |w| { w.bytes(strs); });
        let hash = sec!(".hash", 5, 2, 5, 0, 4, |w| {
            let mut b = [0u32; 3];
            let mut c = vec![0u32; ns];
            for i in 1..ns { let k = (sysv(&strs[sname(i) as usize..][..2]) % 3) as usize; c[i] = b[k]; b[k] = i as u32; }
            w.u32(3).u32(ns as u32);
            for x in b.iter().chain(&c) { w.u32(*x); }
        });
        let gnuhash = sec!(".gnu.hash", 0x6fff_fff6, 2, 5, 0, 0, |w| {
            w.u32(1).u32(1).u32(1).u32(5).word(u64::MAX).u32(1);
            for i in 1..ns { w.u32(gnu(&strs[sname(i) as usize..][..2]) & !1 | (i + 1 == ns) as u32); }
        });
        let versym = sec!(".gnu.version", 0x6fff_ffff, 2, 5, 0, 2, |w| for i in 0..ns { w.u16([0, 2, 3, 0x8002, 1][i % 5]); });
        let verdef = sec!(".gnu.version_d", 0x6fff_fffd, 2, 6, 2, 0, |w| {
            w.u16(1).u16(1).u16(1).u16(1).u32(0x123).u32(20).u32(28).u32(22).u32(0);
            w.u16(1).u16(0).u16(2).u16(1).u32(sysv(b"V1")).u32(20).u32(0).u32(29).u32(0);
        });
        let verneed = sec!(".gnu.version_r", 0x6fff_fffe, 2, 6, 1, 0, |w| { w.u16(1).u16(1).u32(22).u32(16).u32(0).u32(sysv(b"V2")).u16(0).u16(3).u32(32).u32(0); });
        let note = sec!(".note.gnu.build-id", 7, 2, 0, 0, 0, |w| {
            w.u32(4).u32(8).u32(3).bytes(b"GNU\0").bytes(b"buildid!");
            w.u32(4).u32(if wide { 32 } else { 24 }).u32(5).bytes(b"GNU\0").u32(0xc000_0002).u32(4).u32(3);
            if wide { w.u32(0); }
            w.u32(0xc000_8002).u32(4).u32(1);
            if wide { w.u32(0); }
        });
        let rela = sec!(".rela.text", 4, 0x40, 2, 1, 3 * ws, |w| { rel(w, 4, 1, 1, Some(-4)); rel(w, 8, 2, 2, Some(7)); rel(w, 0, 0, 0, Some(0)); });
        sec!(".rel.text", 9, 0x40, 2, 1, 2 * ws, |w| { rel(w, 4, 1, 1, None); rel(w, 12, 3, 4, None); });
        let relr = sec!(".relr.dyn", 19, 2, 0, 0, ws, |w| { w.word(0x10000).word(0x15).word(0x8000_0001); });
        sec!(".crel.text", 0x4000_0014, 0x40, 2, 1, 1, |w| { w.bytes(&[3 << 3 | 4, 0x0f, 1, 1, 0x7c, 0x89, 0x02, 2, 4, 0x05, 0x01]); });
        let grp = if exec { 0 } else { sec!(".group", 17, 0, 2, 1, 4, |w| { w.u32(1).u32(1).u32(2); }) };
        let dyna = sec!(".dynamic", 6, 3, 6, 0, 2 * ws, |w| {
            for (t, v) in [(1u64, 22u64), (1, 29), (14, 22), (29, 36), (5, 0x10000), (4, 0x10000), (0x6fff_fffb, 1), (0x6fff_fff0, 5), (0, 0), (1, 1)] { w.word(t).word(v); }
        });
        sec!(".debug_info", 1, 0x800, 0, 0, 0, |w| { w.u32(1); if wide { w.u32(0); } w.word(11).word(1).bytes(b"compressed!"); });
        sec!(".zdebug_loc", 1, 0, 0, 0, 0, |w| { w.bytes(b"ZLIB\0\0\0\0\0\0\0\x09compress"); });
        sec!(".ARM.attributes", if machine == 40 { 0x7000_0003 } else { 0x6fff_fff5 }, 0, 0, 0, 0, |w| {
            w.u8(b'A').u32(33).bytes(b"aeabi\0");
            w.u8(1).u32(10).bytes(&[5, b'8', 0, 6, 9]);
            w.u8(2).u32(8).bytes(&[1, 0, 9]);
            w.bytes(&[1, 5]);
            w.bytes(&[0, 0, 0]);
        });
        sec!(".gnu_debuglink", 1, 0, 0, 0, 0, |w| { w.bytes(b"file.dbg\0\0\0\0").u32(0x1234_5678); });
        sec!(".gnu_debugaltlink", 1, 0, 0, 0, 0, |w| { w.bytes(b"alt.dbg\0idididid"); });
        let interp = sec!(".interp", 1, 2, 0, 0, 0, |w| { w.bytes(b"/lib/ld.so\0"); });
        sec!(".bss", 8, 3, 0, 0, 0, |w| { w.bytes(&[]); });
        let nb = sh.len() - 1;
        sh[nb].size = 0x100;
        sh[nb].off = [boff, 0xffff_0000][uni(2) as usize];
        let n = names.pos() as u32;
        names.bytes(b".shstrtab\0");
        w.align(8);
        let at = w.pos();
        w.bytes(&names.b);
        sh.push(Sh { name: n, typ: 3, off: boff + at, size: names.pos(), ..Sh::default() });
        let _ = (text, grp, relr, rela, hash, gnuhash, versym, verdef, verneed, dynstr);
        let end = boff + w.pos();
        let mut ph = vec![];
        if exec {
            let seg = |t: u32, i: usize| Ph { typ: t, flags: 4, off: sh[i].off, vaddr: sh[i].addr, paddr: sh[i].addr, filesz: sh[i].size, memsz: sh[i].size, align: 8 };
            ph = vec![Ph { typ: 1, flags: 5, off: 0, vaddr: 0x10000, paddr: 0x10000, filesz: end, memsz: end + 64, align: 0x1000 },
                seg(2, dyna), seg(3, interp), seg(4, note), seg(0x6474_e553, note), Ph { typ: 0x6474_e551, flags: 6, align: 16, ..Ph::default() }];
            ph.truncate(nph);
        }
        let nsh = sh.len() as u16;
        let mut f = elf(big, wide, if exec { 2 + uni(2) as u16 } else { 1 }, machine, &w.b, &ph, &sh, nsh - 1);
        // numbering through section 0, as large files do
        if uni(6) == 0 {
            let mut v = W::new(big, wide);
            v.b = f;
            let shoff = if wide { 40 } else { 32 };
            let s0 = load(&v.b[shoff..shoff + if wide { 8 } else { 4 }], big) as usize;
            let (shnum, shstr) = if wide { (60, 62) } else { (48, 50) };
            store(&mut v.b[shnum..shnum + 2], 0, big);
            store(&mut v.b[shstr..shstr + 2], 0xffff, big);
            v.set_word(s0 + if wide { 32 } else { 20 }, nsh as u64);
            v.set_u32(s0 + if wide { 40 } else { 24 }, nsh as u32 - 1);
            if exec && uni(2) == 0 {
                let phnum = if wide { 56 } else { 44 };
                store(&mut v.b[phnum..phnum + 2], 0xffff, big);
                v.set_u32(s0 + if wide { 44 } else { 28 }, nph as u32);
            }
            f = v.b;
        }
        f
    }
    fn notes<H: FileHeader<Endian = Endianness>>(e: Endianness, r: object::Result<Option<NoteIterator<'_, H>>>, d: &[u8]) {
        if let Ok(Some(mut it)) = r {
            for _ in 0..500 {
                match it.next() {
                    Ok(Some(n)) => {
                        ensure!(inside(n.name(), d) && inside(n.name_bytes(), d) && inside(n.desc(), d), "note");
                        let _ = (n.n_type(e), n.n_namesz(e), n.n_descsz(e));
                        ensure!(n.name().len() <= n.n_namesz(e) as usize && n.desc().len() <= n.n_descsz(e) as usize, "no more than the declared lengths");
                        if let Some(mut p) = n.gnu_properties(e) {
                            for _ in 0..500 {
                                match p.next() {
                                    Ok(Some(q)) => {
                                        ensure!(inside(q.pr_data(), n.desc()), "property data inside the descriptor");
                                        let _ = q.pr_type();
                                        ensure!(q.data_u32(e).is_ok() == (q.pr_data().len() >= 4), "a word exactly when there is one");
                                    }
                                    Ok(None) => break,
                                    Err(_) => { ensure!(matches!(p.next(), Ok(None)), "iteration ends after an error"); break }
                                }
                            }
                        }
                    }
                    Ok(None) => return,
                    Err(_) => { ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"); return }
                }
            }
        }
    }
    fn symbols<H: FileHeader<Endian = Endianness>>(e: Endianness, t: &SymbolTable<'_, H>, s: &SectionTable<'_, H>, d: &[u8]) {
        ensure!(inside(bytes_of_slice(t.symbols()), d), "symbols");
        let _ = (t.is_empty(), t.section(), t.shndx_section(), t.string_section(), t.strings());
        for (i, y) in t.enumerate().take(1000) {
            okb(t.symbol_name(e, y), d);
            okb(y.name(e, t.strings()), d);
            let _ = (t.shndx(e, i), t.symbol_section(e, y, i), y.st_info(), y.st_bind(), y.st_type(), y.st_visibility(), y.is_undefined(e), y.is_common(e), y.is_absolute(e), y.is_local(), y.is_weak());
            if let Ok(Some(k)) = t.symbol_section(e, y, i) { let _ = s.section(k); }
        }
        for i in [0, t.len(), t.len() + 1, usize::MAX, value(t.len() as u64, 4, d, false) as usize] {
            let r = t.symbol(SymbolIndex(i));
            ensure!(i == 0 || r.is_ok() == (i < t.len()), "a symbol exactly for the indices of the table");
            let _ = t.shndx(e, SymbolIndex(i));
        }
    }
    fn attrs<H: FileHeader<Endian = Endianness>>(a: AttributesSection<'_, H>, d: &[u8]) {
        let _ = a.version();
        let Ok(mut it) = a.subsections() else { return };
        for _ in 0..200 {
            match it.next() {
                Ok(Some(s)) => {
                    ensure!(inside(s.vendor(), d), "vendor");
                    let mut jt = s.subsubsections();
                    for _ in 0..200 {
                        match jt.next() {
                            Ok(Some(t)) => {
                                ensure!(inside(t.indices_data(), d) && inside(t.attributes_data(), d), "attribute data");
                                ensure!(t.length() <= s.length(), "nested lengths");
                                let _ = t.tag();
                                let mut k = t.indices();
                                for _ in 0..200 { match k.next() { Ok(Some(_)) => {} Ok(None) => break, Err(_) => { ensure!(matches!(k.next(), Ok(None)), "iteration ends after an error"); break } } }
                                let mut r = t.attributes();
                                while let Ok(Some(g)) = r.read_tag() {
                                    if g % 2 == 1 || g == 4 { match r.read_string() { Ok(x) => ensure!(inside(x, d), "attribute string"), Err(_) => break } }
                                    else if r.read_integer().is_err() { break }
                                }
                            }
                            Ok(None) => break,
                            Err(_) => { ensure!(matches!(jt.next(), Ok(None)), "iteration ends after an error"); break }
                        }
                    }
                }
                Ok(None) => break,
                Err(_) => { ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"); break }
            }
        }
    }
    /// The low-level readers.
    pub fn walk<H: FileHeader<Endian = Endianness>>(d: &'static [u8]) {
        let Ok(h) = H::parse(d) else { return };
        let Ok(e) = h.endian() else { return };
        let _ = (h.phnum(e, d), h.shnum(e, d), h.shstrndx(e, d), h.section_0(e, d).is_ok(), h.is_type_64(), h.is_mips64el(e));
        if let Ok(p) = h.program_headers(e, d) {
            ensure!(inside(bytes_of_slice(p), d), "program headers");
            for p in p.iter().take(100) {
                let (o, n) = p.file_range(e);
                okb(p.data(e, d).map_err(|_| ()), d);
                if let Ok(b) = p.data(e, d) { ensure!(b.is_empty() || is_at(b, d, o as usize, n as usize), "the declared range"); }
                let (a, n) = (p.p_vaddr(e).into(), p.p_memsz(e).into());
                oko(p.data_range(e, d, a, n), d);
                oko(p.data_range(e, d, value(a, 8, d, false), value(n, 8, d, false)), d);
                if let Ok(Some(x)) = p.dynamic(e, d) { ensure!(inside(bytes_of_slice(x), d), "dynamic entries") }
                if let Ok(Some(x)) = p.interpreter(e, d) { ensure!(inside(x, d), "interpreter") }
                notes::<H>(e, p.notes(e, d), d);
                let _ = p.data_as_array::<u32, _>(e, d);
            }
        }
        if let Ok(p) = h.section_headers(e, d) { ensure!(inside(bytes_of_slice(p), d), "section headers") }
        let Ok(s) = h.sections(e, d) else { return };
        let syms = s.symbols(e, d, elf::SHT_SYMTAB).unwrap_or_default();
        let dsyms = s.symbols(e, d, elf::SHT_DYNSYM).unwrap_or_default();
        symbols(e, &syms, &s, d);
        symbols(e, &dsyms, &s, d);
        for i in 0..s.len().min(60) + 2 {
            if let Ok(t) = s.symbol_table_by_index(e, d, SectionIndex(i)) { symbols(e, &t, &s, d) }
            let _ = s.strings(e, d, SectionIndex(i)).map(|t| { okb(t.get(1), d); okb(t.get(value(0, 4, d, false) as u32), d) });
        }
        if let Ok(r) = s.relocation_sections(e, syms.section()) { for i in 0..s.len().min(60) + 1 { let _ = r.get(SectionIndex(i)); } }
        let _ = s.section_by_name(e, b".text");
        let ver = s.versions(e, d).ok().flatten();
        let noversions = VersionTable::default();
        let v = ver.as_ref().unwrap_or(&noversions);
        for i in 0..dsyms.len().min(100) + 2 {
            let x = v.version_index(e, SymbolIndex(i));
            if let Ok(Some(y)) = v.version(x.index()) { ensure!(inside(y.name(), d) && y.file().is_none_or(|f| inside(f, d)), "version"); let _ = (y.hash(), v.matches(e, SymbolIndex(i), Some(y))); }
            let _ = v.matches(e, SymbolIndex(i), None);
        }
        if let Ok(Some((t, _))) = s.hash(e, d) { for n in [&b"f1"[..], b"f2", b"", b"nothing"] { let _ = (t.symbol_table_length(), t.find(e, n, elf::hash(n), None, &dsyms, v)); } }
        if let Ok(Some((t, _))) = s.gnu_hash(e, d) { for n in [&b"f1"[..], b"f2", b"", b"nothing"] { let _ = (t.symbol_base(), t.symbol_table_length(e), t.find(e, n, elf::gnu_hash(n), None, &dsyms, v)); } }
        let _ = (s.hash_header(e, d).is_ok(), s.gnu_hash_header(e, d).is_ok(), syms.map(e, |y| y.name(e, syms.strings()).ok().and_then(|n| core::str::from_utf8(n).ok()).map(|n| read::SymbolMapName::new(y.st_value(e).into(), y.st_size(e).into(), n))).symbols().len());
        if let Ok(Some((x, _))) = s.dynamic(e, d) { ensure!(inside(bytes_of_slice(x), d), "dynamic entries") }
        if let Ok(t) = s.dynamic_table(e, d) {
            let _ = (t.strings(), t.dynamics(), t.is_empty(), t.len());
            for x in t.dynamics() { let _ = (x.tag(e), x.val(e), x.tag32(e), x.val32(e), x.is_string(e), x.is_address(e)); okb(x.string(e, *t.strings()), d); }
            for x in t.iter().take(300) { let _ = (x.is_address(), x.is_string()); okb(t.string(x), d); }
        }
        for x in s.iter().take(60) {
            okb(s.section_name(e, x), d);
            okb(x.data(e, d), d);
            if let (Ok(b), Some((o, n))) = (x.data(e, d), x.file_range(e)) { ensure!(b.is_empty() || is_at(b, d, o as usize, n as usize), "the declared range"); }
            if let Ok(Some(t)) = x.dynamic_table(e, d, &s) { for x in &t { okb(t.string(x), d) } }
            if let Ok(Some(t)) = x.symbols(e, d, &s, SectionIndex(1)) { let _ = t.len(); }
            let _ = (x.sh_entsize(e), x.data_as_array::<u32, _>(e, d), x.link(e), x.info_link(e), x.has_info_link(e));
            if let Ok(Some((r, _))) = x.rel(e, d) { ensure!(inside(bytes_of_slice(r), d), "relocations"); for r in r.iter().take(300) { let _ = (r.r_offset(e), r.r_sym(e), r.r_type(e), r.symbol(e), Crel::from_rel(r, e)); } }
            if let Ok(Some((r, _))) = x.rela(e, d) { ensure!(inside(bytes_of_slice(r), d), "relocations"); for r in r.iter().take(300) { for m in [false, true] { let _ = (r.r_offset(e), r.r_sym(e, m), r.r_type(e, m), r.symbol(e, m), Crel::from_rela(r, e, m)); } } }
            if let Ok(Some(r)) = x.relr(e, d) { let _ = r.take(3000).count(); }
            if let Ok(Some((r, _))) = x.crel(e, d) { let _ = (r.is_rela(), r.len(), r.is_empty()); let mut k = 0; for c in r { k += 1; if c.is_err() || k > 1000 { break } } }
            if let Ok(Some((_, g))) = x.group(e, d) { ensure!(inside(bytes_of_slice(g), d), "group members") }
            if let Ok(Some((g, _))) = x.gnu_versym(e, d) { ensure!(inside(bytes_of_slice(g), d), "symbol versions") }
            if let Ok(Some((mut it, l))) = x.gnu_verdef(e, d) {
                let t = s.strings(e, d, l).unwrap_or_default();
                for _ in 0..300 { match it.next() {
                    Ok(Some((v, mut a))) => { ensure!(inside(bytes_of(v), d), "version definition"); for _ in 0..300 { match a.next() {
                        Ok(Some(y)) => { ensure!(inside(bytes_of(y), d), "auxiliary"); okb(y.name(e, t), d) }
                        Ok(None) => break,
                        Err(_) => { ensure!(matches!(a.next(), Ok(None)), "iteration ends after an error"); break } } } }
                    Ok(None) => break,
                    Err(_) => { ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"); break }
                } }
            }
            if let Ok(Some((mut it, l))) = x.gnu_verneed(e, d) {
                let t = s.strings(e, d, l).unwrap_or_default();
                for _ in 0..300 { match it.next() {
                    Ok(Some((v, mut a))) => { ensure!(inside(bytes_of(v), d), "version requirement"); okb(v.file(e, t), d); for _ in 0..300 { match a.next() {
                        Ok(Some(y)) => { ensure!(inside(bytes_of(y), d), "auxiliary"); okb(y.name(e, t), d) }
                        Ok(None) => break,
                        Err(_) => { ensure!(matches!(a.next(), Ok(None)), "iteration ends after an error"); break } } } }
                    Ok(None) => break,
                    Err(_) => { ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"); break }
                } }
            }
            notes::<H>(e, x.notes(e, d), d);
            let _ = (x.hash_header(e, d).is_ok(), x.gnu_hash_header(e, d).is_ok(), x.hash(e, d).is_ok(), x.gnu_hash(e, d).is_ok(), x.strings(e, d).is_ok());
            if let Ok(Some(a)) = x.gnu_attributes(e, d) { attrs(a, d) }
            if let Ok(a) = x.attributes(e, d) { attrs(a, d) }
            if let Ok(Some((c, o, n))) = x.compression(e, d) { ensure!(inside(bytes_of(c), d), "compression header"); let _ = (d.read_bytes_at(o, n), c.ch_type(e), c.ch_size(e)); }
        }
    }
    fn linked<H: FileHeader<Endian = Endianness>>(d: &'static [u8]) {
        use object::read::Object;
        let Ok(f) = ElfFile::<H>::parse(d) else { return };
        for s in f.sections() {
            if let Ok(r) = s.elf_linked_rel() { ensure!(inside(bytes_of_slice(r), d), "relocations") }
            if let Ok(r) = s.elf_linked_rela() { ensure!(inside(bytes_of_slice(r), d), "relocations") }
            let _ = s.elf_relocation_section().is_ok();
        }
        let _ = (f.elf_dynamic_table().is_ok(), f.elf_section_table().len(), f.elf_relocation_sections());
    }
    pub fn run(exec: bool) {
        let (big, wide) = (uni(2) == 0, uni(2) == 0);
        let mut d = sample(big, wide, exec);
        damage(&mut d, big);
        let d = settle(d);
        if wide { walk::<F64>(d); linked::<F64>(d) } else { walk::<F32>(d); linked::<F32>(d) }
        any_file(d);
    }
    /// Bytes for one table only, any contents.
    pub fn blobs() {
        let big = uni(2) == 0;
        let e = if big { Endianness::Big } else { Endianness::Little };
        let n = 4 * uni(16) as usize + if uni(4) == 0 { uni(4) as usize } else { 0 };
        let mut b: Vec<u8> = (0..n).map(|_| 0).collect();
        for c in b.chunks_mut(4) { let v = match uni(6) { 0 => uni(u64::MAX), 1 => u64::MAX, 2 => n as u64 - uni(9).min(n as u64), _ => uni(9) }; store(c, v, big); }
        let d = settle(b);
        match uni(5) {
            0 => { notes::<F32>(e, NoteIterator::new(e, uni(17) as u32, d).map(Some), d); notes::<F64>(e, NoteIterator::new(e, uni(17), d).map(Some), d) }
            1 => if let Ok(a) = AttributesSection::<F32>::new(e, d) { attrs(a, d) },
            2 => if let Ok(r) = CrelIterator::new(d) { for (k, c) in r.enumerate() { if c.is_err() || k > 2000 { break } } },
            3 => { let n = d.len() / 8 * 8; if let Ok((r, _)) = object::pod::slice_from_bytes::<elf::Relr64<Endianness>>(d, n / 8) { let _ = RelrIterator::<F64>::new(e, r).take(2000).count(); }
                if let Ok((r, _)) = object::pod::slice_from_bytes::<elf::Relr32<Endianness>>(d, n / 4) { let _ = RelrIterator::<F32>::new(e, r).take(2000).count(); } }
            _ => {
                let t = SymbolTable::<F64>::default();
                for n in [&b""[..], b"f1"] {
                    if let Ok(h) = HashTable::<F64>::parse(e, d) { let _ = (h.symbol_table_length(), h.find(e, n, uni(9) as u32, None, &t, &VersionTable::default())); }
                    if let Ok(h) = GnuHashTable::<F64>::parse(e, d) { let _ = (h.symbol_table_length(e), h.find(e, n, uni(9) as u32, None, &t, &VersionTable::default())); }
                    let t = SymbolTable::<F32>::default();
                    if let Ok(h) = GnuHashTable::<F32>::parse(e, d) { let _ = (h.symbol_table_length(e), h.find(e, n, uni(u64::MAX) as u32, None, &t, &VersionTable::default())); }
                }
            }
        }
    }
}
natives! {
    /// Damaged relocatable objects with every kind of section, every reader.
    fn objects() { low::run(false) }
    /// Damaged executables and shared objects with every kind of segment.
    fn images() { low::run(true) }
    /// Single tables of arbitrary words.
    fn tables() { low::blobs() }
}
