//! ELF encoder and writer against the ELF reader.
use crate::shim::*;
use object::elf as x;
use object::read::elf::{Dyn as _, FileHeader as _, ProgramHeader as _, Rel as _, Rela as _, SectionHeader as _, Sym as _};
use object::write::elf as w;
use object::Endianness;
use std::mem::size_of;

type E = Endianness;

fn put(b: &mut [u8], f: impl FnOnce(&mut &mut [u8])) -> usize {
    let n = b.len();
    let mut s: &mut [u8] = b;
    f(&mut s);
    n - s.len()
}
macro_rules! same {
    ($got:expr, $want:expr; $($f:ident),*) => { $( ensure!($got.$f == $want.$f, concat!("field ", stringify!($f), " is read back unchanged")); )* };
}
macro_rules! same_acc {
    ($got:expr, $e:expr, $want:expr; $($f:ident),*) => { $( ensure!($got.$f($e) == $want.$f, concat!("field ", stringify!($f), " is read back unchanged")); )* };
}
macro_rules! same_word {
    ($got:expr, $e:expr, $want:expr; $($f:ident),*) => { $( ensure!(u64::from($got.$f($e)) == $want.$f, concat!("field ", stringify!($f), " is read back unchanged")); )* };
}
macro_rules! same_get {
    ($got:expr, $e:expr, $want:expr; $($f:ident = $g:ident),*) => { $( ensure!($got.$g.get($e) == $want.$f, concat!("field ", stringify!($g), " is read back unchanged")); )* };
}
fn any_header() -> w::FileHeader {
    w::FileHeader { os_abi: x::OsAbi(any()), abi_version: any(), e_type: x::FileType(any()), e_machine: x::Machine(any()), e_entry: any(), e_flags: x::FileFlags(any()) }
}
#[allow(dead_code)]
fn no_text(_: std::fmt::Arguments<'_>) -> String { String::new() }
fn any_rel() -> w::Rel {
    w::Rel { r_offset: any(), r_sym: any(), r_type: x::RelocationType(any()), r_addend: any() }
}
/// File headers whose counts need no extended numbering.
macro_rules! file_header {
    ($t:ident, $is64:literal, $word:ty) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64, x::Machine(any()));
        let mut h = any_header();
        h.e_entry = any::<$word>() as u64;
        let l = w::FileHeaderLayout { e_phoff: any::<$word>() as u64, segment_num: any(), e_shoff: any::<$word>() as u64, section_num: any(), shstrtab_index: any() };
        let mut b = [0xa5u8; 80];
        let mut r = Ok(());
        let n = put(&mut b, |b| r = enc.file_header(b, &h, &l));
        ensure!(r.is_err() == (l.segment_num >= 0xffff && l.section_num == 0), "an error exactly when the segment count needs a section header that is not there");
        if r.is_err() { return }
        ensure!(n == size_of::<x::$t<E>>() && enc.file_header_size() == n as u64, "the header has its declared size");
        let r = match x::$t::<E>::parse(&b[..]) { Ok(r) => r, Err(_) => { ensure!(false, "the header is read"); return } };
        ensure!(matches!(r.endian(), Ok(v) if v == e) && r.is_class_64() == $is64, "byte order and class");
        same_acc!(r, e, h; e_type, e_machine, e_flags);
        same_word!(r, e, h; e_entry);
        same_word!(r, e, l; e_phoff, e_shoff);
        let g = w::FileHeader::from_raw(e, r);
        same!(g, h; os_abi, abi_version, e_type, e_machine, e_entry, e_flags);
        ensure!(r.e_version(e) == 1 && r.e_ident().version == x::EV_CURRENT && r.e_ident().padding == [0; 7], "version");
        ensure!(r.e_ehsize(e) as usize == n, "header size");
        ensure!(r.e_phnum(e) as u32 == if l.segment_num >= 0xffff { 0xffff } else { l.segment_num }, "segment count or its escape");
        ensure!(r.e_shnum(e) as u32 == if l.section_num >= 0xff00 { 0 } else { l.section_num }, "section count or its escape");
        ensure!(r.e_shstrndx(e).0 as u32 == if l.shstrtab_index >= 0xff00 { 0xffff } else { l.shstrtab_index }, "name table index or its escape");
        ensure!(r.e_phentsize(e) as u64 == if l.segment_num == 0 { 0 } else { enc.program_header_size() }, "size of a program header");
        ensure!(r.e_shentsize(e) as u64 == if l.section_num == 0 { 0 } else { enc.section_header_size() }, "size of a section header");
    }};
}
/// Any counts, with the null section header where e_shoff says.
macro_rules! extended {
    ($t:ident, $s:ident, $is64:literal, $word:ty, $len:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64, x::EM_NONE);
        let h = w::FileHeader::default();
        let l = w::FileHeaderLayout { e_phoff: any::<$word>() as u64, segment_num: any(), e_shoff: size_of::<x::$t<E>>() as u64, section_num: any(), shstrtab_index: any() };
        assume(l.section_num != 0 && l.shstrtab_index < l.section_num);
        assume(l.e_phoff != 0 || l.segment_num == 0);
        let mut b = [0xa5u8; $len];
        let mut ok = false;
        let n = put(&mut b, |b| { ok = enc.file_header(b, &h, &l).is_ok(); enc.null_section_header(b, &l) });
        ensure!(ok && n == $len && enc.section_header_size() as usize == size_of::<x::$s<E>>(), "sizes");
        let d = &b[..];
        let r = match x::$t::<E>::parse(d) { Ok(r) => r, Err(_) => { ensure!(false, "the header is read"); return } };
        match w::FileHeaderLayout::from_raw(e, r, d) {
            Ok(g) => { same!(g, l; e_phoff, segment_num, e_shoff, section_num, shstrtab_index); }
            Err(_) => ensure!(false, "the layout is read"),
        }
    }};
}
macro_rules! program_header {
    ($t:ident, $is64:literal, $word:ty, $len:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64, x::EM_NONE);
        let p = w::ProgramHeader { p_type: x::ProgramType(any()), p_flags: x::ProgramFlags(any()), p_offset: any::<$word>() as u64, p_vaddr: any::<$word>() as u64, p_paddr: any::<$word>() as u64, p_filesz: any::<$word>() as u64, p_memsz: any::<$word>() as u64, p_align: any::<$word>() as u64 };
        let mut b = [0xa5u8; $len];
        let n = put(&mut b, |b| enc.program_header(b, &p));
        ensure!(n == size_of::<x::$t<E>>() && enc.program_header_size() == n as u64, "the program header has its declared size");
        let r = match object::pod::from_bytes::<x::$t<E>>(&b) { Ok((r, _)) => r, Err(_) => { ensure!(false, "whole record"); return } };
        same_acc!(r, e, p; p_type, p_flags);
        same_word!(r, e, p; p_offset, p_vaddr, p_paddr, p_filesz, p_memsz, p_align);
        let g = w::ProgramHeader::from_raw(e, r);
        same!(g, p; p_type, p_flags, p_offset, p_vaddr, p_paddr, p_filesz, p_memsz, p_align);
    }};
}
macro_rules! section_header {
    ($t:ident, $is64:literal, $word:ty, $len:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64, x::EM_NONE);
        let s = w::SectionHeader { sh_name: any(), sh_type: x::SectionType(any()), sh_flags: x::SectionFlags(any::<$word>() as u64), sh_addr: any::<$word>() as u64, sh_offset: any::<$word>() as u64, sh_size: any::<$word>() as u64, sh_link: any(), sh_info: any(), sh_addralign: any::<$word>() as u64, sh_entsize: any::<$word>() as u64 };
        let mut b = [0xa5u8; $len];
        let n = put(&mut b, |b| enc.section_header(b, &s));
        ensure!(n == size_of::<x::$t<E>>() && enc.section_header_size() == n as u64, "the section header has its declared size");
        let r = match object::pod::from_bytes::<x::$t<E>>(&b) { Ok((r, _)) => r, Err(_) => { ensure!(false, "whole record"); return } };
        same_acc!(r, e, s; sh_name, sh_type, sh_flags, sh_link, sh_info);
        same_word!(r, e, s; sh_addr, sh_offset, sh_size, sh_addralign, sh_entsize);
        let g = w::SectionHeader::from_raw(e, r);
        same!(g, s; sh_name, sh_type, sh_flags, sh_addr, sh_offset, sh_size, sh_link, sh_info, sh_addralign, sh_entsize);
    }};
}
macro_rules! symbol {
    ($t:ident, $is64:literal, $word:ty, $len:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64, x::EM_NONE);
        let s = w::Sym { section: if any_bool() { Some(any()) } else { None }, st_name: any(), st_info: x::SymbolInfo(any()), st_other: x::SymbolOther(any()), st_shndx: x::SymbolSection(any()), st_value: any::<$word>() as u64, st_size: any::<$word>() as u64 };
        let mut b = [0xa5u8; $len];
        let mut more = None;
        let n = put(&mut b, |b| more = enc.symbol(b, &s));
        ensure!(n == size_of::<x::$t<E>>() && enc.sym_size() == n as u64, "the symbol has its declared size");
        let r = match object::pod::from_bytes::<x::$t<E>>(&b) { Ok((r, _)) => r, Err(_) => { ensure!(false, "whole record"); return } };
        same_acc!(r, e, s; st_name);
        ensure!(r.st_info() == s.st_info && r.st_other() == s.st_other, "info and other");
        same_word!(r, e, s; st_value, st_size);
        // The section: in the symbol, or escaped and returned.
        match s.section {
            Some(i) if i < 0xff00 => ensure!(r.st_shndx(e).0 as u32 == i && more.is_none(), "a section index that fits"),
            Some(i) => ensure!(r.st_shndx(e).0 == 0xffff && more == Some(i), "an extended section index"),
            None => ensure!(r.st_shndx(e) == s.st_shndx && more.is_some() == (s.st_shndx.0 == 0xffff), "a special section value"),
        }
        let g = w::Sym::from_raw(e, r, s.section);
        same!(g, s; section, st_name, st_info, st_other, st_value, st_size);
        let mut b = [0xa5u8; $len];
        ensure!(put(&mut b, |b| enc.null_symbol(b)) == $len && b == [0; $len], "the null symbol is zero");
    }};
}
macro_rules! relocations {
    ($r:ident, $ra:ident, $is64:literal, $word:ty) => {{
        let e = any_endian();
        let machine = x::Machine(any());
        let enc = w::Encoder::new(e, $is64, machine);
        let mips = $is64 && e == Endianness::Little && machine.0 == 8;
        ensure!(enc.is_mips64el() == mips && enc.endian() == e && enc.is_64() == $is64 && enc.address_size() == if $is64 { 8 } else { 4 }, "parameters");
        let mut l = any_rel();
        if !$is64 {
            l.r_offset = any::<$word>() as u64;
            l.r_sym &= 0xff_ffff;
            l.r_type.0 &= 0xff;
            l.r_addend = l.r_addend as i32 as i64;
        }
        let mut b = [0xa5u8; 24];
        let n = put(&mut b, |b| enc.relocation(b, true, &l));
        ensure!(n == size_of::<x::$ra<E>>() && enc.rel_size(true) == n as u64, "the relocation has its declared size");
        if let Ok((r, _)) = object::pod::from_bytes::<x::$ra<E>>(&b) {
            ensure!(object::read::elf::Rela::r_sym(r, e, mips) == l.r_sym && object::read::elf::Rela::r_type(r, e, mips) == l.r_type, "symbol and type");
            let g = w::Rel::from_rela(e, r, mips);
            same!(g, l; r_offset, r_sym, r_type, r_addend);
        } else { ensure!(false, "whole record"); }
        let n = put(&mut b, |b| enc.relocation(b, false, &l));
        ensure!(n == size_of::<x::$r<E>>() && enc.rel_size(false) == n as u64, "the relocation has its declared size");
        if let Ok((r, _)) = object::pod::from_bytes::<x::$r<E>>(&b) {
            let g = w::Rel::from_rel(e, r);
            same!(g, l; r_offset, r_sym, r_type);
            ensure!(g.r_addend == 0, "no addend");
        } else { ensure!(false, "whole record"); }
    }};
}
macro_rules! dynamic {
    ($t:ident, $is64:literal, $len:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64, x::EM_NONE);
        let (tag, val) = (x::DynamicTag(any()), any::<u64>());
        let mut b = [0xa5u8; $len];
        let mut ok = false;
        let n = put(&mut b, |b| ok = enc.dynamic(b, tag, val).is_ok());
        ensure!(ok == ($is64 || (tag.0 as i32 as i64 == tag.0 && val <= 0xffff_ffff)), "an error exactly when a value does not fit");
        ensure!(enc.dyn_size() as usize == size_of::<x::$t<E>>(), "declared size");
        if !ok { ensure!(n == 0, "nothing is written on error"); return }
        ensure!(n == size_of::<x::$t<E>>(), "the entry has its declared size");
        if let Ok((r, _)) = object::pod::from_bytes::<x::$t<E>>(&b) {
            ensure!(r.d_tag(e) == tag && u64::from(r.d_val(e)) == val, "tag and value are read back unchanged");
        } else { ensure!(false, "whole record"); }
    }};
}

harnesses! {
    fn file_header32() { file_header!(FileHeader32, false, u32); }
    fn file_header64() { file_header!(FileHeader64, true, u64); }
    fn extended32() { extended!(FileHeader32, SectionHeader32, false, u32, 92); }
    fn extended64() { extended!(FileHeader64, SectionHeader64, true, u64, 128); }
    fn program_header32() { program_header!(ProgramHeader32, false, u32, 32); }
    fn program_header64() { program_header!(ProgramHeader64, true, u64, 56); }
    fn section_header32() { section_header!(SectionHeader32, false, u32, 40); }
    fn section_header64() { section_header!(SectionHeader64, true, u64, 64); }
    fn symbol32() { symbol!(Sym32, false, u32, 16); }
    fn symbol64() { symbol!(Sym64, true, u64, 24); }
    fn relocations32() { relocations!(Rel32, Rela32, false, u32); }
    fn relocations64() { relocations!(Rel64, Rela64, true, u64); }
    /// The text of the error is not part of the contract.
    [kani::stub(std::fmt::format, no_text)]
    fn dynamic32() { dynamic!(Dyn32, false, 8); }
    fn dynamic64() { dynamic!(Dyn64, true, 16); }
    /// The machine decides the relocation encoding, whenever it is set.
    fn machine() {
        let (e, is64) = (any_endian(), any_bool());
        let mut enc = w::Encoder::new(e, is64, x::Machine(any()));
        let m = x::Machine(any());
        enc.set_machine(m);
        ensure!(enc.is_mips64el() == (is64 && e == Endianness::Little && m.0 == 8), "mips64el");
    }
    /// Definitions of versions.
    fn verdef() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool(), x::EM_NONE);
        let v = w::Verdef { version: any(), flags: x::VersionFlags(any()), index: x::VersionIndex(any()), aux_count: any(), name: any(), hash: any() };
        let next = any_bool();
        let mut b = [0xa5u8; 28];
        let n = put(&mut b, |b| enc.gnu_verdef(b, next, &v));
        ensure!(n == 28 && enc.gnu_verdef_size(1, 1) == 28, "the definition and its name have their declared size");
        let (r, rest) = match object::pod::from_bytes::<x::Verdef<E>>(&b) { Ok(r) => r, Err(_) => { ensure!(false, "whole record"); return } };
        same_get!(r, e, v; version = vd_version, flags = vd_flags, index = vd_ndx, aux_count = vd_cnt, hash = vd_hash);
        ensure!(r.vd_aux.get(e) == 20, "the names follow");
        ensure!(r.vd_next.get(e) == if next { 20 + 8 * v.aux_count as u32 } else { 0 }, "the next definition follows the names");
        if let Ok((a, _)) = object::pod::from_bytes::<x::Verdaux<E>>(rest) {
            ensure!(a.vda_name.get(e) == v.name, "name");
            ensure!(a.vda_next.get(e) == if v.aux_count > 1 { 8 } else { 0 }, "the next name follows");
            let g = w::Verdef::from_raw(e, r, a.vda_name.get(e));
            same!(g, v; version, flags, index, aux_count, name, hash);
        } else { ensure!(false, "whole record"); }
    }
    fn verdef_shared() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool(), x::EM_NONE);
        let v = w::Verdef { version: any(), flags: x::VersionFlags(any()), index: x::VersionIndex(any()), aux_count: any(), name: any(), hash: any() };
        let mut b = [0xa5u8; 20];
        let n = put(&mut b, |b| enc.gnu_verdef_shared(b, &v));
        ensure!(n == 20 && enc.gnu_verdef_size(1, 0) == 20, "the definition has its declared size");
        let (r, _) = match object::pod::from_bytes::<x::Verdef<E>>(&b) { Ok(r) => r, Err(_) => { ensure!(false, "whole record"); return } };
        same_get!(r, e, v; version = vd_version, flags = vd_flags, index = vd_ndx, aux_count = vd_cnt, hash = vd_hash);
        ensure!(r.vd_next.get(e) == 20 && r.vd_aux.get(e) == 40, "the next definition follows, and its names");
    }
    fn verdaux() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool(), x::EM_NONE);
        let (name, next) = (any::<u32>(), any_bool());
        let mut b = [0xa5u8; 8];
        ensure!(put(&mut b, |b| enc.gnu_verdaux(b, next, name)) == 8, "size");
        if let Ok((a, _)) = object::pod::from_bytes::<x::Verdaux<E>>(&b) {
            ensure!(a.vda_name.get(e) == name && a.vda_next.get(e) == if next { 8 } else { 0 }, "name and next");
        } else { ensure!(false, "whole record"); }
    }
    fn verneed() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool(), x::EM_NONE);
        let v = w::Verneed { version: any(), aux_count: any(), file: any() };
        let next = any_bool();
        let mut b = [0xa5u8; 16];
        ensure!(put(&mut b, |b| enc.gnu_verneed(b, next, &v)) == 16, "size");
        let (r, _) = match object::pod::from_bytes::<x::Verneed<E>>(&b) { Ok(r) => r, Err(_) => { ensure!(false, "whole record"); return } };
        let g = w::Verneed::from_raw(e, r);
        same!(g, v; version, aux_count, file);
        ensure!(r.vn_aux.get(e) == if v.aux_count != 0 { 16 } else { 0 }, "the needed versions follow");
        ensure!(r.vn_next.get(e) == if next { 16 + 16 * v.aux_count as u32 } else { 0 }, "the next file follows");
    }
    fn vernaux() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool(), x::EM_NONE);
        let v = w::Vernaux { flags: x::VersionFlags(any()), index: x::VersionIndex(any()), name: any(), hash: any() };
        let next = any_bool();
        let mut b = [0xa5u8; 16];
        ensure!(put(&mut b, |b| enc.gnu_vernaux(b, next, &v)) == 16, "size");
        let (r, _) = match object::pod::from_bytes::<x::Vernaux<E>>(&b) { Ok(r) => r, Err(_) => { ensure!(false, "whole record"); return } };
        let g = w::Vernaux::from_raw(e, r);
        same!(g, v; flags, index, name, hash);
        ensure!(r.vna_next.get(e) == if next { 16 } else { 0 }, "the next version follows");
    }
    fn versym() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool(), x::EM_NONE);
        let v = x::VersymIndex(any());
        let mut b = [0xa5u8; 2];
        ensure!(put(&mut b, |b| enc.gnu_versym(b, v)) == 2, "size");
        if let Ok((r, _)) = object::pod::from_bytes::<x::Versym<E>>(&b) { ensure!(r.0.get(e) == v, "version index"); } else { ensure!(false, "whole record"); }
    }
    /// The sizes of tables, for any counts.
    fn sizes() {
        let is64 = any_bool();
        let enc = w::Encoder::new(any_endian(), is64, x::EM_NONE);
        let (a, c, d) = (any::<u32>(), any::<u32>(), any::<u32>());
        ensure!(enc.relr_size() == enc.address_size(), "relative relocation");
        ensure!(enc.hash_size(a, c) == 8 + 4 * (a as u64 + c as u64), "hash table");
        ensure!(enc.gnu_hash_size(a, c, d) == 16 + enc.address_size() * a as u64 + 4 * (c as u64 + d as u64), "GNU hash table");
        ensure!(enc.gnu_versym_size(a) == 2 * a as u64, "version indices");
        let k = any::<u16>();
        ensure!(enc.gnu_verdef_size(k, a as usize) == 20 * k as u64 + 8 * a as u64, "version definitions");
        ensure!(enc.gnu_verneed_size(k, a as usize) == 16 * k as u64 + 16 * a as u64, "needed versions");
    }
    /// The headers prepared for well-known sections.
    fn templates() {
        let is64 = any_bool();
        let enc = w::Encoder::new(any_endian(), is64, x::EM_NONE);
        let word = enc.address_size();
        let (a, c, k) = (any::<u32>(), any::<u32>(), any::<u16>());
        macro_rules! is { ($h:expr, $t:expr, $f:expr, $l:expr, $i:expr, $al:expr, $es:expr) => {{
            let h = $h;
            ensure!(h.sh_type == $t && h.sh_flags.0 == $f, concat!(stringify!($h), ": type and flags"));
            ensure!(h.sh_link == $l && h.sh_info == $i, concat!(stringify!($h), ": link and info"));
            ensure!(h.sh_addralign == $al && h.sh_entsize == $es, concat!(stringify!($h), ": alignment and entry size"));
            ensure!(h.sh_name == 0 && h.sh_addr == 0 && h.sh_offset == 0 && h.sh_size == 0, concat!(stringify!($h), ": left to the caller"));
        }} }
        let alloc = 2;
        is!(enc.strtab_section_header(), x::SHT_STRTAB, 0, 0, 0, 1, 0);
        is!(enc.dynstr_section_header(), x::SHT_STRTAB, alloc, 0, 0, 1, 0);
        is!(enc.symtab_section_header(a, c), x::SHT_SYMTAB, 0, a, c, word, enc.sym_size());
        is!(enc.symtab_shndx_section_header(a), x::SHT_SYMTAB_SHNDX, 0, a, 0, 4, 4);
        is!(enc.dynsym_section_header(a, c), x::SHT_DYNSYM, alloc, a, c, word, enc.sym_size());
        is!(enc.dynamic_section_header(a), x::SHT_DYNAMIC, alloc | 1, a, 0, word, enc.dyn_size());
        is!(enc.hash_section_header(a), x::SHT_HASH, alloc, a, 0, 4, 4);
        is!(enc.gnu_hash_section_header(a), x::SHT_GNU_HASH, alloc, a, 0, word, if is64 { 0 } else { 4 });
        is!(enc.gnu_versym_section_header(a), x::SHT_GNU_VERSYM, alloc, a, 0, 2, 2);
        is!(enc.gnu_verdef_section_header(a, k), x::SHT_GNU_VERDEF, alloc, a, k as u32, 4, 0);
        is!(enc.gnu_verneed_section_header(a, k), x::SHT_GNU_VERNEED, alloc, a, k as u32, 4, 0);
        is!(enc.gnu_attributes_section_header(), x::SHT_GNU_ATTRIBUTES, 0, 0, 0, 1, 0);
        let rela = any_bool();
        is!(enc.relocation_section_header(rela), if rela { x::SHT_RELA } else { x::SHT_REL }, 0x40, 0, 0, word, enc.rel_size(rela));
        is!(enc.relative_relocation_section_header(), x::SHT_RELR, 0, 0, 0, word, word);
        is!(enc.comdat_section_header(), x::SHT_GROUP, 0, 0, 0, 4, 4);
    }
}

natives! {
    /// Random files through the two-phase and the single-phase writer, and back through the reader.
    fn roundtrip() { low::roundtrip() }
}
#[cfg(not(kani))]
mod low {
    use super::*;
    use object::read::elf::{FileHeader, VersionTable};
    use object::read::{SectionIndex, SymbolIndex};
    use std::collections::BTreeMap;

    struct Custom { name: Vec<u8>, h: w::SectionHeader, data: Vec<u8> }
    struct Def { flags: u16, index: u16, version: u16, hash: u32, names: Vec<Vec<u8>>, shared: bool }
    struct Need { version: u16, file: Vec<u8>, vers: Vec<(u16, u16, Vec<u8>, u32)> }
    struct Sub { vendor: Vec<u8>, parts: Vec<Part> }
    struct Part { tag: u8, idx: Vec<u32>, attrs: Vec<(u64, Result<u64, Vec<u8>>)> }
    struct Rels { name: Vec<u8>, target: u32, rela: bool, list: Vec<w::Rel> }
    struct Plan {
        e: E, is64: bool, hdr: w::FileHeader, secs: Vec<Custom>,
        syms: Vec<(Vec<u8>, w::Sym)>, locals: u32, shndx: bool,
        dsyms: Vec<(Vec<u8>, w::Sym)>, hashed: Option<(u32, Vec<bool>)>, gnu: Option<(u32, u32, u32, u32)>,
        dynamic: Vec<(i64, Result<u64, Vec<u8>>)>, versym: Option<Vec<u16>>, defs: Vec<Def>, needs: Vec<Need>,
        attrs: Vec<Sub>, rels: Vec<Rels>, comdat: Option<(u32, Vec<u32>)>, relr: Vec<u64>,
        phs: Vec<w::ProgramHeader>, extra: u32, addr: u64,
    }
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
    enum B { Custom(usize), Strtab, Symtab, Shndx, Dynstr, Dynsym, Dynamic, Hash, Gnu, Versym, Verdef, Verneed, Attr, Rel(usize), Comdat, Relr, Shstrtab, Extra, Phdrs, Shdrs, Gap(u64) }
    use B::*;

    fn word(n: u64) -> Vec<u8> { (0..n).map(|_| b'a' + uni(6) as u8).collect() }
    fn fit(is64: bool) -> u64 { let v = any::<u64>() >> uni(64); if is64 { v } else { v & 0xffff_ffff } }
    fn fresh(seen: &mut Vec<Vec<u8>>) -> Vec<u8> {
        loop { let n = word(1 + uni(6)); if !seen.contains(&n) { seen.push(n.clone()); return n } }
    }
    fn sym(is64: bool, section: Option<u32>, shndx: u16) -> w::Sym {
        w::Sym { section, st_name: 0, st_info: x::SymbolInfo(any()), st_other: x::SymbolOther(any()), st_shndx: x::SymbolSection(shndx), st_value: fit(is64), st_size: fit(is64) }
    }
    fn plan(single: bool) -> Plan {
        let e = if uni(2) == 0 { Endianness::Little } else { Endianness::Big };
        let is64 = uni(2) == 0;
        let mut hdr = any_header();
        hdr.e_entry = fit(is64);
        if uni(2) == 0 { hdr.e_machine = x::EM_MIPS }
        let secs: Vec<Custom> = (0..uni(5)).map(|_| {
            let data: Vec<u8> = (0..uni(40)).map(|_| any()).collect();
            let mut name = word(uni(5)); name.insert(0, b'.');
            Custom { name, h: w::SectionHeader { sh_type: x::SHT_PROGBITS, sh_flags: x::SectionFlags(fit(is64) & !0x800), sh_addr: fit(is64), sh_size: data.len() as u64, sh_link: any(), sh_info: any(), sh_addralign: 1 << uni(6), sh_entsize: fit(is64), ..Default::default() }, data }
        }).collect();
        let mut shndx = false;
        let mut syms = vec![];
        if uni(3) > 0 {
            for _ in 0..uni(6) {
                let s = match uni(5) {
                    0 => sym(is64, None, [0, 0xfff1, 0xfff2, 3][uni(4) as usize]),
                    1 => { shndx = true; sym(is64, Some(0xff00 + uni(0x1_0000) as u32), any()) }
                    2 => sym(is64, Some(uni(0xff00) as u32), any()),
                    _ => sym(is64, Some(uni(1 + secs.len() as u64) as u32), any()),
                };
                syms.push((if uni(4) == 0 { vec![] } else { word(1 + uni(5)) }, s));
            }
        }
        if !single && !syms.is_empty() && uni(4) == 0 { shndx = true; }
        let mut seen = vec![];
        let dsyms: Vec<_> = if uni(3) == 0 { vec![] } else { (0..uni(9)).map(|_| (fresh(&mut seen), sym(is64, Some(1 + uni(50) as u32), 0))).collect() };
        let mut p = Plan { e, is64, hdr, secs, locals: any(), syms, shndx, dsyms, hashed: None, gnu: None, dynamic: vec![], versym: None, defs: vec![], needs: vec![], attrs: vec![], rels: vec![], comdat: None, relr: vec![], phs: vec![], extra: 0, addr: fit(is64) };
        if !p.dsyms.is_empty() {
            let n = p.dsyms.len() as u64 + 1;
            if uni(2) == 0 { p.hashed = Some((1 + uni(5) as u32, (0..n).map(|i| i > 0 && uni(5) > 0).collect())); }
            if uni(2) == 0 {
                let base = 1 + uni(n) as u32;
                let buckets = 1 + uni(5) as u32;
                p.dsyms[base as usize - 1..].sort_by_key(|(n, _)| abi_gnu(n) % buckets);
                p.gnu = Some((base, uni(if is64 { 32 } else { 32 }) as u32, 1 << uni(3), buckets));
            }
            if uni(2) == 0 { p.versym = Some((1..n).map(|_| any()).collect()); }
        }
        if uni(2) == 0 { p.dynamic = (0..1 + uni(5)).map(|_| (if is64 { any() } else { any::<i32>() as i64 }, if uni(2) == 0 { Ok(fit(is64)) } else { Err(word(1 + uni(5))) })).collect(); }
        if uni(3) == 0 {
            let n = 1 + uni(4);
            for i in 0..n {
                let names = (0..1 + uni(4)).map(|_| word(1 + uni(5))).collect();
                p.defs.push(Def { flags: any(), index: any(), version: any(), hash: any(), names, shared: !single && i + 1 < n && uni(4) == 0 });
            }
            for i in (0..p.defs.len().saturating_sub(1)).rev() { if p.defs[i].shared { if p.defs[i + 1].shared { p.defs[i].shared = false } else { p.defs[i].names = p.defs[i + 1].names.clone() } } }
        }
        if uni(3) == 0 { p.needs = (0..1 + uni(3)).map(|_| Need { version: any(), file: word(1 + uni(5)), vers: (0..uni(4)).map(|_| (any(), any(), word(1 + uni(4)), any())).collect() }).collect(); }
        if uni(3) == 0 {
            p.attrs = (0..1 + uni(3)).map(|_| Sub { vendor: word(uni(5)), parts: (0..uni(4)).map(|_| {
                let tag = 1 + uni(3) as u8;
                Part { tag, idx: if tag == 1 { vec![] } else { (0..uni(4)).map(|_| 1 + (any::<u32>() >> (1 + uni(31)))).collect() }, attrs: (0..uni(4)).map(|_| (any::<u64>() >> uni(64), if uni(2) == 0 { Ok(any::<u64>() >> uni(64)) } else { Err(word(uni(5))) })).collect() }
            }).collect() }).collect();
        }
        if uni(2) == 0 {
            p.rels = (0..1 + uni(2)).map(|_| Rels { name: word(3), target: uni(5) as u32, rela: uni(2) == 0, list: (0..uni(4)).map(|_| { let mut r = any_rel(); if !is64 { r.r_offset &= 0xffff_ffff; r.r_sym &= 0xff_ffff; r.r_type.0 &= 0xff; r.r_addend = r.r_addend as i32 as i64 } r }).collect() }).collect();
        }
        if uni(4) == 0 { p.comdat = Some((any(), (0..uni(4)).map(|_| any()).collect())); }
        if uni(4) == 0 { p.relr = (0..1 + uni(3)).map(|i| if i == 0 { fit(is64) & !1 } else { fit(is64) | 1 }).collect(); }
        p.phs = (0..uni(4)).map(|_| w::ProgramHeader { p_type: x::ProgramType(any()), p_flags: x::ProgramFlags(any()), p_offset: fit(is64), p_vaddr: fit(is64), p_paddr: fit(is64), p_filesz: fit(is64), p_memsz: fit(is64), p_align: fit(is64) }).collect();
        match uni(3000) {
            0 if !single => p.extra = 0xfefe + uni(4) as u32,
            1 => { let q = w::ProgramHeader { p_type: x::ProgramType(7), p_flags: x::ProgramFlags(1), p_offset: 2, p_vaddr: 3, p_paddr: 4, p_filesz: 5, p_memsz: 6, p_align: 7 }; p.phs = vec![q; 0xfffd + uni(4) as usize]; }
            _ => {}
        }
        p
    }
    /// The hash functions as the ABI prints them.
    fn abi_gnu(name: &[u8]) -> u32 { name.iter().fold(5381u32, |h, b| h.wrapping_mul(33).wrapping_add(*b as u32)) }
    fn abi_sysv(name: &[u8]) -> u32 {
        let mut h = 0u32;
        for b in name { h = (h << 4).wrapping_add(*b as u32); let g = h & 0xf000_0000; if g != 0 { h ^= g >> 24 } h &= !g; }
        h
    }
    fn leb(v: u64) -> Vec<u8> { let (mut v, mut o) = (v, vec![]); loop { let b = (v & 127) as u8; v >>= 7; if v == 0 { o.push(b); return o } o.push(b | 128) } }
    /// The bytes of the attributes section, from its definition.
    fn attributes(p: &Plan) -> Vec<u8> {
        let n32 = |v: usize| if p.e == Endianness::Little { (v as u32).to_le_bytes() } else { (v as u32).to_be_bytes() };
        let mut o = vec![b'A'];
        for s in &p.attrs {
            let mut c = s.vendor.clone(); c.push(0);
            for t in &s.parts {
                let mut d = vec![];
                if t.tag != 1 { for i in &t.idx { d.extend(leb(*i as u64)) } d.push(0) }
                for (g, v) in &t.attrs { d.extend(leb(*g)); match v { Ok(v) => d.extend(leb(*v)), Err(s) => { d.extend(s); d.push(0) } } }
                c.push(t.tag); c.extend(n32(d.len() + 5)); c.extend(d);
            }
            o.extend(n32(c.len() + 4)); o.extend(c);
        }
        o
    }
    fn write_attributes(mut a: w::AttributesWriter, p: &Plan) -> Vec<u8> {
        for s in &p.attrs {
            a.start_subsection(&s.vendor);
            for t in &s.parts {
                a.start_subsubsection(x::AttributeTag(t.tag));
                if t.tag != 1 {
                    if uni(2) == 0 { for i in &t.idx { a.write_subsubsection_index(*i) } a.write_subsubsection_index(0) }
                    else { let d: Vec<u8> = t.idx.iter().flat_map(|i| leb(*i as u64)).collect(); a.write_subsubsection_indices(&d) }
                }
                for (g, v) in &t.attrs {
                    if uni(2) == 0 { a.write_attribute_tag(*g); match v { Ok(v) => a.write_attribute_integer(*v), Err(s) => a.write_attribute_string(s) } }
                    else { let mut d = leb(*g); match v { Ok(v) => d.extend(leb(*v)), Err(s) => { d.extend(s); d.push(0) } } a.write_subsubsection_attributes(&d) }
                }
                a.end_subsubsection();
            }
            a.end_subsection();
        }
        a.data()
    }
    fn shuffle(v: &mut [B]) { for i in (1..v.len()).rev() { v.swap(i, uni(i as u64 + 1) as usize) } }
    fn present(p: &Plan) -> Vec<B> {
        let mut v: Vec<B> = (0..p.secs.len()).map(Custom).collect();
        if p.extra > 0 { v.push(Extra) }
        if !p.syms.is_empty() { v.push(Strtab); v.push(Symtab); if p.shndx { v.push(Shndx) } }
        if !p.dsyms.is_empty() || p.dynamic.iter().any(|d| d.1.is_err()) || !p.defs.is_empty() || !p.needs.is_empty() { v.push(Dynstr) }
        if !p.dsyms.is_empty() { v.push(Dynsym) }
        if !p.dynamic.is_empty() { v.push(Dynamic) }
        if p.hashed.is_some() { v.push(Hash) }
        if p.gnu.is_some() { v.push(Gnu) }
        if p.versym.is_some() { v.push(Versym) }
        if !p.defs.is_empty() { v.push(Verdef) }
        if !p.needs.is_empty() { v.push(Verneed) }
        if !p.attrs.is_empty() { v.push(Attr) }
        v.extend((0..p.rels.len()).map(Rel));
        if p.comdat.is_some() { v.push(Comdat) }
        if !p.relr.is_empty() { v.push(Relr) }
        v.push(Shstrtab);
        v
    }
    fn align_of(p: &Plan, b: B) -> u64 {
        let word = if p.is64 { 8 } else { 4 };
        match b { Custom(i) => p.secs[i].h.sh_addralign, Strtab | Dynstr | Shstrtab | Attr | Extra | Gap(_) => 1, Shndx | Hash | Verdef | Verneed | Comdat => 4, Versym => 2, _ => word }
    }
    /// The size of a block whose size its contents decide.
    fn size_of_block(p: &Plan, b: B, nsec: u64) -> Option<u64> {
        let (sy, word) = if p.is64 { (24, 8) } else { (16, 4) };
        Some(match b {
            Custom(i) => p.secs[i].data.len() as u64,
            Strtab | Dynstr | Shstrtab | Gap(_) => return None,
            Extra => 0,
            Symtab => sy * (1 + p.syms.len() as u64),
            Shndx => 4 * (1 + p.syms.len() as u64),
            Dynsym => sy * (1 + p.dsyms.len() as u64),
            Dynamic => 2 * word * p.dynamic.len() as u64,
            Hash => 8 + 4 * (p.hashed.as_ref()?.0 as u64 + 1 + p.dsyms.len() as u64),
            Gnu => { let g = p.gnu?; 16 + word * g.2 as u64 + 4 * (g.3 as u64 + 1 + p.dsyms.len() as u64 - g.0 as u64) }
            Versym => 2 * (1 + p.dsyms.len() as u64),
            Verdef => p.defs.iter().map(|d| 20 + if d.shared { 0 } else { 8 * d.names.len() as u64 }).sum(),
            Verneed => p.needs.iter().map(|d| 16 + 16 * d.vers.len() as u64).sum(),
            Attr => attributes(p).len() as u64,
            Rel(i) => (if p.rels[i].rela { 3 } else { 2 }) * word * p.rels[i].list.len() as u64,
            Comdat => 4 + 4 * p.comdat.as_ref()?.1.len() as u64,
            Relr => word * p.relr.len() as u64,
            Phdrs => p.phs.len() as u64 * if p.is64 { 56 } else { 32 },
            Shdrs => nsec * if p.is64 { 64 } else { 40 },
        })
    }
    #[derive(Default)]
    struct Ids { secs: Vec<object::write::StringId>, rels: Vec<object::write::StringId>, comdat: Option<object::write::StringId>, relr: Option<object::write::StringId>, syms: Vec<Option<object::write::StringId>>, dsyms: Vec<object::write::StringId>, dynamic: Vec<Option<object::write::StringId>>, defs: Vec<Vec<object::write::StringId>>, needs: Vec<(object::write::StringId, Vec<object::write::StringId>)> }
    macro_rules! add_names { ($w:expr, $p:expr) => {{
        let mut n = Ids::default();
        for s in &$p.secs { n.secs.push($w.add_section_name(&s.name)) }
        for s in &$p.rels { n.rels.push($w.add_section_name(&s.name)) }
        if $p.comdat.is_some() { n.comdat = Some($w.add_section_name(b".group")) }
        if !$p.relr.is_empty() { n.relr = Some($w.add_section_name(b".relr.dyn")) }
        for s in &$p.syms { n.syms.push(if s.0.is_empty() { None } else { Some($w.add_string(&s.0)) }) }
        for s in &$p.dsyms { n.dsyms.push($w.add_dynamic_string(&s.0)) }
        for d in &$p.dynamic { n.dynamic.push(d.1.as_ref().err().map(|s| $w.add_dynamic_string(s))) }
        for d in &$p.defs { let v = d.names.iter().map(|s| $w.add_dynamic_string(s)).collect(); n.defs.push(v) }
        for d in &$p.needs { let f = $w.add_dynamic_string(&d.file); let v = d.vers.iter().map(|s| $w.add_dynamic_string(&s.2)).collect(); n.needs.push((f, v)) }
        n
    }} }
    /// Write a block that both modes write alike.
    macro_rules! write_block { ($w:expr, $p:expr, $n:expr, $b:expr) => {{
        let p: &Plan = $p;
        match $b {
            Custom(i) => { $w.write_align(p.secs[i].h.sh_addralign); $w.write(&p.secs[i].data); }
            Symtab => {
                $w.write_null_symbol();
                for (i, s) in p.syms.iter().enumerate() {
                    let mut v = s.1.clone();
                    v.st_name = $w.string_offset($n.syms[i]);
                    ensure!($w.write_symbol(&v) == w::SymbolIndex(i as u32 + 1), "symbol index");
                }
            }
            Shndx => { $w.write_symtab_shndx(); }
            Dynsym => {
                $w.write_null_dynamic_symbol();
                for (i, s) in p.dsyms.iter().enumerate() {
                    let mut v = s.1.clone();
                    v.st_name = $w.dynamic_string_offset(Some($n.dsyms[i]));
                    ensure!($w.write_dynamic_symbol(&v) == w::SymbolIndex(i as u32 + 1), "dynamic symbol index");
                }
            }
            Dynamic => {
                $w.write_align_dynamic();
                for (i, d) in p.dynamic.iter().enumerate() {
                    let r = match &d.1 { Ok(v) => $w.write_dynamic(x::DynamicTag(d.0), *v), Err(_) => $w.write_dynamic_string(x::DynamicTag(d.0), $n.dynamic[i].unwrap()) };
                    ensure!(r.is_ok(), "a dynamic entry that fits is written");
                }
            }
            Hash => { let (k, on) = p.hashed.as_ref().unwrap(); $w.write_hash(*k, 1 + p.dsyms.len() as u32, |i| if on[i as usize] { Some(abi_sysv(&p.dsyms[i as usize - 1].0)) } else { None }); }
            Gnu => { let g = p.gnu.unwrap(); $w.write_gnu_hash(g.0, g.1, g.2, g.3, 1 + p.dsyms.len() as u32 - g.0, |i| abi_gnu(&p.dsyms[(i + g.0) as usize - 1].0)); }
            Versym => { $w.write_null_gnu_versym(); for v in p.versym.as_ref().unwrap() { $w.write_gnu_versym(x::VersymIndex(*v)) } }
            Attr => { let d = write_attributes($w.attributes_writer(), p); ensure!(d == attributes(p), "the attributes section has its defined contents"); $w.write_gnu_attributes(&d); }
            Rel(i) => { $w.write_align_relocation(); for r in &p.rels[i].list { $w.write_relocation(p.rels[i].rela, r) } }
            Comdat => { $w.write_comdat_header(); for s in &p.comdat.as_ref().unwrap().1 { $w.write_comdat_entry(w::SectionIndex(*s)) } }
            Relr => { $w.write_align(if p.is64 { 8 } else { 4 }); for v in &p.relr { if p.is64 { $w.write(&if p.e == Endianness::Little { v.to_le_bytes() } else { v.to_be_bytes() }) } else { let v = *v as u32; $w.write(&if p.e == Endianness::Little { v.to_le_bytes() } else { v.to_be_bytes() }) } } }
            Gap(g) => { let at = $w.offset() + g; $w.pad_until(at) }
            Extra => {}
            _ => unreachable!(),
        }
    }} }
    macro_rules! write_defs { ($w:expr, $p:expr, $n:expr) => {
        for (i, d) in $p.defs.iter().enumerate() {
            let v = w::Verdef { version: d.version, flags: x::VersionFlags(d.flags), index: x::VersionIndex(d.index), aux_count: d.names.len() as u16, name: $w.dynamic_string_offset(Some($n.defs[i][0])), hash: d.hash };
            if d.shared { $w.write_gnu_verdef_shared(&v) } else { $w.write_gnu_verdef(&v); for s in &$n.defs[i][1..] { $w.write_gnu_verdaux(*s) } }
        }
    } }
    macro_rules! write_needs { ($w:expr, $p:expr, $n:expr) => {
        for (i, d) in $p.needs.iter().enumerate() {
            $w.write_gnu_verneed(&w::Verneed { version: d.version, aux_count: d.vers.len() as u16, file: $w.dynamic_string_offset(Some($n.needs[i].0)) });
            for (j, v) in d.vers.iter().enumerate() { $w.write_gnu_vernaux(&w::Vernaux { flags: x::VersionFlags(v.0), index: x::VersionIndex(v.1), name: $w.dynamic_string_offset(Some($n.needs[i].1[j])), hash: v.3 }) }
        }
    } }
    macro_rules! write_header { ($w:expr, $p:expr, $n:expr, $b:expr, $at:expr, $index:expr) => {{
        let p: &Plan = $p;
        match $b {
            Custom(i) => { let mut h = p.secs[i].h.clone(); h.sh_name = $w.section_name_offset(Some($n.secs[i])); h.sh_offset = $at[&$b].0; ensure!($w.write_section_header(&h).0 == $index[&$b], "section index"); }
            Strtab => $w.write_strtab_section_header(),
            Symtab => $w.write_symtab_section_header(p.locals),
            Shndx => $w.write_symtab_shndx_section_header(),
            Dynstr => $w.write_dynstr_section_header(p.addr),
            Dynsym => $w.write_dynsym_section_header(p.addr, p.locals),
            Dynamic => $w.write_dynamic_section_header(p.addr),
            Hash => $w.write_hash_section_header(p.addr),
            Gnu => $w.write_gnu_hash_section_header(p.addr),
            Versym => $w.write_gnu_versym_section_header(p.addr),
            Verdef => $w.write_gnu_verdef_section_header(p.addr),
            Verneed => $w.write_gnu_verneed_section_header(p.addr),
            Attr => $w.write_gnu_attributes_section_header(),
            Rel(i) => { let l = $index.get(&Symtab).copied().unwrap_or(0); $w.write_relocation_section_header($n.rels[i], w::SectionIndex(p.rels[i].target), w::SectionIndex(l), $at[&$b].0, p.rels[i].list.len(), p.rels[i].rela) }
            Comdat => { let (s, l) = p.comdat.as_ref().unwrap(); let t = $index.get(&Symtab).copied().unwrap_or(0); $w.write_comdat_section_header($n.comdat.unwrap(), w::SectionIndex(t), w::SymbolIndex(*s), $at[&$b].0, l.len()) }
            Relr => $w.write_relative_relocation_section_header($n.relr.unwrap(), $at[&$b].0, $at[&$b].1),
            Shstrtab => $w.write_shstrtab_section_header(),
            Extra => for _ in 0..p.extra { $w.write_section_header(&w::SectionHeader::default()); },
            _ => unreachable!(),
        }
    }} }
    type At = BTreeMap<B, (u64, u64)>;
    fn two_phase() {
        let p = plan(false);
        let mut out: Vec<u8> = Vec::new();
        let (mut at, mut index): (At, BTreeMap<B, u32>) = Default::default();
        let mut hs = present(&p);
        shuffle(&mut hs);
        let mut bs: Vec<B> = hs.iter().copied().filter(|b| *b != Extra).collect();
        if !p.phs.is_empty() { bs.push(Phdrs) }
        bs.push(Shdrs);
        for _ in 0..uni(3) { bs.push(Gap(uni(20))) }
        shuffle(&mut bs);
        if let (Some(i), Some(j)) = (bs.iter().position(|b| *b == Symtab), bs.iter().position(|b| *b == Shndx)) { if j < i { bs.swap(i, j) } }
        {
            let mut wr = w::Writer::new(p.e, p.is64, &mut out);
            let n = add_names!(wr, &p);
            if uni(2) == 0 { ensure!(wr.reserve_null_section_index() == w::SectionIndex(0), "null section"); }
            let mut next = 1;
            for b in &hs {
                let i = match b {
                    Strtab => wr.reserve_strtab_section_index(), Symtab => wr.reserve_symtab_section_index(), Shndx => wr.reserve_symtab_shndx_section_index(),
                    Dynstr => wr.reserve_dynstr_section_index(), Dynsym => wr.reserve_dynsym_section_index(), Dynamic => wr.reserve_dynamic_section_index(),
                    Hash => wr.reserve_hash_section_index(), Gnu => wr.reserve_gnu_hash_section_index(), Versym => wr.reserve_gnu_versym_section_index(),
                    Verdef => wr.reserve_gnu_verdef_section_index(), Verneed => wr.reserve_gnu_verneed_section_index(), Attr => wr.reserve_gnu_attributes_section_index(),
                    Shstrtab => wr.reserve_shstrtab_section_index(),
                    Extra => { let i = wr.reserve_section_index(); for _ in 1..p.extra { wr.reserve_section_index(); } i }
                    _ => wr.reserve_section_index(),
                };
                ensure!(i.0 == next, "section indices are given in order");
                next += if *b == Extra { p.extra } else { 1 };
                index.insert(*b, i.0);
            }
            for (i, s) in p.syms.iter().enumerate() { ensure!(wr.reserve_symbol_index(s.1.section.map(w::SectionIndex)).0 == i as u32 + 1, "symbol indices are given in order"); }
            for i in 0..p.dsyms.len() { ensure!(wr.reserve_dynamic_symbol_index().0 == i as u32 + 1, "dynamic symbol indices are given in order"); }
            if p.shndx && !wr.symtab_shndx_needed() { wr.require_symtab_shndx() }
            ensure!(wr.symtab_shndx_needed() == p.shndx, "extended section indices are needed exactly when one does not fit");
            wr.reserve_file_header();
            ensure!(wr.reserved_len() == if p.is64 { 64 } else { 52 }, "file header");
            for b in &bs {
                let before = wr.reserved_len();
                let r = match *b {
                    Custom(i) => Some(wr.reserve(p.secs[i].data.len() as u64, p.secs[i].h.sh_addralign)),
                    Strtab => { ensure!(wr.reserve_strtab().is_ok(), "strings"); None }
                    Symtab => { wr.reserve_symtab(); None }
                    Shndx => { wr.reserve_symtab_shndx(); None }
                    Dynstr => wr.reserve_dynstr().ok(),
                    Dynsym => Some(wr.reserve_dynsym()),
                    Dynamic => Some(wr.reserve_dynamic(p.dynamic.len())),
                    Hash => Some(wr.reserve_hash(p.hashed.as_ref().unwrap().0, 1 + p.dsyms.len() as u32)),
                    Gnu => { let g = p.gnu.unwrap(); Some(wr.reserve_gnu_hash(g.2, g.3, 1 + p.dsyms.len() as u32 - g.0)) }
                    Versym => Some(wr.reserve_gnu_versym()),
                    Verdef => Some(wr.reserve_gnu_verdef(p.defs.len() as u16, p.defs.iter().filter(|d| !d.shared).map(|d| d.names.len()).sum())),
                    Verneed => Some(wr.reserve_gnu_verneed(p.needs.len() as u16, p.needs.iter().map(|d| d.vers.len()).sum())),
                    Attr => Some(wr.reserve_gnu_attributes(attributes(&p).len() as u64)),
                    Rel(i) => Some(wr.reserve_relocations(p.rels[i].list.len(), p.rels[i].rela)),
                    Comdat => Some(wr.reserve_comdat(p.comdat.as_ref().unwrap().1.len())),
                    Relr => Some(wr.reserve(size_of_block(&p, Relr, 0).unwrap(), align_of(&p, Relr))),
                    Shstrtab => { ensure!(wr.reserve_shstrtab().is_ok(), "names"); None }
                    Phdrs => { wr.reserve_program_headers(p.phs.len() as u32); None }
                    Shdrs => { wr.reserve_section_headers(); None }
                    Gap(g) => { wr.reserve_until(before + g); None }
                    Extra => unreachable!(),
                };
                let al = align_of(&p, *b);
                let start = (before + al - 1) / al * al;
                ensure!(r.is_none() || r == Some(start), "a block starts at the next multiple of its alignment");
                let size = wr.reserved_len() - start;
                if let Some(z) = size_of_block(&p, *b, next as u64) { ensure!(size == z, "a block of its size is reserved"); }
                at.insert(*b, (start, size));
            }
            ensure!(wr.write_file_header(&p.hdr).is_ok(), "the file header is written");
            for b in &bs {
                match *b {
                    Strtab => wr.write_strtab(), Dynstr => wr.write_dynstr(), Shstrtab => wr.write_shstrtab(),
                    Phdrs => { wr.write_align_program_headers(); for h in &p.phs { wr.write_program_header(h) } }
                    Shdrs => { wr.write_null_section_header(); for b in &hs { write_header!(wr, &p, n, *b, at, index) } }
                    Verdef => { wr.write_align_gnu_verdef(); write_defs!(wr, p, n) }
                    Verneed => { wr.write_align_gnu_verneed(); write_needs!(wr, p, n) }
                    b => write_block!(wr, &p, n, b),
                }
                if !matches!(b, Gap(_)) { ensure!(wr.offset() == at[b].0 + at[b].1 && wr.len() == wr.offset(), "a block is written where it was reserved"); }
            }
            ensure!(wr.len() == wr.reserved_len(), "exactly the reserved length is written");
        }
        let end = bs.iter().map(|b| at[b].0 + at[b].1).max().unwrap();
        ensure!(out.len() as u64 == end, "length");
        if p.is64 { check::<x::FileHeader64<E>>(&p, &out, &at, &index) } else { check::<x::FileHeader32<E>>(&p, &out, &at, &index) }
    }
    fn single_phase() {
        let p = plan(true);
        let mut out: Vec<u8> = Vec::new();
        let mut head: Vec<u8> = Vec::new();
        let (mut at, mut index): (At, BTreeMap<B, u32>) = Default::default();
        let hs = present(&p);
        let mut next = 1;
        for b in &hs { index.insert(*b, next); next += 1; }
        // Names must be added before their tables are written, and a table of symbols requires its strings.
        let mut bs: Vec<B> = hs.iter().copied().filter(|b| *b != Shstrtab).collect();
        for _ in 0..uni(3) { bs.push(Gap(uni(20))) }
        shuffle(&mut bs);
        if let (Some(i), Some(j)) = (bs.iter().position(|b| *b == Symtab), bs.iter().position(|b| *b == Shndx)) { if j < i { bs.swap(i, j) } }
        if p.syms.iter().all(|s| s.0.is_empty()) { if let (Some(i), Some(j)) = (bs.iter().position(|b| *b == Symtab), bs.iter().position(|b| *b == Strtab)) { if j < i { bs.swap(i, j); if let (Some(i), Some(j)) = (bs.iter().position(|b| *b == Symtab), bs.iter().position(|b| *b == Shndx)) { if j < i { bs.swap(i, j) } } } } }
        if !p.phs.is_empty() { bs.insert(0, Phdrs) }
        bs.push(Shstrtab);
        bs.push(Shdrs);
        {
            let mut wr = w::Writer::new_single_phase(p.e, p.is64, &mut out);
            ensure!(wr.write_file_header(&p.hdr).is_ok(), "the file header is written");
            let n = add_names!(wr, &p);
            for b in &bs {
                let before = wr.offset();
                let al = align_of(&p, *b);
                let start = (before + al - 1) / al * al;
                match *b {
                    Strtab => ensure!(matches!(wr.write_strtab(), Ok((o, z)) if o == start && o + z as u64 == wr.offset()), "strings"),
                    Dynstr => ensure!(matches!(wr.write_dynstr(), Ok((o, z)) if o == start && o + z as u64 == wr.offset()), "dynamic strings"),
                    Shstrtab => ensure!(matches!(wr.write_shstrtab(), Ok((o, z)) if o == start && o + z as u64 == wr.offset()), "names"),
                    Phdrs => ensure!(wr.write_program_headers_placeholder(p.phs.len() as u32) == (start, size_of_block(&p, Phdrs, 0).unwrap()), "room for the program headers"),
                    Shdrs => { ensure!(wr.write_null_section_header() == start, "section headers"); for b in &hs { write_header!(wr, &p, n, *b, at, index) } }
                    Verdef => { ensure!(wr.write_align_gnu_verdef(p.defs.len() as u16) == start, "definitions"); write_defs!(wr, p, n) }
                    Verneed => { ensure!(wr.write_align_gnu_verneed(p.needs.len() as u16) == start, "needed versions"); write_needs!(wr, p, n) }
                    b => write_block!(wr, &p, n, b),
                }
                let size = wr.offset() - start;
                if let Some(z) = size_of_block(&p, *b, next as u64) { ensure!(size == z, "a block of its size is written"); }
                at.insert(*b, (start, size));
            }
            let r = if uni(2) == 0 { wr.write_headers_to(&mut head, &p.phs) } else {
                let r = wr.write_file_header_to(&mut head);
                for h in &p.phs { wr.write_program_header_to(&mut head, h) }
                r
            };
            ensure!(r.is_ok(), "the final file header is written");
        }
        ensure!(head.len() as u64 == if p.phs.is_empty() { if p.is64 { 64 } else { 52 } } else { at[&Phdrs].0 + at[&Phdrs].1 }, "the headers fill their room");
        out[..head.len()].copy_from_slice(&head);
        if p.is64 { check::<x::FileHeader64<E>>(&p, &out, &at, &index) } else { check::<x::FileHeader32<E>>(&p, &out, &at, &index) }
    }
    fn check<Elf: FileHeader<Endian = E>>(p: &Plan, d: &[u8], at: &At, index: &BTreeMap<B, u32>) {
        let e = p.e;
        let f = Elf::parse(d).expect("file header");
        ensure!(f.endian().unwrap() == e && f.is_class_64() == p.is64, "class and byte order");
        let g = w::FileHeader::from_raw(e, f);
        same!(g, p.hdr; os_abi, abi_version, e_type, e_machine, e_entry, e_flags);
        let mips = p.is64 && e == Endianness::Little && p.hdr.e_machine == x::EM_MIPS;
        ensure!(f.is_mips64el(e) == mips, "mips64el");
        let phs = f.program_headers(e, d).expect("program headers");
        ensure!(phs.len() == p.phs.len() && (phs.is_empty() || f.e_phoff(e).into() == at[&Phdrs].0), "program headers");
        for (r, h) in phs.iter().zip(&p.phs) { let g = w::ProgramHeader::from_raw(e, r); same!(g, h; p_type, p_flags, p_offset, p_vaddr, p_paddr, p_filesz, p_memsz, p_align); }
        ensure!(f.e_shoff(e).into() == at[&Shdrs].0, "section headers");
        let secs = f.sections(e, d).expect("sections");
        let n = index.len() + 1 + p.extra.saturating_sub(1) as usize;
        ensure!(secs.len() == n, "section count");
        let word = if p.is64 { 8 } else { 4 };
        let sym = if p.is64 { 24 } else { 16 };
        let link = |b: B| index.get(&b).copied().unwrap_or(0);
        for (b, i) in index {
            if *b == Extra { continue }
            let s = secs.section(SectionIndex(*i as usize)).expect("section");
            // type, flags, link, info, entry size, address
            let (name, typ, flags, l, info, ent, addr): (&[u8], x::SectionType, u64, u32, u32, u64, u64) = match *b {
                Custom(i) => { let h = &p.secs[i].h; (&p.secs[i].name, h.sh_type, h.sh_flags.0, h.sh_link, h.sh_info, h.sh_entsize, h.sh_addr) }
                Strtab => (b".strtab", x::SHT_STRTAB, 0, 0, 0, 0, 0),
                Shstrtab => (b".shstrtab", x::SHT_STRTAB, 0, 0, 0, 0, 0),
                Symtab => (b".symtab", x::SHT_SYMTAB, 0, link(Strtab), p.locals, sym, 0),
                Shndx => (b".symtab_shndx", x::SHT_SYMTAB_SHNDX, 0, link(Symtab), 0, 4, 0),
                Dynstr => (b".dynstr", x::SHT_STRTAB, 2, 0, 0, 0, p.addr),
                Dynsym => (b".dynsym", x::SHT_DYNSYM, 2, link(Dynstr), p.locals, sym, p.addr),
                Dynamic => (b".dynamic", x::SHT_DYNAMIC, 3, link(Dynstr), 0, 2 * word, p.addr),
                Hash => (b".hash", x::SHT_HASH, 2, link(Dynsym), 0, 4, p.addr),
                Gnu => (b".gnu.hash", x::SHT_GNU_HASH, 2, link(Dynsym), 0, if p.is64 { 0 } else { 4 }, p.addr),
                Versym => (b".gnu.version", x::SHT_GNU_VERSYM, 2, link(Dynsym), 0, 2, p.addr),
                Verdef => (b".gnu.version_d", x::SHT_GNU_VERDEF, 2, link(Dynstr), p.defs.len() as u32, 0, p.addr),
                Verneed => (b".gnu.version_r", x::SHT_GNU_VERNEED, 2, link(Dynstr), p.needs.len() as u32, 0, p.addr),
                Attr => (b".gnu.attributes", x::SHT_GNU_ATTRIBUTES, 0, link(Dynstr), 0, 0, 0),
                Rel(i) => { let r = &p.rels[i]; (&r.name, if r.rela { x::SHT_RELA } else { x::SHT_REL }, 0x40, link(Symtab), r.target, if r.rela { 3 * word } else { 2 * word }, 0) }
                Comdat => (b".group", x::SHT_GROUP, 0, link(Symtab), p.comdat.as_ref().unwrap().0, 4, 0),
                Relr => (b".relr.dyn", x::SHT_RELR, 0, 0, 0, word, 0),
                Extra | Phdrs | Shdrs | Gap(_) => unreachable!(),
            };
            ensure!(secs.section_name(e, s).ok() == Some(name), "section name");
            ensure!(s.sh_type(e) == typ && s.sh_flags(e).0 == flags, "section type and flags");
            ensure!(s.sh_link(e) == l && s.sh_info(e) == info, "section link and info");
            ensure!(s.sh_entsize(e).into() == ent && s.sh_addralign(e).into() == align_of(p, *b) && s.sh_addr(e).into() == addr, "section entry size, alignment and address");
            ensure!((s.sh_offset(e).into(), s.sh_size(e).into()) == at[b], "the section header says where the section is");
            if let Custom(i) = *b { ensure!(s.data(e, d).ok() == Some(&p.secs[i].data[..]), "section data"); }
            match *b {
                Rel(i) => {
                    let want = &p.rels[i];
                    if want.rela {
                        let (r, l) = s.rela(e, d).unwrap().expect("rela");
                        ensure!(r.len() == want.list.len() && l.0 as u32 == link(Symtab), "relocations");
                        for (r, v) in r.iter().zip(&want.list) { let g = w::Rel::from_rela(e, r, mips); same!(g, v; r_offset, r_sym, r_type, r_addend); }
                    } else {
                        let (r, _) = s.rel(e, d).unwrap().expect("rel");
                        ensure!(r.len() == want.list.len(), "relocations");
                        for (r, v) in r.iter().zip(&want.list) { let g = w::Rel::from_rel(e, r); same!(g, v; r_offset, r_sym, r_type); }
                    }
                }
                Comdat => {
                    let (fl, l) = s.group(e, d).unwrap().expect("group");
                    ensure!(fl == x::GRP_COMDAT && l.iter().map(|v| v.get(e)).collect::<Vec<_>>() == p.comdat.as_ref().unwrap().1, "group members");
                }
                Relr => {
                    let mut r = s.relr(e, d).unwrap().expect("relr");
                    ensure!(r.next().map(|v| v.into()) == Some(p.relr[0]), "relative relocations");
                }
                Attr => {
                    let a = s.gnu_attributes(e, d).unwrap().expect("attributes");
                    let mut it = a.subsections().unwrap();
                    for sub in &p.attrs {
                        let r = it.next().unwrap().expect("subsection");
                        ensure!(r.vendor() == &sub.vendor[..], "vendor");
                        let mut jt = r.subsubsections();
                        for t in &sub.parts {
                            let r = jt.next().unwrap().expect("part");
                            ensure!(r.tag().0 == t.tag && r.indices().map(|i| i.unwrap()).collect::<Vec<_>>() == t.idx, "tag and indices");
                            let mut k = r.attributes();
                            for (g, v) in &t.attrs {
                                ensure!(k.read_tag().unwrap() == Some(*g), "attribute tag");
                                match v { Ok(v) => ensure!(k.read_integer().unwrap() == *v, "attribute value"), Err(s) => ensure!(k.read_string().unwrap() == &s[..], "attribute string") }
                            }
                            ensure!(k.read_tag().unwrap().is_none(), "no more attributes");
                        }
                        ensure!(jt.next().unwrap().is_none(), "no more parts");
                    }
                    ensure!(it.next().unwrap().is_none(), "no more subsections");
                }
                Dynamic => {
                    let (t, l) = s.dynamic(e, d).unwrap().expect("dynamic");
                    ensure!(t.len() == p.dynamic.len() && l.0 as u32 == link(Dynstr), "dynamic entries");
                    let strings = secs.strings(e, d, l).unwrap();
                    for (r, v) in t.iter().zip(&p.dynamic) {
                        ensure!(r.d_tag(e).0 == v.0, "dynamic tag");
                        match &v.1 { Ok(v) => ensure!(r.d_val(e).into() == *v, "dynamic value"), Err(s) => ensure!(strings.get(r.d_val(e).into() as u32) == Ok(&s[..]), "dynamic string") }
                    }
                }
                _ => {}
            }
        }
        ensure!(f.section_strings_index(e, d).map(|i| i.0 as u32) == Ok(link(Shstrtab)), "name table");
        let st = secs.symbols(e, d, x::SHT_SYMTAB).expect("symbols");
        ensure!(st.len() == if p.syms.is_empty() { 0 } else { 1 + p.syms.len() }, "symbol count");
        for (i, (name, v)) in p.syms.iter().enumerate() {
            let i = SymbolIndex(i + 1);
            let r = st.symbol(i).unwrap();
            ensure!(st.symbol_name(e, r).ok() == Some(&name[..]), "symbol name");
            let sec = match v.section { Some(s) => if s == 0 { None } else { Some(s as usize) }, None => if v.st_shndx.0 == 3 { Some(3) } else { None } };
            ensure!(st.symbol_section(e, r, i).ok() == Some(sec.map(SectionIndex)), "symbol section");
            if v.section.is_none() { ensure!(r.st_shndx(e) == v.st_shndx, "special section"); }
            let g = w::Sym::from_raw(e, r, v.section);
            same!(g, v; st_info, st_other, st_value, st_size);
        }
        let dt = secs.symbols(e, d, x::SHT_DYNSYM).expect("dynamic symbols");
        ensure!(dt.len() == if p.dsyms.is_empty() { 0 } else { 1 + p.dsyms.len() }, "dynamic symbol count");
        for (i, (name, v)) in p.dsyms.iter().enumerate() {
            let i = SymbolIndex(i + 1);
            let r = dt.symbol(i).unwrap();
            ensure!(dt.symbol_name(e, r).ok() == Some(&name[..]) && dt.symbol_section(e, r, i).ok().flatten().map(|s| s.0 as u32) == v.section, "dynamic symbol name and section");
            let g = w::Sym::from_raw(e, r, v.section);
            same!(g, v; st_info, st_other, st_value, st_size);
        }
        let none = VersionTable::default();
        if let Some((k, on)) = &p.hashed {
            let (t, _) = secs.hash(e, d).unwrap().expect("hash table");
            let h = secs.hash_header(e, d).unwrap().expect("hash header");
            ensure!(h.bucket_count.get(e) == *k && t.symbol_table_length() as usize == on.len(), "counts");
            for (i, (name, _)) in p.dsyms.iter().enumerate() {
                let r = t.find(e, name, abi_sysv(name), None, &dt, &none).map(|r| r.0 .0);
                ensure!(r == if on[i + 1] { Some(i + 1) } else { None }, "a hashed symbol is found by its name");
            }
        }
        if let Some(gh) = p.gnu {
            let (t, _) = secs.gnu_hash(e, d).unwrap().expect("GNU hash table");
            let h = secs.gnu_hash_header(e, d).unwrap().expect("GNU hash header");
            let g = w::GnuHashTable::from_raw(e, h, 0);
            ensure!((g.symbol_base, g.bloom_shift, g.bloom_count, g.bucket_count) == gh && t.symbol_base() == gh.0, "counts");
            for (i, (name, _)) in p.dsyms.iter().enumerate() {
                let r = t.find(e, name, abi_gnu(name), None, &dt, &none).map(|r| r.0 .0);
                ensure!(r == if i + 1 >= gh.0 as usize { Some(i + 1) } else { None }, "a hashed symbol is found by its name");
            }
            if (gh.0 as usize) <= p.dsyms.len() { ensure!(t.symbol_table_length(e) == Some(p.dsyms.len() as u32 + 1), "the table ends with the last symbol"); }
        }
        if let Some(v) = &p.versym {
            let (t, l) = secs.gnu_versym(e, d).unwrap().expect("version indices");
            ensure!(l.0 as u32 == link(Dynsym) && t.len() == v.len() + 1 && t[0].0.get(e).0 == 0 && t[1..].iter().zip(v).all(|(r, v)| r.0.get(e).0 == *v), "version indices");
        }
        if !p.defs.is_empty() {
            let (mut t, l) = secs.gnu_verdef(e, d).unwrap().expect("definitions");
            ensure!(l.0 as u32 == link(Dynstr), "definition strings");
            let strings = secs.strings(e, d, l).unwrap();
            let body = secs.section(SectionIndex(link(Verdef) as usize)).unwrap().data(e, d).unwrap();
            let mut used = 0;
            for v in &p.defs {
                let (r, mut names) = t.next().unwrap().expect("definition");
                ensure!(r.vd_version.get(e) == v.version && r.vd_flags.get(e).0 == v.flags && r.vd_ndx.get(e).0 == v.index && r.vd_cnt.get(e) as usize == v.names.len() && r.vd_hash.get(e) == v.hash, "definition");
                for (k, s) in v.names.iter().enumerate() {
                    let a = names.next().unwrap().expect("name");
                    ensure!(a.name(e, strings).ok() == Some(&s[..]), "definition name");
                    ensure!((a.vda_next.get(e) == 0) == (k + 1 == v.names.len()), "the last name says that it is the last");
                }
                ensure!(names.next().unwrap().is_none(), "no more names");
                used += 20 + if v.shared { 0 } else { 8 * v.names.len() };
                ensure!(r.vd_next.get(e) as usize == if used == body.len() { 0 } else if v.shared { 20 } else { 20 + 8 * v.names.len() }, "next definition");
            }
            ensure!(t.next().unwrap().is_none(), "no more definitions");
        }
        if !p.needs.is_empty() {
            let (mut t, l) = secs.gnu_verneed(e, d).unwrap().expect("needed versions");
            ensure!(l.0 as u32 == link(Dynstr), "needed version strings");
            let strings = secs.strings(e, d, l).unwrap();
            for (k, v) in p.needs.iter().enumerate() {
                let (r, mut vers) = t.next().unwrap().expect("needed file");
                ensure!(r.vn_version.get(e) == v.version && r.file(e, strings).ok() == Some(&v.file[..]) && r.vn_cnt.get(e) as usize == v.vers.len(), "needed file");
                ensure!((r.vn_next.get(e) == 0) == (k + 1 == p.needs.len()), "the last file says that it is the last");
                for (k, s) in v.vers.iter().enumerate() {
                    let a = vers.next().unwrap().expect("needed version");
                    ensure!(a.vna_flags.get(e).0 == s.0 && a.vna_other.get(e).0 == s.1 && a.name(e, strings).ok() == Some(&s.2[..]) && a.vna_hash.get(e) == s.3, "needed version");
                    ensure!((a.vna_next.get(e) == 0) == (k + 1 == v.vers.len()), "the last version says that it is the last");
                }
                ensure!(vers.next().unwrap().is_none(), "no more versions");
            }
            ensure!(t.next().unwrap().is_none(), "no more files");
        }
    }
    pub fn roundtrip() { if uni(2) == 0 { two_phase() } else { single_phase() } }
}
