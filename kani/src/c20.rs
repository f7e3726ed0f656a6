//! COFF and XCOFF: symbols, auxiliary records, sections, names.
use crate::shim::*;
use ::memchr_dep as mc;
use object::pe;
use object::pod::{bytes_of, bytes_of_slice};
use object::read::coff::{CoffHeader, SectionTable, Symbol as CSymbol};
use object::read::xcoff::{CsectAux, FileAux, FileHeader, SectionHeader, Symbol as XSymbol};
use object::read::{SectionIndex, StringTable, SymbolIndex};
use object::{xcoff, LittleEndian as LE};

fn le16(d: &[u8], o: usize) -> u16 { d[o] as u16 | (d[o + 1] as u16) << 8 }
fn le32(d: &[u8], o: usize) -> u32 { le16(d, o) as u32 | (le16(d, o + 2) as u32) << 16 }
fn be16(d: &[u8], o: usize) -> u16 { d[o + 1] as u16 | (d[o] as u16) << 8 }
fn be32(d: &[u8], o: usize) -> u32 { be16(d, o + 2) as u32 | (be16(d, o) as u32) << 16 }
fn be64(d: &[u8], o: usize) -> u64 { be32(d, o + 4) as u64 | (be32(d, o) as u64) << 32 }

/// With a witness from before the call, `n` is the bytes of `d` from `at` to the first zero byte before `end`; `None` only when there is none.
fn string_at(w: usize, n: Option<&[u8]>, d: &[u8], at: u128, end: u64) {
    match n {
        Some(n) => {
            reach!(n.len() > 8, "a long name");
            ensure!(at < end as u128 && end <= d.len() as u64, "inside the string table");
            ensure!((n.len() as u64) < end - at as u64 && is_at(n, d, at as usize, n.len()), "the entry at the offset");
            ensure!(d[at as usize + n.len()] == 0, "up to a zero byte");
            ensure!(!(w < n.len()) || n[w] != 0, "up to the first one");
        }
        None => ensure!(at > end as u128 || end > d.len() as u64 || !((w as u128) < end as u128 - at) || d[at as usize + w] != 0, "an error only without a terminated string"),
    }
}
/// `n` is the bytes of `f` up to the first zero byte.
fn inline(w: usize, n: &[u8], f: &[u8]) {
    reach!(n.len() > 5, "an inline name");
    ensure!(n.len() <= f.len() && is_at(n, f, 0, n.len()) && (n.len() == f.len() || f[n.len()] == 0), "the inline name up to a zero byte");
    ensure!(!(w < n.len()) || n[w] != 0, "up to the first one");
}
macro_rules! coff_fields { ($s:ty, $num:expr, $t:expr) => {{
    let s = any_pod!($s);
    let b = bytes_of(&s);
    let (typ, class, aux) = (le16(b, $t), b[$t + 2], b[$t + 3]);
    let num: i32 = $num(b);
    ensure!(s.raw_name() == &b[..8] && s.value() == le32(b, 8), "name and value");
    ensure!(s.section_number().0 == num && s.typ().0 == typ && s.storage_class().0 == class && s.number_of_aux_symbols() == aux, "the fields of the record");
    ensure!(s.section() == if num > 0 { Some(SectionIndex(num as usize)) } else { None }, "the section");
    ensure!(u16::from(s.base_type().0) == typ % 16 && u16::from(s.derived_type().0) == typ / 16 % 4, "the type");
    let section_aux = aux > 0 && class == 3 && typ == 0;
    ensure!(s.has_aux_section() == section_aux, "section definitions: static symbols of no type");
    ensure!(s.has_aux_function() == (aux > 0 && typ / 16 % 4 == 2 && (class == 2 || class == 3)), "function definitions");
    ensure!(s.has_aux_file_name() == (aux > 0 && class == 103), "file names");
    ensure!(s.has_aux_weak_external() == (aux > 0 && class == 105 && num == 0 && le32(b, 8) == 0), "weak externals");
    ensure!(s.is_definition() == (num > 0 && (class == 2 || class == 105 || class == 3 && !section_aux)), "definitions");
    reach!(section_aux, "a section symbol");
}}}
fn reg_num(b: &[u8]) -> i32 { let n = le16(b, 12); if n <= 0xfeff { n as i32 } else { n as i32 - 0x10000 } }
fn ex_num(b: &[u8]) -> i32 { le32(b, 12) as i32 }
macro_rules! coff_name { ($s:ty) => {{
    let (d, w) = (any_bytes::<64>(), witness());
    let s: &'static $s = Box::leak(Box::new(any_pod!($s)));
    let (a, e): (u64, u64) = (any(), any());
    let r = s.name(StringTable::new(d, a, e));
    let f = s.raw_name();
    if f[0] != 0 { ensure!(r.is_ok(), "an inline name can be read"); inline(w, r.unwrap_or(&[]), f) }
    else if le32(f, 0) == 0 { string_at(w, r.ok(), d, a as u128 + le32(f, 4) as u128, e) }
}}}
/// The table of a header: `t`, records at `at`, `n` of them, the string table at `strings` of length `len`.
macro_rules! table { ($h:ident, $d:ident, $t:ident, $size:expr, $ptr:expr, $n:expr, $word:ident, $at:ident, $count:ident) => {
    let ($at, $count) = ($ptr as u64, $n as u64);
    let r = $h.symbols($d);
    let strings = $at as u128 + $count as u128 * $size;
    let len = $d.len() as u128;
    let fits = strings + 4 <= len;
    let Ok($t) = r else { ensure!($at != 0 && !fits, "a table in the file is accepted"); return };
    ensure!($at == 0 || fits, "only a table in the file is accepted");
    ensure!($t.len() as u64 == if $at == 0 { 0 } else { $count }, "as many records as declared");
} }
macro_rules! coff_table { ($h:ty, $z:expr) => {{
    let d = any_bytes::<512>();
    let h = any_pod!($h);
    table!(h, d, t, $z, CoffHeader::pointer_to_symbol_table(&h), CoffHeader::number_of_symbols(&h), le32, at, n);
    let i = SymbolIndex(any());
    match t.symbol(i) {
        Ok(s) => { reach!(i.0 > 10, "a symbol"); ensure!(i.0 < t.len() && is_at(bytes_of(s), d, at as usize + i.0 * $z, $z), "the record with that index") }
        Err(_) => ensure!(i.0 >= t.len(), "every record can be read"),
    }
}}}
macro_rules! xname { ($w:ident, $f:expr, $r:expr, $d:ident, $a:ident, $e:ident) => {{
    let (f, r): (&[u8], _) = ($f, $r);
    if f[0] != 0 { ensure!(r.is_ok(), "an inline name can be read"); inline($w, r.unwrap_or(&[]), f) }
    else if be32(f, 0) == 0 { string_at($w, r.ok(), $d, $a as u128 + be32(f, 4) as u128, $e) }
}}}
macro_rules! xfields { ($s:ty, $value:expr, $n:expr, $off:expr) => {{
    let s = any_pod!($s);
    let b = bytes_of(&s);
    let num = be16(b, $n) as i16;
    let (class, aux) = (b[$n + 4], b[$n + 5]);
    ensure!(b.len() == 18 && u64::from(s.n_value()) == $value(b), "the value");
    ensure!(s.n_scnum().0 == num && s.n_type().0 == be16(b, $n + 2) && s.n_sclass().0 == class && s.n_numaux() == aux, "the fields of the record");
    ensure!(s.section() == if num > 0 { Some(SectionIndex(num as usize)) } else { None }, "the section");
    ensure!(s.is_null() == (class == 0), "null symbols");
    ensure!(s.is_undefined() == ((class == 2 || class == 111) && num == 0), "undefined symbols");
    ensure!(s.has_aux_file() == (aux > 0 && class == 103), "file auxiliary entries");
    ensure!(s.has_aux_csect() == (aux > 0 && (class == 2 || class == 111 || class == 107)), "csect auxiliary entries");
    ensure!(s.name_offset() == $off(b), "the offset of the name");
    reach!(s.has_aux_csect() && num > 3, "a csect");
}}}
fn off32(b: &[u8]) -> Option<u32> { if b[0] == 0 { Some(be32(b, 4)) } else { None } }
macro_rules! xtable { ($h:ty, $s:ty) => {{
    let d = any_bytes::<512>();
    let h = any_pod!($h);
    table!(h, d, t, 18, Into::<u64>::into(h.f_symptr()), h.f_nsyms(), be32, at, n);
    let i = SymbolIndex(any());
    let in_table = i.0 < t.len();
    match t.symbol(i) {
        Ok(s) => { reach!(i.0 > 10, "a symbol"); ensure!(in_table && is_at(bytes_of(s), d, at as usize + i.0 * 18, 18) && !s.is_null(), "the record with that index") }
        Err(_) => ensure!(!in_table || d[at as usize + i.0 * 18 + 16] == 0, "every record but null ones can be read"),
    }
}}}
macro_rules! xsection { ($s:ty, $w:expr) => {{
    let s = any_pod!($s);
    let b = bytes_of(&s);
    let word = |i: usize| if $w == 8 { be64(b, 8 + 8 * i) } else { be32(b, 8 + 4 * i) as u64 };
    let (nrel, nln) = if $w == 8 { (be32(b, 56), be32(b, 60)) } else { (be16(b, 32) as u32, be16(b, 34) as u32) };
    let flags = be32(b, if $w == 8 { 64 } else { 36 });
    let u = |x| -> u64 { Into::<u64>::into(x) };
    ensure!(u(s.s_paddr()) == word(0) && u(s.s_vaddr()) == word(1) && u(s.s_size()) == word(2) && u(s.s_scnptr()) == word(3) && u(s.s_relptr()) == word(4) && u(s.s_lnnoptr()) == word(5), "the words");
    ensure!(Into::<u32>::into(s.s_nreloc()) == nrel && Into::<u32>::into(s.s_nlnno()) == nln && s.s_flags().0 == flags, "the counts");
    let range = if flags & 0x880 != 0 { None } else { Some((word(3), word(2))) };
    ensure!(s.file_range() == range, "a section of zeros has no bytes in the file");
    let d = any_bytes::<128>();
    match s.data(d) {
        Ok(x) => ensure!(match range { None => x.is_empty(), Some((o, n)) => is_read(x, d, o, n) }, "its bytes"),
        Err(_) => ensure!(matches!(range, Some((o, n)) if o as u128 + n as u128 > d.len() as u128), "bytes in the file can be read"),
    }
    let z = if $w == 8 { 14 } else { 10 };
    match s.relocations(d) {
        Ok(r) => { reach!(r.len() > 3, "relocations"); ensure!(($w == 8 || nrel != 65535) && r.len() == nrel as usize && is_read(bytes_of_slice(r), d, word(4), nrel as u64 * z), "as many relocations as declared") }
        Err(_) => ensure!($w == 4 && nrel == 65535 || word(4) as u128 + nrel as u128 * z as u128 > d.len() as u128, "relocations in the file can be read"),
    }
}}}
/// A section header and a string table.
macro_rules! section_name { ($d:ident, $w:ident, $s:ident, $a:ident, $e:ident) => {
    let ($d, $w) = (any_bytes::<64>(), witness());
    let $s: &'static pe::ImageSectionHeader = Box::leak(Box::new(any_pod!(pe::ImageSectionHeader)));
    let ($a, $e): (u64, u64) = (any(), any());
} }
macro_rules! section_name_at { ($d:ident, $w:ident, $s:ident, $a:ident, $e:ident) => {
    let r = $s.name(StringTable::new($d, $a, $e));
    match $s.name_offset() {
        Err(_) => ensure!(r.is_err(), "no name"),
        Ok(Some(o)) => string_at($w, r.ok(), $d, $a as u128 + o as u128, $e),
        Ok(None) => ensure!(false, "a name with a slash is an offset"),
    }
} }

harnesses! {
    /// The fields of symbol records and what follows from them.
    fn coff_symbol_fields() { coff_fields!(pe::ImageSymbol, reg_num, 14) }
    fn coff_symbol_ex_fields() { coff_fields!(pe::ImageSymbolEx, ex_num, 16) }
    /// Names: inline, or in the string table.
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn coff_symbol_name() { coff_name!(pe::ImageSymbol) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn coff_symbol_ex_name() { coff_name!(pe::ImageSymbolEx) }
    /// The symbol table of a header.
    fn coff_table() { coff_table!(pe::ImageFileHeader, 18) }
    fn coff_table_ex() { coff_table!(pe::AnonObjectHeaderBigobj, 20) }
    /// The fields of auxiliary records.
    fn coff_aux_fields() {
        let a: [u8; 18] = any_array();
        let f = any_pod!(pe::ImageAuxSymbolFunction);
        let b = bytes_of(&f);
        ensure!(b.len() == 18 && f.tag_index.get(LE) == le32(b, 0) && f.total_size.get(LE) == le32(b, 4) && f.pointer_to_linenumber.get(LE) == le32(b, 8) && f.pointer_to_next_function.get(LE) == le32(b, 12), "a function");
        let s = any_pod!(pe::ImageAuxSymbolSection);
        let b = bytes_of(&s);
        ensure!(b.len() == 18 && s.length.get(LE) == le32(b, 0) && s.number_of_relocations.get(LE) == le16(b, 4) && s.number_of_linenumbers.get(LE) == le16(b, 6) && s.check_sum.get(LE) == le32(b, 8), "a section");
        ensure!(s.number.get(LE) == le16(b, 12) && s.selection.0 == b[14] && s.high_number.get(LE) == le16(b, 16), "a section");
        let w = any_pod!(pe::ImageAuxSymbolWeak);
        let b = bytes_of(&w);
        ensure!(b.len() <= a.len() && w.weak_default_sym_index.get(LE) == le32(b, 0) && w.weak_search_type.get(LE).0 == le32(b, 4) && w.default_symbol() == SymbolIndex(le32(b, 0) as usize), "a weak external");
        let c = any_pod!(pe::ImageAuxSymbolCrc);
        ensure!(c.crc.get(LE) == le32(bytes_of(&c), 0), "a checksum");
        let _ = a;
    }
    /// Section headers by index, from one.
    fn coff_sections() {
        let d = any_bytes::<512>();
        let h = any_pod!(pe::ImageFileHeader);
        let (o, n) = (any::<u64>(), le16(bytes_of(&h), 2) as usize);
        match h.sections(d, o) {
            Ok(t) => {
                ensure!(t.len() == n, "as many as declared");
                let i: usize = any();
                match t.section(SectionIndex(i)) {
                    Ok(s) => { reach!(i > 5, "a section"); ensure!(i >= 1 && i <= n && is_at(bytes_of(s), d, o as usize + (i - 1) * 40, 40), "the header with that index") }
                    Err(_) => ensure!(i == 0 || i > n, "every header can be read"),
                }
            }
            Err(_) => ensure!(o as u128 + 40 * n as u128 > d.len() as u128, "headers in the file are accepted"),
        }
    }
    /// The string-table offset in a section name.
    fn coff_section_offset() {
        let s = any_pod!(pe::ImageSectionHeader);
        let b = &s.name;
        let r = s.name_offset();
        if b[0] != b'/' { ensure!(r == Ok(None), "no offset"); return }
        if b[1] == b'/' {
            let (mut v, mut ok, mut i) = (0u64, true, 2);
            while i < 8 {
                let c = b[i];
                let x = if c >= b'A' && c <= b'Z' { c - 65 } else if c >= b'a' && c <= b'z' { c - 97 + 26 } else if c >= b'0' && c <= b'9' { c - 48 + 52 } else if c == b'+' { 62 } else if c == b'/' { 63 } else { ok = false; 0 };
                v = v << 6 | x as u64;
                i += 1;
            }
            reach!(ok && v > 1 << 30, "a large offset");
            ensure!(match r { Ok(x) => ok && v < 1 << 32 && x == Some(v as u32), Err(_) => !ok || v >= 1 << 32 }, "six base-64 digits");
        } else {
            let (mut v, mut ok, mut i, mut end) = (0u32, true, 1, false);
            while i < 8 {
                let c = b[i];
                if c == 0 { end = true } else if !end { if c >= b'0' && c <= b'9' { v = v * 10 + (c - 48) as u32 } else { ok = false; end = true } }
                i += 1;
            }
            if b[1] == 0 { return }
            reach!(ok && v > 1000000, "seven digits");
            ensure!(match r { Ok(x) => ok && x == Some(v), Err(_) => !ok }, "decimal digits up to a zero byte");
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn coff_section_name() {
        section_name!(d, w, s, a, e);
        assume(s.name[0] != b'/');
        let r = s.name(StringTable::new(d, a, e));
        ensure!(s.name_offset() == Ok(None) && r.is_ok(), "an inline name can be read");
        inline(w, r.unwrap_or(&[]), &s.name);
        inline(w, s.raw_name(), &s.name);
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn coff_section_name_10() {
        section_name!(d, w, s, a, e);
        assume(s.name[0] == b'/' && s.name[1] != b'/');
        section_name_at!(d, w, s, a, e);
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn coff_section_name_64() {
        section_name!(d, w, s, a, e);
        assume(s.name[0] == b'/' && s.name[1] == b'/');
        section_name_at!(d, w, s, a, e);
    }
    /// Alignment, bytes and relocations of a section of an object.
    fn coff_section() {
        let d = any_bytes::<128>();
        let s = any_pod!(pe::ImageSectionHeader);
        let b = bytes_of(&s);
        let flags = le32(b, 36);
        let a = flags >> 20 & 15;
        ensure!(s.coff_alignment() == if a >= 1 && a <= 14 { 1 << (a - 1) } else { 16 }, "the alignment");
        let range = if flags & 0x80 != 0 { None } else { Some((le32(b, 20), le32(b, 16))) };
        ensure!(s.coff_file_range() == range, "the range");
        match s.coff_data(d) {
            Ok(x) => { reach!(x.len() > 20, "bytes"); ensure!(match range { None => x.is_empty(), Some((o, n)) => is_read(x, d, o as u64, n as u64) }, "its bytes") }
            Err(_) => ensure!(matches!(range, Some((o, n)) if o as u64 + n as u64 > d.len() as u64), "bytes in the file can be read"),
        }
    }
    fn coff_section_relocations() {
        let d = any_bytes::<128>();
        let s = any_pod!(pe::ImageSectionHeader);
        let b = bytes_of(&s);
        let (p, n, flags) = (le32(b, 24) as u64, le16(b, 32) as u64, le32(b, 36));
        let r = s.coff_relocations(d);
        let over = n == 0xffff && flags & 0x0100_0000 != 0;
        let (first, count) = if over {
            // the first relocation holds the count, itself included
            if p + 10 > d.len() as u64 { ensure!(r.is_err(), "no count"); return }
            let c = le32(d, p as usize) as u64;
            if c == 0 { ensure!(r.is_err(), "no count"); return }
            (p + 10, c - 1)
        } else { (p, n) };
        match r {
            Ok(r) => { reach!(over && r.len() > 3, "more relocations than the header can count"); ensure!(r.len() as u64 == count && is_read(bytes_of_slice(r), d, first, count * 10), "as many relocations as declared") }
            Err(_) => ensure!(first + count * 10 > d.len() as u64, "relocations in the file can be read"),
        }
    }
    /// The same for XCOFF.
    fn xcoff_symbol_fields() { xfields!(xcoff::Symbol32, |b: &[u8]| be32(b, 8) as u64, 12, off32) }
    fn xcoff_symbol_fields_wide() { xfields!(xcoff::Symbol64, |b: &[u8]| be64(b, 0), 12, |b: &[u8]| Some(be32(b, 8))) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn xcoff_symbol_name() {
        let (d, w) = (any_bytes::<64>(), witness());
        let (a, e): (u64, u64) = (any(), any());
        let s: &'static xcoff::Symbol32 = Box::leak(Box::new(any_pod!(xcoff::Symbol32)));
        xname!(w, &s.n_name, s.name(StringTable::new(d, a, e)), d, a, e);
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn xcoff_symbol_name_wide() {
        let (d, w) = (any_bytes::<64>(), witness());
        let (a, e): (u64, u64) = (any(), any());
        let s: &'static xcoff::Symbol64 = Box::leak(Box::new(any_pod!(xcoff::Symbol64)));
        string_at(w, s.name(StringTable::new(d, a, e)).ok(), d, a as u128 + be32(bytes_of(s), 8) as u128, e);
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn xcoff_file_name() {
        let (d, w) = (any_bytes::<64>(), witness());
        let (a, e): (u64, u64) = (any(), any());
        let s: &'static xcoff::FileAux32 = Box::leak(Box::new(any_pod!(xcoff::FileAux32)));
        let b = bytes_of(s);
        ensure!(b.len() == 18 && s.x_ftype().0 == b[14] && s.x_auxtype().is_none(), "the fields of the entry");
        xname!(w, s.x_fname(), s.fname(StringTable::new(d, a, e)), d, a, e);
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn xcoff_file_name_wide() {
        let (d, w) = (any_bytes::<64>(), witness());
        let (a, e): (u64, u64) = (any(), any());
        let s: &'static xcoff::FileAux64 = Box::leak(Box::new(any_pod!(xcoff::FileAux64)));
        let b = bytes_of(s);
        ensure!(b.len() == 18 && s.x_ftype().0 == b[14] && s.x_auxtype().map(|x| x.0) == Some(b[17]), "the fields of the entry");
        xname!(w, s.x_fname(), s.fname(StringTable::new(d, a, e)), d, a, e);
    }
    fn xcoff_csect() {
        let s = any_pod!(xcoff::CsectAux32);
        let b = bytes_of(&s);
        ensure!(b.len() == 18 && s.x_scnlen() == be32(b, 0) as u64 && s.x_parmhash() == be32(b, 4) && s.x_snhash() == be16(b, 8) && s.x_smtyp().0 == b[10] && s.x_smclas().0 == b[11] && s.x_stab() == Some(be32(b, 12)) && s.x_snstab() == Some(be16(b, 16)) && s.x_auxtype().is_none(), "the fields of the entry");
        ensure!(s.sym_type().0 == b[10] % 8 && s.alignment() == b[10] / 8, "type and alignment");
        let s = any_pod!(xcoff::CsectAux64);
        let b = bytes_of(&s);
        ensure!(b.len() == 18 && s.x_scnlen() == (be32(b, 12) as u64) << 32 | be32(b, 0) as u64 && s.x_parmhash() == be32(b, 4) && s.x_snhash() == be16(b, 8) && s.x_smtyp().0 == b[10] && s.x_smclas().0 == b[11] && s.x_stab().is_none() && s.x_snstab().is_none() && s.x_auxtype().map(|x| x.0) == Some(b[17]), "the fields of the entry");
        ensure!(s.sym_type().0 == b[10] % 8 && s.alignment() == b[10] / 8, "type and alignment");
    }
    fn xcoff_table() { xtable!(xcoff::FileHeader32, xcoff::Symbol32) }
    fn xcoff_table_wide() { xtable!(xcoff::FileHeader64, xcoff::Symbol64) }
    fn xcoff_section() { xsection!(xcoff::SectionHeader32, 4) }
    fn xcoff_section_wide() { xsection!(xcoff::SectionHeader64, 8) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn xcoff_section_name() {
        let w = witness();
        let s = any_pod!(xcoff::SectionHeader32);
        inline(w, s.name(), &bytes_of(&s)[..8]);
        let s = any_pod!(xcoff::SectionHeader64);
        inline(w, s.name(), &bytes_of(&s)[..8]);
    }
    /// Section headers by index, from one.
    fn xcoff_sections() {
        let d = any_bytes::<512>();
        let h = any_pod!(xcoff::FileHeader64);
        let mut o: u64 = any();
        let (p, n) = (o, be16(bytes_of(&h), 2) as usize);
        match h.sections(d, &mut o) {
            Ok(t) => {
                ensure!(t.len() == n, "as many as declared");
                let i: usize = any();
                match t.section(SectionIndex(i)) {
                    Ok(s) => { reach!(i > 3, "a section"); ensure!(i >= 1 && i <= n && is_at(bytes_of(s), d, p as usize + (i - 1) * 72, 72), "the header with that index") }
                    Err(_) => ensure!(i == 0 || i > n, "every header can be read"),
                }
            }
            Err(_) => ensure!(p as u128 + 72 * n as u128 > d.len() as u128, "headers in the file are accepted"),
        }
    }
}
natives! {
    /// Random objects: every record of the symbol table and every section as the unified API reports them.
    fn exact() { low::exact() }
}
#[cfg(not(kani))]
mod low {
    use super::*;
    use crate::craft::*;
    use crate::fuzz::*;
    use object::read::xcoff::XcoffFile;
    use object::read::coff::{CoffBigFile, CoffFile};
    use object::read::{Object, ObjectSection, ObjectSymbol, Relocation, RelocationTarget, SymbolKind, SymbolScope, SymbolSection, SymbolFlags};
    use object::SectionFlags;
    struct Rel { at: u64, sym: u32, typ: u16 }
    struct Sec { name: Vec<u8>, va: u64, data: Option<Vec<u8>>, size: u64, flags: u32, rels: Vec<Rel> }
    /// A symbol: its index, the fields of its record, and its auxiliary entries.
    struct Sym { index: usize, name: Vec<u8>, value: u64, sec: i32, typ: u16, class: u8, aux: Vec<Vec<u8>> }
    fn word(max: u64) -> Vec<u8> { (0..1 + uni(max)).map(|_| 1 + uni(255) as u8).collect() }
    fn ascii(max: u64) -> Vec<u8> { (0..1 + uni(max)).map(|_| b'a' + uni(26) as u8).collect() }
    fn text(max: u64) -> Vec<u8> { if uni(4) == 0 { word(max) } else { ascii(max) } }
    /// The offset of the string in the table, from the length word.
    fn intern(t: &mut Vec<u8>, s: &[u8]) -> u32 { let at = t.len() as u32 + 4; t.extend_from_slice(s); t.push(0); at }
    fn num(n: usize, wide: bool) -> i32 {
        match uni(8) { 0 => 0, 1 => -1, 2 => -2, 3 => -(uni(200) as i32), 4 => if wide { uni(0x8000_0000) as i32 } else { uni(0x7fff) as i32 }, 5 => n as i32, _ => 1 + uni(n as u64) as i32 }
    }
    fn blob(n: usize) -> Vec<u8> { (0..n).map(|_| if uni(3) == 0 { 0 } else { uni(256) as u8 }).collect() }

    // ---- COFF ----
    fn base64(mut n: u32) -> [u8; 6] {
        let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        let mut o = [0; 6];
        for c in o.iter_mut().rev() { *c = t[(n & 63) as usize]; n >>= 6; }
        o
    }
    fn coff_object(big: bool) {
        let z = if big { 20 } else { 18 };
        let mut strings = vec![];
        let mut secs: Vec<Sec> = vec![];
        let (mut cs, mut body) = (vec![], vec![]);
        let n = uni(4) as usize;
        let h = coff_hdr_len(n, big);
        let nsyms_hint = 1 + uni(8) as usize;
        for _ in 0..n {
            let (name, field) = if uni(2) == 0 {
                let mut name = text(8);
                if name[0] == b'/' { name[0] = b'.' }
                let mut f = name.clone(); f.resize(8, 0);
                (name, f)
            } else {
                if uni(6) == 0 { strings.resize(strings.len() + uni(12000) as usize, b'x'); strings.push(0); }
                let name = text(20);
                let at = intern(&mut strings, &name);
                let f = if uni(2) == 0 { format!("/{at}").into_bytes() } else { let mut f = b"//".to_vec(); f.extend_from_slice(&base64(at)); f };
                let mut f = f; f.resize(8, 0);
                (name, f)
            };
            let bss = uni(4) == 0;
            let data = blob(uni(12) as usize);
            let off = h + body.len();
            if !bss { body.extend_from_slice(&data); }
            let rels: Vec<Rel> = (0..uni(4)).map(|_| Rel { at: uni(1 << 32), sym: uni(1 << 32) as u32, typ: uni(1 << 16) as u16 }).collect();
            let over = uni(4) == 0;
            let reloff = h + body.len();
            let mut w = W::new(false, false);
            if over { w.u32(rels.len() as u32 + 1).u32(uni(99) as u32).u16(0); }
            for r in &rels { w.u32(r.at as u32).u32(r.sym).u16(r.typ); }
            body.extend_from_slice(&w.b);
            let flags = (uni(1 << 32) as u32 & !0x0100_0080) | if bss { 0x80 } else { 0 } | if over { 0x0100_0000 } else { 0 };
            let va = if uni(3) == 0 { uni(1 << 32) as u32 } else { 0 };
            let mut nm = [0; 8]; nm.copy_from_slice(&field);
            cs.push(Cs { name: nm, vsize: uni(99) as u32, va, rsize: data.len() as u32, roff: if bss { 0 } else { off as u32 }, reloff: if rels.is_empty() && !over { 0 } else { reloff as u32 }, lnoff: 0, nrel: if over { 0xffff } else { rels.len() as u16 }, nln: 0, flags });
            secs.push(Sec { name, va: va as u64, size: data.len() as u64, data: if bss { None } else { Some(data) }, flags, rels });
        }
        let mut w = W::new(false, false);
        let mut syms: Vec<Sym> = vec![];
        let mut index = 0;
        for _ in 0..nsyms_hint {
            let class = match uni(8) { 0 => uni(256) as u8, 1 => 103, 2 => 3, 3 => 2, 4 => 105, 5 => 104, 6 => 6, _ => 3 };
            let typ = match uni(3) { 0 => 0, 1 => 0x20, _ => uni(1 << 16) as u16 };
            let k = match uni(3) { 0 => 0, 1 => 1, _ => uni(4) } as usize;
            let (mut name, mut field);
            if uni(2) == 0 { name = text(8); field = name.clone(); field.resize(8, 0); }
            else { name = text(30); let at = intern(&mut strings, &name); field = vec![0; 4]; field.extend_from_slice(&at.to_le_bytes()); }
            let mut aux: Vec<Vec<u8>> = (0..k).map(|_| blob(z)).collect();
            if class == 103 && k > 0 {
                name = text((k * z) as u64);
                let mut all = name.clone();
                all.resize(k * z, 0);
                // whatever follows the zero byte does not count
                let n = name.len();
                if n + 2 < all.len() && uni(2) == 0 { for c in &mut all[n + 1..] { *c = uni(256) as u8; } }
                aux = all.chunks(z).map(|c| c.to_vec()).collect();
            }
            let (value, sec) = (if uni(3) == 0 { 0 } else { uni(1 << 32) }, num(n, big));
            w.bytes(&field).u32(value as u32);
            if big { w.u32(sec as u32); } else { w.u16(sec as u16); }
            w.u16(typ).u8(class).u8(k as u8);
            for a in &aux { w.bytes(a); }
            syms.push(Sym { index, name, value, sec, typ, class, aux });
            index += 1 + k;
        }
        // a last symbol may claim more auxiliary records than there are
        let cut = uni(8) == 0 && syms.last().map_or(false, |s| s.aux.len() > 0 && s.class != 103);
        if cut { let s = syms.last_mut().unwrap(); let gone = 1 + uni(s.aux.len() as u64) as usize; w.b.truncate(w.b.len() - gone * z); index -= gone; let keep = s.aux.len() - gone; s.aux.truncate(keep); for _ in 0..gone { s.aux.push(vec![]); } }
        if strings.is_empty() && uni(2) == 0 { strings.push(0); }
        let d = settle(coff(0x8664, &cs, &body, index as u32, &w.b, &strings, big));
        if big {
            match CoffBigFile::parse(d) { Ok(f) => coff_check(&f, &secs, &syms, index, true), Err(_) => ensure!(false, "a well-formed object is accepted") }
        } else {
            match CoffFile::<&[u8]>::parse(d) { Ok(f) => coff_check(&f, &secs, &syms, index, false), Err(_) => ensure!(false, "a well-formed object is accepted") }
        }
    }
    fn coff_check<H: CoffHeader>(f: &CoffFile<'static, &'static [u8], H>, secs: &[Sec], syms: &[Sym], total: usize, big: bool) {
        let mut count = 0;
        for (i, s) in f.sections().enumerate() {
            ensure!(i < secs.len() && s.index() == SectionIndex(i + 1), "sections count from one");
            let x = &secs[i];
            ensure!(s.name_bytes() == Ok(&x.name[..]), "the name of a section");
            ensure!(s.name().is_ok() == core::str::from_utf8(&x.name).is_ok(), "the name as text");
            ensure!(s.address() == x.va && s.size() == x.size, "address and size");
            ensure!(s.data() == Ok(x.data.as_deref().unwrap_or(&[])), "the bytes of a section");
            ensure!(s.flags() == SectionFlags::Coff { characteristics: pe::SectionFlags(x.flags) }, "the flags");
            let r = s.coff_relocations().ok();
            ensure!(matches!(r, Some(r) if r.len() == x.rels.len() && r.iter().zip(&x.rels).all(|(a, b)| a.virtual_address.get(LE) as u64 == b.at && a.symbol_table_index.get(LE) == b.sym && a.typ.get(LE).0 == b.typ)), "the relocations of a section");
            ensure!(s.relocations().count() == x.rels.len(), "all relocations");
            ensure!(f.section_by_index(SectionIndex(i + 1)).ok().map(|y| y.index()) == Some(s.index()), "the section with that index");
            let first = secs.iter().position(|y| y.name == x.name).map(|k| SectionIndex(k + 1));
            ensure!(f.section_by_name_bytes(&x.name).map(|y| y.index()) == first, "the section with that name");
            count += 1;
        }
        ensure!(count == secs.len() && f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(count + 1)).is_err(), "all sections and no other");
        let mut it = f.symbols();
        for x in syms {
            let Some(s) = it.next() else { ensure!(false, "every symbol is found"); return };
            ensure!(s.index() == SymbolIndex(x.index), "iteration steps over the auxiliary records");
            let there = x.aux.iter().all(|a| !a.is_empty());
            let a0 = x.aux.first().filter(|a| !a.is_empty());
            let has = !x.aux.is_empty();
            let name = s.name_bytes();
            if x.class == 103 && has { ensure!(name == Ok(&x.name[..]) || !there, "the name of a file") } else { ensure!(name == Ok(&x.name[..]), "the name of a symbol") }
            if there { ensure!(s.name().is_ok() == core::str::from_utf8(&x.name).is_ok(), "the name as text"); }
            let func = x.typ & 0x30 == 0x20;
            let section = x.class == 3 && x.typ == 0 && has;
            let size = match x.class {
                3 if section => a0.map_or(0, |a| le32(a, 0) as u64),
                2 if x.sec == 0 => x.value,
                2 if func && has => a0.map_or(0, |a| le32(a, 4) as u64),
                _ => 0,
            };
            ensure!(s.size() == size, "the size of a symbol");
            let plain = if func { SymbolKind::Text } else { SymbolKind::Data };
            let kind = match x.class { 3 => if section { SymbolKind::Section } else { plain }, 2 | 105 => plain, 104 => SymbolKind::Section, 103 => SymbolKind::File, 6 => SymbolKind::Label, _ => SymbolKind::Unknown };
            ensure!(s.kind() == kind, "the kind of a symbol");
            let address = if matches!(x.class, 2 | 3 | 6 | 105) && x.sec > 0 && x.sec as usize <= secs.len() { x.value + secs[x.sec as usize - 1].va } else { 0 };
            ensure!(s.address() == address, "the address of a symbol");
            let sec = match x.sec {
                0 => match x.class { 2 => if x.value == 0 { SymbolSection::Undefined } else { SymbolSection::Common }, 104 => SymbolSection::Undefined, _ => SymbolSection::Unknown },
                -1 => SymbolSection::Absolute,
                -2 => if x.class == 103 { SymbolSection::None } else { SymbolSection::Unknown },
                k => if k > 0 { SymbolSection::Section(SectionIndex(k as usize)) } else { SymbolSection::Unknown },
            };
            ensure!(s.section() == sec, "the section of a symbol");
            ensure!(s.is_undefined() == (x.class == 2 && x.sec == 0 && x.value == 0) && s.is_common() == (x.class == 2 && x.sec == 0 && x.value != 0), "undefined and common symbols");
            ensure!(s.is_definition() == (x.sec > 0 && (x.class == 2 || x.class == 105 || (x.class == 3 && !section))), "definitions");
            let global = x.class == 2 || x.class == 105;
            ensure!(s.is_weak() == (x.class == 105) && s.is_global() == global && s.is_local() == !global, "the binding");
            ensure!(s.scope() == if global { SymbolScope::Linkage } else { SymbolScope::Compilation }, "the scope");
            let flags = match a0.filter(|_| section) {
                Some(a) => {
                    let n = le16(a, 12) as usize | if big { (le16(a, 16) as usize) << 16 } else { 0 };
                    SymbolFlags::CoffSection { typ: pe::SymbolType(x.typ), storage_class: pe::SymbolClass(x.class), selection: pe::ComdatSelection(a[14]), associative_section: if n == 0 { None } else { Some(SectionIndex(n)) } }
                }
                None => SymbolFlags::Coff { typ: pe::SymbolType(x.typ), storage_class: pe::SymbolClass(x.class) },
            };
            ensure!(s.flags() == flags, "the flags of a symbol");
            let y = f.symbol_by_index(s.index()).ok();
            ensure!(y.map(|y| (y.index(), y.address(), y.kind())) == Some((s.index(), s.address(), s.kind())), "the symbol with that index");
        }
        ensure!(it.next().is_none() && f.symbol_by_index(SymbolIndex(total)).is_err(), "no other symbol");
    }

    // ---- XCOFF ----
    fn xcoff_object(wide: bool) {
        let mut strings = vec![];
        let mut secs: Vec<Sec> = vec![];
        let (mut xs, mut body) = (vec![], vec![]);
        let n = uni(4) as usize;
        let h = xcoff_hdr_len(wide, n);
        for _ in 0..n {
            let name = text(8);
            let mut nm = [0; 8]; nm[..name.len()].copy_from_slice(&name);
            let flags = match uni(8) { 0 => 0x80, 1 => 0x800, 2 => 0x8, 3 => 0x10_0010, 4 => 0x20, 5 => 0x40, 6 => 0x1000, _ => 0x400 };
            let zeros = flags & 0x880 != 0;
            let data = blob(uni(12) as usize);
            let off = h + body.len();
            if !zeros { body.extend_from_slice(&data); }
            let rels: Vec<Rel> = (0..uni(4)).map(|_| Rel { at: if wide { uni(u64::MAX) } else { uni(1 << 32) }, sym: uni(1 << 32) as u32, typ: uni(1 << 16) as u16 }).collect();
            let reloff = h + body.len();
            let mut w = W::new(true, wide);
            for r in &rels { w.word(r.at).u32(r.sym).u16(r.typ); }
            body.extend_from_slice(&w.b);
            let va = if wide { uni(u64::MAX) } else { uni(1 << 32) };
            xs.push(Xs { name: nm, paddr: va, vaddr: va, size: data.len() as u64, off: off as u64, reloff: reloff as u64, lnoff: 0, nrel: rels.len() as u32, nln: uni(99) as u32, flags });
            secs.push(Sec { name, va, size: data.len() as u64, data: if zeros { None } else { Some(data) }, flags, rels });
        }
        let mut w = W::new(true, wide);
        let mut syms: Vec<Sym> = vec![];
        let mut index = 0;
        for _ in 0..1 + uni(8) {
            let class = match uni(9) { 0 => uni(256) as u8, 1 => 103, 2 | 3 => 2, 4 => 111, 5 | 6 => 107, 7 => 0, _ => 3 };
            let k = match uni(3) { 0 => 0, 1 => 1, _ => uni(4) } as usize;
            let mut aux: Vec<Vec<u8>> = (0..k).map(|_| blob(18)).collect();
            let field = |strings: &mut Vec<u8>, inline: u64, always: bool| -> (Vec<u8>, Vec<u8>) {
                if !always && uni(2) == 0 { let name = text(inline); let mut f = name.clone(); f.resize(inline as usize, 0); (name, f) }
                else { let name = text(30); let at = intern(strings, &name); let mut f = vec![0; 4]; f.extend_from_slice(&at.to_be_bytes()); f.resize(inline as usize, 0); (name, f) }
            };
            let (mut name, f) = field(&mut strings, 8, wide);
            if class == 103 && k > 0 {
                let (x, f) = field(&mut strings, 8, false);
                name = x;
                let mut a = f; a.resize(14, 0); a.push(uni(256) as u8); a.extend_from_slice(&[0, 0, if wide { 252 } else { uni(256) as u8 }]);
                aux[0] = a;
            } else if matches!(class, 2 | 107 | 111) && k > 0 {
                let a = aux.last_mut().unwrap();
                a[10] = match uni(3) { 0 => uni(256) as u8, _ => (uni(4) | uni(32) << 3) as u8 };
                a[11] = uni(24) as u8;
                if wide { a[17] = if uni(5) == 0 { uni(256) as u8 } else { 251 }; }
            }
            let (value, sec, typ) = (if wide { uni(u64::MAX) } else { uni(1 << 32) }, num(n, false), if uni(2) == 0 { uni(1 << 16) as u16 } else { (uni(8) << 12) as u16 });
            if wide { w.u64(value).bytes(&f[4..]); } else { w.bytes(&f).u32(value as u32); }
            w.u16(sec as u16).u16(typ).u8(class).u8(k as u8);
            for a in &aux { w.bytes(a); }
            // null symbols are not reported
            if class != 0 { syms.push(Sym { index, name, value, sec: sec as i16 as i32, typ, class, aux }); }
            index += 1 + k;
        }
        let d = settle(xcoff(wide, &xs, &body, index as u32, &w.b, &strings));
        if wide {
            match XcoffFile::<object::xcoff::FileHeader64, &[u8]>::parse(d) { Ok(f) => xcoff_check(&f, &secs, &syms, index, true), Err(_) => ensure!(false, "a well-formed object is accepted") }
        } else {
            match XcoffFile::<object::xcoff::FileHeader32, &[u8]>::parse(d) { Ok(f) => xcoff_check(&f, &secs, &syms, index, false), Err(_) => ensure!(false, "a well-formed object is accepted") }
        }
    }
    fn xcoff_check<H: object::read::xcoff::FileHeader>(f: &XcoffFile<'static, H, &'static [u8]>, secs: &[Sec], syms: &[Sym], total: usize, wide: bool) {
        let mut count = 0;
        for (i, s) in f.sections().enumerate() {
            ensure!(i < secs.len() && s.index() == SectionIndex(i + 1), "sections count from one");
            let x = &secs[i];
            ensure!(s.name_bytes() == Ok(&x.name[..]) && s.address() == x.va && s.size() == x.size, "name, address and size");
            ensure!(s.data() == Ok(x.data.as_deref().unwrap_or(&[])), "the bytes of a section");
            ensure!(s.flags() == SectionFlags::Xcoff { s_flags: object::xcoff::SectionFlags(x.flags) }, "the flags");
            let rs: Vec<(u64, Relocation)> = s.relocations().collect();
            ensure!(rs.len() == x.rels.len() && rs.iter().zip(&x.rels).all(|(a, b)| a.0 == b.at && a.1.target() == RelocationTarget::Symbol(SymbolIndex(b.sym as usize)) && a.1.flags() == object::RelocationFlags::Xcoff { r_rtype: object::xcoff::RelocationType(b.typ as u8), r_rsize: (b.typ >> 8) as u8 }), "the relocations of a section");
            ensure!(f.section_by_index(SectionIndex(i + 1)).ok().map(|y| y.index()) == Some(s.index()), "the section with that index");
            let first = secs.iter().position(|y| y.name == x.name).map(|k| SectionIndex(k + 1));
            ensure!(f.section_by_name_bytes(&x.name).map(|y| y.index()) == first, "the section with that name");
            count += 1;
        }
        ensure!(count == secs.len() && f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(count + 1)).is_err(), "all sections and no other");
        let mut it = f.symbols();
        for x in syms {
            let Some(s) = it.next() else { ensure!(false, "every symbol is found"); return };
            ensure!(s.index() == SymbolIndex(x.index), "iteration steps over auxiliary entries and null symbols");
            ensure!(s.name_bytes() == Ok(&x.name[..]), "the name of a symbol");
            ensure!(s.name().is_ok() == core::str::from_utf8(&x.name).is_ok(), "the name as text");
            let cs = x.aux.last().filter(|a| matches!(x.class, 2 | 107 | 111) && (!wide || a[17] == 251));
            let t = cs.map(|a| a[10] & 7);
            let len = cs.map_or(0, |a| if wide { (be32(a, 12) as u64) << 32 | be32(a, 0) as u64 } else { be32(a, 0) as u64 });
            ensure!(s.size() == if matches!(t, Some(1 | 3)) { len } else { 0 }, "the size of a csect");
            let kind = match t {
                Some(1 | 3) => match cs.unwrap()[11] { 0 | 6 => SymbolKind::Text, 1 | 5 | 16 | 9 | 10 | 15 | 3 => SymbolKind::Data, 20 | 21 => SymbolKind::Tls, _ => SymbolKind::Unknown },
                Some(2) => SymbolKind::Text,
                _ => if x.class == 103 { SymbolKind::File } else { SymbolKind::Unknown },
            };
            ensure!(s.kind() == kind, "the kind of a symbol");
            ensure!(s.address() == if matches!(x.class, 2 | 111 | 107 | 101 | 100 | 3 | 110) { x.value } else { 0 }, "the address of a symbol");
            let sec = match x.sec { 0 => SymbolSection::Undefined, -1 => SymbolSection::Absolute, -2 => SymbolSection::None, k => if k > 0 { SymbolSection::Section(SectionIndex(k as usize)) } else { SymbolSection::Unknown } };
            ensure!(s.section() == sec, "the section of a symbol");
            let global = x.class == 2 || x.class == 111;
            ensure!(s.is_undefined() == (global && x.sec == 0) && s.is_weak() == (x.class == 111) && s.is_global() == global && s.is_local() == !global, "the binding");
            ensure!(s.is_definition() == (x.sec > 0 && matches!(t, Some(1 | 2 | 3))), "definitions");
            ensure!(s.scope() == if x.sec == 0 { SymbolScope::Unknown } else if !global { SymbolScope::Compilation } else if x.typ & 0xf000 == 0x2000 { SymbolScope::Linkage } else { SymbolScope::Dynamic }, "the scope");
            let (y, c) = cs.map_or((0, 0), |a| (a[10], a[11]));
            ensure!(s.flags() == SymbolFlags::Xcoff { n_type: object::xcoff::SymbolType(x.typ), n_sclass: object::xcoff::SymbolClass(x.class), x_smtyp: object::xcoff::CsectAuxSmtyp(y), x_smclas: object::xcoff::CsectAuxClass(c), containing_csect: if t == Some(2) { Some(SymbolIndex(len as usize)) } else { None } }, "the flags of a symbol");
            let y = f.symbol_by_index(s.index()).ok();
            ensure!(y.map(|y| (y.index(), y.address(), y.kind())) == Some((s.index(), s.address(), s.kind())), "the symbol with that index");
        }
        ensure!(it.next().is_none() && f.symbol_by_index(SymbolIndex(total)).is_err(), "no other symbol");
    }
    pub fn exact() { match uni(4) { 0 => coff_object(false), 1 => coff_object(true), 2 => xcoff_object(false), _ => xcoff_object(true) } }
}
