//! PE: address mapping, and the exact content of the tables.
use crate::shim::*;
use ::memchr_dep as mc;
use object::pe;
use object::pod::{bytes_of, bytes_of_slice};
use object::read::coff::*;
use object::read::pe::*;
use object::{LittleEndian as LE, U16};

fn le16(d: &[u8], o: usize) -> u16 { d[o] as u16 | (d[o + 1] as u16) << 8 }
fn le32(d: &[u8], o: usize) -> u32 { le16(d, o) as u32 | (le16(d, o + 2) as u32) << 16 }
fn le64(d: &[u8], o: usize) -> u64 { le32(d, o) as u64 | (le32(d, o + 4) as u64) << 32 }
/// There are `n` bytes at `o`.
fn fits(d: &[u8], o: usize, n: usize) -> bool { o <= d.len() && n <= d.len() - o }

/// `r` is the string at `off` of `d`: up to the first zero byte, which must be there.
/// `w` was fixed as the witness for "no earlier zero byte".
macro_rules! string { ($r:expr, $d:expr, $off:expr, $w:expr, $what:literal) => {{
    let (o, w): (usize, usize) = ($off, $w);
    match $r {
        Ok(n) => {
            reach!(n.len() > 10 && o > 100, "a string");
            ensure!(o < $d.len() && n.len() < $d.len() - o && is_at(n, $d, o, n.len()) && $d[o + n.len()] == 0, $what);
            ensure!(w >= n.len() || n[w] != 0, $what);
        }
        Err(_) => ensure!(o > $d.len() || w >= $d.len() - o || $d[o + w] != 0, $what),
    }
}}}

/// A section header of any contents, and a table made of it.
fn one_section() -> (&'static [u8; 40], SectionTable<'static>) {
    let mut h = any_pod!(pe::ImageFileHeader);
    h.number_of_sections = U16::new(LE, 1);
    let b: &'static [u8; 40] = Box::leak(Box::new(any_array::<40>()));
    (b, SectionTable::parse(&h, &b[..], 0).unwrap())
}
fn two_sections() -> (&'static [u8; 80], SectionTable<'static>) {
    let mut h = any_pod!(pe::ImageFileHeader);
    h.number_of_sections = U16::new(LE, 2);
    let b: &'static [u8; 80] = Box::leak(Box::new(any_array::<80>()));
    (b, SectionTable::parse(&h, &b[..], 0).unwrap())
}
/// Where the format places an address: the file range from there to the end of the bytes that the
/// section header at `o` maps.
fn mapped(b: &[u8], o: usize, va: u32) -> Option<(u32, u32)> {
    let (vs, sva, rs, ptr) = (le32(b, o + 8), le32(b, o + 12), le32(b, o + 16), le32(b, o + 20));
    let size = if vs < rs { vs } else { rs };
    if va < sva || va - sva >= size { return None }
    let k = va - sva;
    if ptr > u32::MAX - k { return None }
    Some((ptr + k, size - k))
}
fn same(a: Option<&[u8]>, b: Option<&[u8]>) -> bool {
    match (a, b) { (Some(a), Some(b)) => a.as_ptr() == b.as_ptr() && a.len() == b.len(), (None, None) => true, _ => false }
}
macro_rules! layout { ($t:ty, $n:literal, $v:ident, $b:ident, $c:expr) => {{
    let $v = any_pod!($t);
    let $b = bytes_of(&$v);
    ensure!($b.len() == $n, "the size of the structure");
    ensure!($c, "the fields of the structure");
}} }

/// Where the descriptors start.
macro_rules! descriptors_at { ($table:ident, $size:literal) => {{
    let d = any_bytes::<256>();
    let (sva, ia): (u32, u32) = (any(), any());
    let o = ia.wrapping_sub(sva) as usize;
    match $table::new(d, sva, ia).descriptors() {
        Ok(mut it) => {
            ensure!(o <= d.len(), "descriptors start at the address of the table");
            match it.next() {
                Ok(Some(x)) => { reach!(o > 100, "a descriptor"); ensure!(is_at(bytes_of(x), d, o, $size), "descriptors start at the address of the table") }
                Ok(None) => ensure!(fits(d, o, $size) && le32(d, o) == 0, "only the null descriptor ends the table"),
                Err(_) => ensure!(!fits(d, o, $size), "a whole descriptor can be read"),
            }
        }
        Err(_) => ensure!(o > d.len(), "every address in the section can be a table"),
    }
}}}
/// The descriptors from an address on: the bytes there can be anything.
macro_rules! descriptors { ($table:ident, $size:literal) => {{
    let d = any_bytes::<256>();
    let sva: u32 = any();
    let null = |o: usize| le64(d, o) | le64(d, o + 8) | if $size == 32 { le64(d, o + 16) | le64(d, o + 24) } else { le32(d, o + 16) as u64 } == 0;
    let Ok(mut it) = $table::new(d, sva, sva).descriptors() else { ensure!(false, "the address of the table"); return };
    match it.next() {
        Ok(Some(x)) => {
            ensure!(is_at(bytes_of(x), d, 0, $size) && !null(0), "the null descriptor ends the table");
            match it.next() {
                Ok(Some(y)) => { reach!(d.len() > 100, "a descriptor"); ensure!(is_at(bytes_of(y), d, $size, $size) && !null($size), "descriptors follow each other") }
                Ok(None) => ensure!(fits(d, $size, $size) && null($size), "only the null descriptor ends the table"),
                Err(_) => ensure!(!fits(d, $size, $size), "a whole descriptor can be read"),
            }
        }
        Ok(None) => { ensure!(fits(d, 0, $size) && null(0), "only the null descriptor ends the table"); ensure!(matches!(it.next(), Ok(None)), "the null descriptor ends the table") }
        Err(_) => { ensure!(!fits(d, 0, $size), "a whole descriptor can be read"); ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error") }
    }
}}}
macro_rules! thunks { ($table:ident, $n:ty, $size:literal) => {{
    let d = any_bytes::<256>();
    let sva: u32 = any();
    let Ok(mut l) = $table::new(d, sva, any()).thunks(sva) else { ensure!(false, "the address of the list"); return };
    let raw = |i: usize| if $size == 8 { le64(d, 8 * i) } else { le32(d, 4 * i) as u64 };
    match l.next::<$n>() {
        Ok(Some(x)) => {
            ensure!(x.raw() == raw(0), "thunks in order");
            match l.next::<$n>() {
                Ok(Some(y)) => { reach!(d.len() > 100, "a thunk"); ensure!(y.raw() == raw(1) && raw(1) & 0x7fff_ffff != 0, "thunks in order") }
                Ok(None) => ensure!(raw(1) & 0x7fff_ffff == 0, "a null entry ends the list"),
                Err(_) => ensure!(!fits(d, $size, $size), "a whole thunk can be read"),
            }
        }
        Ok(None) => { ensure!(raw(0) & 0x7fff_ffff == 0, "a null entry ends the list"); ensure!(matches!(l.next::<$n>(), Ok(None)), "a null entry ends the list") }
        Err(_) => { ensure!(!fits(d, 0, $size), "a whole thunk can be read"); ensure!(matches!(l.next::<$n>(), Ok(None)), "iteration ends after an error") }
    }
}}}
macro_rules! thunk { ($table:ident, $n:ty, $size:literal) => {{
    let d = any_bytes::<256>();
    let sva: u32 = any();
    let t = $table::new(d, sva, any());
    let a: u32 = any();
    let o = a.wrapping_sub(sva) as usize;
    let r = t.thunks(a);
    ensure!(r.is_ok() == (o <= d.len()), "every address in the section can be a list");
    if let Ok(l) = r {
        let i: usize = any();
        match l.get::<$n>(i) {
            Ok(x) => { reach!(i > 100, "a thunk"); ensure!(i < (d.len() - o) / $size && x.raw() == if $size == 8 { le64(d, o + 8 * i) } else { le32(d, o + 4 * i) as u64 }, "the thunk of an index") }
            Err(_) => ensure!(i >= (d.len() - o) / $size, "every index of the table has a thunk"),
        }
    }
}}}
macro_rules! hint { ($table:ident) => {{
    let w = witness();
    let d = any_bytes::<256>();
    let sva: u32 = any();
    let t = $table::new(d, sva, any());
    let a: u32 = any();
    let o = a.wrapping_sub(sva) as usize;
    match t.hint_name(a) {
        Ok((h, n)) => {
            reach!(n.len() > 10 && o > 100, "a name");
            ensure!(fits(d, o, 2) && h == le16(d, o), "the hint");
            ensure!(n.len() > 0 && is_at(n, d, o + 2, n.len()) && n.len() < d.len() - o - 2 && d[o + 2 + n.len()] == 0, "the name after the hint");
            ensure!(w >= n.len() || n[w] != 0, "the name ends at the first zero byte");
        }
        Err(_) => ensure!(!fits(d, o, 2) || w >= d.len() - o - 2 || d[o + 2 + w] != 0 || d[o + 2] == 0, "every hint and name can be read"),
    }
}}}
macro_rules! dll_name { ($table:ident) => {{
    let w = witness();
    let d = any_bytes::<256>();
    let sva: u32 = any();
    let t = $table::new(d, sva, any());
    let a: u32 = any();
    string!(t.name(a), d, a.wrapping_sub(sva) as usize, w, "the name of a library is the string at its address")
}}}
macro_rules! import { ($table:ident, $n:ty, $pod:ty, $flag:literal) => {{
    let d = any_bytes::<256>();
    let sva: u32 = any();
    let t = $table::new(d, sva, any());
    let x = any_pod!($pod);
    ensure!(x.is_ordinal() == (x.raw() & $flag != 0) && x.ordinal() == x.raw() as u16 && x.address() == x.raw() as u32 & 0x7fff_ffff, "the fields of a thunk");
    match t.import::<$n>(x) {
        Ok(Import::Ordinal(o)) => { reach!(o > 100, "by ordinal"); ensure!(x.raw() & $flag != 0 && o == x.raw() as u16, "imports by ordinal") }
        Ok(Import::Name(h, n)) => {
            reach!(h > 100 && n.len() > 10, "by name");
            let o = (x.raw() as u32 & 0x7fff_ffff).wrapping_sub(sva) as usize;
            ensure!(x.raw() & $flag == 0 && h == le16(d, o) && is_at(n, d, o + 2, n.len()), "imports by name")
        }
        Err(_) => ensure!(x.raw() & $flag == 0, "every ordinal can be imported"),
    }
}}}

harnesses! {
    /// Where a section places an address, for every header and address.
    fn section_ranges() {
        let (b, t) = one_section();
        let s = t.section(object::SectionIndex(1)).unwrap();
        let (vs, sva, rs, ptr) = (le32(b, 8), le32(b, 12), le32(b, 16), le32(b, 20));
        ensure!(s.pe_address_range() == (sva, vs), "the address range of a section");
        ensure!(s.pe_file_range() == (ptr, vs.min(rs)), "the file range of a section");
        let a: u32 = any();
        reach!(matches!(s.pe_file_range_at(a), Some((o, n)) if o > 100 && n > 100), "an address in a section");
        ensure!(s.pe_file_range_at(a) == mapped(b, 0, a), "an address maps to the file bytes that the section places there");
        ensure!(s.contains_rva(a) == (a >= sva && a - sva < vs), "a section contains its addresses");
    }
    fn section_bytes() {
        let d = any_bytes::<512>();
        let (b, t) = one_section();
        let s = t.section(object::SectionIndex(1)).unwrap();
        let (vs, sva, rs, ptr) = (le32(b, 8), le32(b, 12), le32(b, 16), le32(b, 20));
        let size = vs.min(rs);
        match s.pe_data(d) {
            Ok(x) => { reach!(x.len() > 100, "bytes"); ensure!(x.len() == size as usize && (size == 0 || is_at(x, d, ptr as usize, size as usize)), "the bytes of a section") }
            Err(_) => ensure!(!fits(d, ptr as usize, size as usize), "the bytes of a section can be read"),
        }
    }
    fn section_at() {
        let d = any_bytes::<512>();
        let (b, t) = one_section();
        let s = t.section(object::SectionIndex(1)).unwrap();
        let a: u32 = any();
        match s.pe_data_at(d, a) {
            Some(x) => { reach!(x.len() > 100, "bytes at an address"); ensure!(matches!(mapped(b, 0, a), Some((o, n)) if is_at(x, d, o as usize, n as usize)), "the bytes at an address") }
            None => ensure!(match mapped(b, 0, a) { Some((o, n)) => !fits(d, o as usize, n as usize), None => true }, "the bytes at an address can be read"),
        }
    }
    fn section_containing() {
        let d = any_bytes::<512>();
        let (b, t) = one_section();
        let s = t.section(object::SectionIndex(1)).unwrap();
        let (vs, sva, rs, ptr) = (le32(b, 8), le32(b, 12), le32(b, 16), le32(b, 20));
        let size = vs.min(rs);
        let a: u32 = any();
        match s.pe_data_containing(d, a) {
            Some((x, v)) => { reach!(x.len() > 100, "the section of an address"); ensure!(v == sva && a >= sva && a - sva < size && is_at(x, d, ptr as usize, size as usize), "the section of an address") }
            None => ensure!(a < sva || a - sva >= size || !fits(d, ptr as usize, size as usize), "the section of an address can be read"),
        }
    }
    /// The first section wins.  Two sections.
    [kani::unwind(4)]
    fn b_section_table() {
        let d = any_bytes::<512>();
        let (_, t) = two_sections();
        let (s, u) = (t.section(object::SectionIndex(1)).unwrap(), t.section(object::SectionIndex(2)).unwrap());
        let a: u32 = any();
        reach!(s.pe_file_range_at(a).is_none() && u.pe_file_range_at(a).is_some(), "the second section");
        ensure!(t.pe_file_range_at(a) == if s.pe_file_range_at(a).is_some() { s.pe_file_range_at(a) } else { u.pe_file_range_at(a) }, "the first section with the address");
        ensure!(same(t.pe_data_at(d, a), if s.pe_data_at(d, a).is_some() { s.pe_data_at(d, a) } else { u.pe_data_at(d, a) }), "the bytes at an address");
        match t.section_containing(a) {
            Some(x) => ensure!(x.contains_rva(a) && (core::ptr::eq(x, s) || core::ptr::eq(x, u) && !s.contains_rva(a)), "the first section with the address"),
            None => ensure!(!s.contains_rva(a) && !u.contains_rva(a), "a section with the address"),
        }
    }
    [kani::unwind(4)]
    fn b_section_table_data() {
        let d = any_bytes::<512>();
        let (_, t) = two_sections();
        let (s, u) = (t.section(object::SectionIndex(1)).unwrap(), t.section(object::SectionIndex(2)).unwrap());
        let a: u32 = any();
        let (x, y) = (t.pe_data_containing(d, a), if s.pe_data_containing(d, a).is_some() { s.pe_data_containing(d, a) } else { u.pe_data_containing(d, a) });
        ensure!(x.map(|x| x.1) == y.map(|x| x.1) && same(x.map(|x| x.0), y.map(|x| x.0)), "the section of an address");
    }
    fn directories() {
        let d = any_bytes::<512>();
        let n: u32 = any();
        match DataDirectories::parse(d, n) {
            Ok(t) => {
                reach!(n > 20, "directories");
                ensure!(t.len() == n as usize && n as usize <= d.len() / 8, "as many directories as declared");
                ensure!(t.iter().as_slice().as_ptr() as usize == d.as_ptr() as usize || n == 0, "the directories are at the start");
                let i: usize = any();
                match t.get(i) {
                    Some(x) => ensure!(i < n as usize && is_at(bytes_of(x), d, 8 * i, 8) && le32(d, 8 * i) != 0, "the directory of an index"),
                    None => ensure!(i >= n as usize || le32(d, 8 * i) == 0, "every present directory"),
                }
            }
            Err(_) => ensure!(n as usize > d.len() / 8, "all directories can be read"),
        }
    }
    [kani::unwind(3)]
    fn directory_data() {
        let d = any_bytes::<512>();
        let (_, t) = one_section();
        let s = t.section(object::SectionIndex(1)).unwrap();
        let x = any_pod!(pe::ImageDataDirectory);
        let (va, size) = (le32(bytes_of(&x), 0), le32(bytes_of(&x), 4));
        ensure!(x.address_range() == (va, size), "the address range of a directory");
        match x.file_range(&t) {
            Ok((o, n)) => { reach!(n > 100, "a file range"); ensure!(n == size && matches!(s.pe_file_range_at(va), Some((p, m)) if p == o && n <= m), "the file range of a directory") }
            Err(_) => ensure!(match s.pe_file_range_at(va) { Some((_, m)) => size > m, None => true }, "a directory in a section has a file range"),
        }
        match x.data(d, &t) {
            Ok(b) => { reach!(b.len() > 100, "bytes"); ensure!(matches!(s.pe_data_at(d, va), Some(c) if b.as_ptr() == c.as_ptr() && b.len() == size as usize && size as usize <= c.len()), "the bytes of a directory") }
            Err(_) => ensure!(match s.pe_data_at(d, va) { Some(c) => size as usize > c.len(), None => true }, "the bytes of a directory can be read"),
        }
    }
    fn layouts() {
        layout!(pe::ImageDataDirectory, 8, x, b, le32(b, 0) == x.virtual_address.get(LE) && le32(b, 4) == x.size.get(LE));
        layout!(pe::ImageBaseRelocation, 8, x, b, le32(b, 0) == x.virtual_address.get(LE) && le32(b, 4) == x.size_of_block.get(LE));
        layout!(pe::ImageImportDescriptor, 20, x, b, le32(b, 0) == x.original_first_thunk.get(LE) && le32(b, 4) == x.time_date_stamp.get(LE) && le32(b, 8) == x.forwarder_chain.get(LE) && le32(b, 12) == x.name.get(LE) && le32(b, 16) == x.first_thunk.get(LE));
        layout!(pe::ImageDelayloadDescriptor, 32, x, b, le32(b, 0) == x.attributes.get(LE) && le32(b, 4) == x.dll_name_rva.get(LE) && le32(b, 8) == x.module_handle_rva.get(LE) && le32(b, 12) == x.import_address_table_rva.get(LE)
            && le32(b, 16) == x.import_name_table_rva.get(LE) && le32(b, 20) == x.bound_import_address_table_rva.get(LE) && le32(b, 24) == x.unload_information_table_rva.get(LE) && le32(b, 28) == x.time_date_stamp.get(LE));
        layout!(pe::ImageExportDirectory, 40, x, b, le32(b, 0) == x.characteristics.get(LE) && le32(b, 4) == x.time_date_stamp.get(LE) && le16(b, 8) == x.major_version.get(LE) && le16(b, 10) == x.minor_version.get(LE)
            && le32(b, 12) == x.name.get(LE) && le32(b, 16) == x.base.get(LE) && le32(b, 20) == x.number_of_functions.get(LE) && le32(b, 24) == x.number_of_names.get(LE) && le32(b, 28) == x.address_of_functions.get(LE)
            && le32(b, 32) == x.address_of_names.get(LE) && le32(b, 36) == x.address_of_name_ordinals.get(LE));
        layout!(pe::ImageResourceDirectory, 16, x, b, le32(b, 0) == x.characteristics.get(LE) && le32(b, 4) == x.time_date_stamp.get(LE) && le16(b, 8) == x.major_version.get(LE) && le16(b, 10) == x.minor_version.get(LE)
            && le16(b, 12) == x.number_of_named_entries.get(LE) && le16(b, 14) == x.number_of_id_entries.get(LE));
        layout!(pe::ImageResourceDirectoryEntry, 8, x, b, le32(b, 0) == x.name_or_id.get(LE) && le32(b, 4) == x.offset_to_data_or_directory.get(LE));
        layout!(pe::ImageResourceDataEntry, 16, x, b, le32(b, 0) == x.offset_to_data.get(LE) && le32(b, 4) == x.size.get(LE) && le32(b, 8) == x.code_page.get(LE) && le32(b, 12) == x.reserved.get(LE));
        layout!(pe::MaskedRichHeaderEntry, 8, x, b, le32(b, 0) == x.masked_comp_id.get(LE) && le32(b, 4) == x.masked_count.get(LE));
    }
    /// Where the tables of an export directory are, and what makes one invalid.
    fn export_tables() {
        let d = any_bytes::<256>();
        let va: u32 = any();
        match ExportTable::parse(d, va) {
            Ok(t) => {
                ensure!(is_at(bytes_of(t.directory()), d, 0, 40), "the directory is at the start");
                ensure!(t.ordinal_base() as u32 == le32(d, 16), "the ordinal base");
                let (nf, nn, af, an, ao) = (le32(d, 20), le32(d, 24), le32(d, 28), le32(d, 32), le32(d, 36));
                let at = |s: &[u8], a: u32| s.is_empty() || s.as_ptr() as usize == d.as_ptr() as usize + a.wrapping_sub(va) as usize;
                reach!(t.addresses().len() > 10 && t.name_pointers().len() > 5, "exports");
                ensure!(t.addresses().len() == if af == 0 { 0 } else { nf as usize } && at(bytes_of_slice(t.addresses()), af), "the table of addresses");
                ensure!(t.name_pointers().len() == if an == 0 { 0 } else { nn as usize } && at(bytes_of_slice(t.name_pointers()), an), "the table of names");
                ensure!(t.name_ordinals().len() == t.name_pointers().len() && at(bytes_of_slice(t.name_ordinals()), ao), "the table of ordinals");
                ensure!(le32(d, 16) as usize + t.addresses().len() <= 0x1_0000, "every ordinal fits in 16 bits");
            }
            Err(_) => if d.len() >= 40 {
                let (base, nf, nn, af, an, ao) = (le32(d, 16) as usize, le32(d, 20) as usize, le32(d, 24) as usize, le32(d, 28), le32(d, 32), le32(d, 36));
                let addresses = af == 0 || base + nf <= 0x1_0000 && fits(d, af.wrapping_sub(va) as usize, 4 * nf);
                let names = an == 0 || ao != 0 && fits(d, an.wrapping_sub(va) as usize, 4 * nn) && fits(d, ao.wrapping_sub(va) as usize, 2 * nn);
                ensure!(base > 0xffff || !addresses || !names, "every valid export directory is accepted");
            },
        }
    }
    fn export_lookup() {
        let d = any_bytes::<256>();
        if let Ok(t) = ExportTable::parse(d, any()) {
            let i = ExportAddressIndex(any());
            match t.address_by_index(i) {
                Ok(a) => { reach!(i.0 > 10, "an address"); ensure!((i.0 as usize) < t.addresses().len() && a == t.addresses()[i.0 as usize].get(LE), "the address of an index") }
                Err(_) => ensure!(i.0 as usize >= t.addresses().len(), "every index has an address"),
            }
            let o = ExportOrdinal(any());
            let b = t.ordinal_base();
            match t.address_by_ordinal(o) {
                Ok(a) => { reach!(b > 10, "an ordinal"); ensure!(o.0 >= b && ((o.0 - b) as usize) < t.addresses().len() && a == t.addresses()[(o.0 - b) as usize].get(LE), "the address of an ordinal") }
                Err(_) => ensure!(o.0 < b || (o.0 - b) as usize >= t.addresses().len(), "every ordinal has an address"),
            }
        }
    }
    fn export_ordinals() {
        let d = any_bytes::<256>();
        if let Ok(t) = ExportTable::parse(d, any()) {
            let (i, b) = (ExportAddressIndex(any()), t.ordinal_base());
            match t.ordinal_from_index(i) {
                Ok(o) => ensure!((i.0 as usize) < t.addresses().len() && o.0 as u32 == b as u32 + i.0 as u32, "ordinals count from the base"),
                Err(_) => ensure!(i.0 as usize >= t.addresses().len(), "every index has an ordinal"),
            }
            let o = ExportOrdinal(any());
            match t.index_from_ordinal(o) {
                Ok(i) => ensure!(o.0 >= b && i.0 == o.0 - b && (i.0 as usize) < t.addresses().len(), "the index of an ordinal"),
                Err(_) => ensure!(o.0 < b || (o.0 - b) as usize >= t.addresses().len(), "every ordinal has an index"),
            }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn export_forward() {
        let w = witness();
        let d = any_bytes::<256>();
        let va: u32 = any();
        if let Ok(t) = ExportTable::parse(d, va) {
            let a: u32 = any();
            let o = a.wrapping_sub(va) as usize;
            ensure!(t.is_forward(a) == (o < d.len()), "an address in the export directory is a forwarded export");
            match t.forward_string(a) {
                Ok(Some(n)) => ensure!(t.is_forward(a) && is_at(n, d, o, n.len()) && n.len() < d.len() - o && d[o + n.len()] == 0 && (w >= n.len() || n[w] != 0), "the string of a forwarded export"),
                Ok(None) => ensure!(o >= d.len(), "a forwarded export has a string"),
                Err(_) => ensure!(o < d.len() && (w >= d.len() - o || d[o + w] != 0), "the string can be read"),
            }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn export_name() {
        let w = witness();
        let d = any_bytes::<256>();
        let va: u32 = any();
        if let Ok(t) = ExportTable::parse(d, va) {
            let a: u32 = any();
            string!(t.name_from_pointer(a), d, a.wrapping_sub(va) as usize, w, "the name of an export is the string at its pointer")
        }
    }
    fn import_start() { descriptors_at!(ImportTable, 20) }
    fn import_descriptors() { descriptors!(ImportTable, 20) }
    fn delay_start() { descriptors_at!(DelayLoadImportTable, 32) }
    fn delay_descriptors() { descriptors!(DelayLoadImportTable, 32) }
    fn import_thunk32() { thunk!(ImportTable, pe::ImageNtHeaders32, 4) }
    fn import_thunk64() { thunk!(ImportTable, pe::ImageNtHeaders64, 8) }
    fn delay_thunk32() { thunk!(DelayLoadImportTable, pe::ImageNtHeaders32, 4) }
    fn delay_thunk64() { thunk!(DelayLoadImportTable, pe::ImageNtHeaders64, 8) }
    fn import_thunks32() { thunks!(ImportTable, pe::ImageNtHeaders32, 4) }
    fn import_thunks64() { thunks!(ImportTable, pe::ImageNtHeaders64, 8) }
    fn delay_thunks32() { thunks!(DelayLoadImportTable, pe::ImageNtHeaders32, 4) }
    fn delay_thunks64() { thunks!(DelayLoadImportTable, pe::ImageNtHeaders64, 8) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import_hint() { hint!(ImportTable) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn delay_hint() { hint!(DelayLoadImportTable) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import_dll() { dll_name!(ImportTable) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn delay_dll() { dll_name!(DelayLoadImportTable) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import32() { import!(ImportTable, pe::ImageNtHeaders32, pe::ImageThunkData32, 0x8000_0000) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import64() { import!(ImportTable, pe::ImageNtHeaders64, pe::ImageThunkData64, 0x8000_0000_0000_0000) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn delay32() { import!(DelayLoadImportTable, pe::ImageNtHeaders32, pe::ImageThunkData32, 0x8000_0000) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn delay64() { import!(DelayLoadImportTable, pe::ImageNtHeaders64, pe::ImageThunkData64, 0x8000_0000_0000_0000) }
    fn relocation_blocks() {
        let d = any_bytes::<256>();
        let mut it = RelocationBlockIterator::new(d);
        match it.next() {
            Ok(Some(b)) => {
                reach!(b.size() > 100, "a block");
                let size = le32(d, 4);
                ensure!(b.virtual_address() == le32(d, 0) && b.size() == size, "the header of a block");
                ensure!(size > 8 && size % 4 == 0 && size as usize <= d.len(), "a block is in the table");
                let o = size as usize;
                match it.next() {
                    Ok(Some(c)) => ensure!(c.virtual_address() == le32(d, o) && c.size() == le32(d, o + 4), "blocks follow each other"),
                    Ok(None) => ensure!(d.len() == o, "blocks up to the end"),
                    Err(_) => ensure!(!fits(d, o, 8) || le32(d, o + 4) <= 8 || le32(d, o + 4) % 4 != 0 || !fits(d, o, le32(d, o + 4) as usize), "every valid block is accepted"),
                }
            }
            Ok(None) => ensure!(d.is_empty(), "blocks up to the end"),
            Err(_) => ensure!(!fits(d, 0, 8) || le32(d, 4) <= 8 || le32(d, 4) % 4 != 0 || !fits(d, 0, le32(d, 4) as usize), "every valid block is accepted"),
        }
    }
    /// One block of four entries of any value.
    [kani::unwind(6)]
    fn b_relocations() {
        let d = any_array::<16>();
        if let Ok(Some(mut b)) = RelocationBlockIterator::new(&d[..]).next() {
            let mut i = 0;
            while i < (le32(&d, 4) as usize - 8) / 2 {
                let x = le16(&d, 8 + 2 * i);
                if x != 0 {
                    match b.next() {
                        Some(r) => { reach!(i == 3, "the last"); ensure!(r.virtual_address == le32(&d, 0).wrapping_add(x as u32 & 0xfff) && r.typ.0 == x >> 12, "the relocations of a block") }
                        None => ensure!(false, "every relocation of a block"),
                    }
                }
                i += 1;
            }
            ensure!(b.next().is_none(), "only the relocations of the block");
        }
    }
    fn resource_root() {
        let d = any_bytes::<256>();
        let r = ResourceDirectory::new(d);
        match r.root() {
            Ok(t) => {
                let n = le16(d, 12) as usize + le16(d, 14) as usize;
                reach!(n > 10, "a table");
                ensure!(is_at(bytes_of(t.header), d, 0, 16), "the root table is at the start");
                ensure!(is_at(bytes_of_slice(t.entries), d, 16, 8 * n), "the entries follow the header");
            }
            Err(_) => ensure!(!fits(d, 0, 16) || !fits(d, 16, 8 * (le16(d, 12) as usize + le16(d, 14) as usize)), "every table can be read"),
        }
    }
    fn resource_entry() {
        let d = any_bytes::<256>();
        let r = ResourceDirectory::new(d);
        let x = any_pod!(pe::ImageResourceDirectoryEntry);
        let (id, off) = (le32(bytes_of(&x), 0), le32(bytes_of(&x), 4));
        let o = (off & 0x7fff_ffff) as usize;
        ensure!(x.is_table() == (off >> 31 == 1) && x.data_offset() as usize == o && x.has_name() == (id >> 31 == 1), "the fields of an entry");
        match x.data(r) {
            Ok(ResourceDirectoryEntryData::Table(t)) => {
                reach!(t.entries.len() > 10 && o > 20, "a table");
                ensure!(off >> 31 == 1 && is_at(bytes_of(t.header), d, o, 16), "the table of an entry");
                ensure!(is_at(bytes_of_slice(t.entries), d, o + 16, 8 * (le16(d, o + 12) as usize + le16(d, o + 14) as usize)), "the entries follow the header");
            }
            Ok(ResourceDirectoryEntryData::Data(t)) => ensure!(off >> 31 == 0 && is_at(bytes_of(t), d, o, 16), "the data of an entry"),
            Err(_) => ensure!(!fits(d, o, 16) || off >> 31 == 1 && !fits(d, o + 16, 8 * (le16(d, o + 12) as usize + le16(d, o + 14) as usize)), "every entry can be read"),
        }
    }
    fn resource_name() {
        let d = any_bytes::<256>();
        let r = ResourceDirectory::new(d);
        let x = any_pod!(pe::ImageResourceDirectoryEntry);
        let id = le32(bytes_of(&x), 0);
        match x.name_or_id() {
            ResourceNameOrId::Id(n) => ensure!(id >> 31 == 0 && n == id as u16, "the number of an entry"),
            ResourceNameOrId::Name(n) => {
                ensure!(id >> 31 == 1, "the name of an entry");
                let o = (id & 0x7fff_ffff) as usize;
                match n.data(r) {
                    Ok(c) => { reach!(c.len() > 10 && o > 10, "a name"); ensure!(is_at(bytes_of_slice(c), d, o + 2, 2 * le16(d, o) as usize), "the name of an entry") }
                    Err(_) => ensure!(!fits(d, o, 2) || !fits(d, o + 2, 2 * le16(d, o) as usize), "every name can be read"),
                }
                match n.raw_data(r) {
                    Ok(c) => ensure!(is_at(c, d, o + 2, 2 * le16(d, o) as usize), "the bytes of a name"),
                    Err(_) => ensure!(!fits(d, o, 2) || !fits(d, o + 2, 2 * le16(d, o) as usize), "every name can be read"),
                }
            }
        }
    }
}

#[cfg(not(kani))]
mod low {
    use super::*;
    use crate::craft::*;
    use object::read::{self, NameOrOrdinal, Object};

    struct Sec { va: u32, vs: u32, ptr: u32, rs: u32, body: Vec<u8> }
    /// Tables being laid out: the current section's bytes, and where they will be.
    struct Lay { s: Vec<Sec>, i: usize }
    impl Lay {
        fn va(&self) -> u32 { self.s[self.i].va + self.s[self.i].body.len() as u32 }
        fn add(&mut self, b: &[u8]) -> u32 { let a = self.va(); self.s[self.i].body.extend_from_slice(b); a }
        fn align(&mut self, n: usize) { while self.s[self.i].body.len() % n != 0 { self.s[self.i].body.push(uni(256) as u8) } }
        fn gap(&mut self) { for _ in 0..uni(6) { self.s[self.i].body.push(uni(256) as u8) } }
    }
    fn text(max: u64) -> Vec<u8> { (0..1 + uni(max)).map(|_| match uni(4) { 0 => 1 + uni(255) as u8, 1 => b'.', 2 => b'#', _ => b'a' + uni(26) as u8 }).collect() }
    fn z(b: &[u8]) -> Vec<u8> { let mut v = b.to_vec(); v.push(0); v }
    #[derive(Clone, PartialEq, Debug)]
    enum Target { Addr(u32), Ord(Vec<u8>, u16), Name(Vec<u8>, Vec<u8>) }
    #[derive(Clone, PartialEq, Debug)]
    enum Imp { Ord(u16), Name(u16, Vec<u8>) }
    struct Lib { name: Vec<u8>, imps: Vec<Imp> }
    struct Res { id: Result<Vec<u16>, u16>, sub: Result<Vec<Res>, (u32, u32, u32)> }

    fn thunks(l: &mut Lay, wide: bool, imps: &[Imp], names: usize) -> u32 {
        // the names, then the list
        let here = l.i;
        let mut w = W::new(false, wide);
        for m in imps {
            match m {
                Imp::Ord(o) => { w.word(*o as u64 | if wide { 1 << 63 } else { 1 << 31 }); }
                Imp::Name(h, n) => {
                    l.i = names;
                    l.gap();
                    let a = l.add(&h.to_le_bytes());
                    l.add(&z(n));
                    l.i = here;
                    // the bits above the address are not used
                    w.word(a as u64 | if wide { uni(2) << 40 } else { 0 });
                }
            }
        }
        w.word(0);
        l.i = here;
        l.gap();
        l.add(&w.b)
    }
    fn imports() -> Vec<Imp> {
        (0..uni(4)).map(|_| if uni(2) == 0 { Imp::Ord(1 + uni(0xffff) as u16) } else { Imp::Name(uni(0x10000) as u16, text(5)) }).collect()
    }
    fn resources(depth: u32) -> Vec<Res> {
        let n = uni(3);
        (0..n).map(|_| Res {
            id: if uni(2) == 0 { Ok((0..uni(4)).map(|_| uni(0x10000) as u16).collect()) } else { Err(uni(0x10000) as u16) },
            sub: if depth > 0 && uni(2) == 0 { Ok(resources(depth - 1)) } else { Err((uni(1 << 32) as u32, uni(1 << 32) as u32, uni(1 << 32) as u32)) },
        }).collect()
    }
    /// Lay out a table; returns its offset in `b`.
    fn put_resources(b: &mut Vec<u8>, rs: &[Res], skew: u16) -> u32 {
        let at = b.len();
        let mut w = W::new(false, false);
        let named = rs.iter().filter(|r| r.id.is_ok()).count() as u16;
        // the two counts only matter by their sum
        let named = if rs.len() > 0 && skew == 1 { rs.len() as u16 - named } else { named };
        w.u32(0).u32(0).u16(1).u16(2).u16(named).u16(rs.len() as u16 - named);
        b.extend_from_slice(&w.b);
        b.resize(at + 16 + 8 * rs.len(), 0);
        for (i, r) in rs.iter().enumerate() {
            let id = match &r.id {
                Err(n) => *n as u32,
                Ok(s) => { let o = b.len() as u32; b.extend_from_slice(&(s.len() as u16).to_le_bytes()); for c in s { b.extend_from_slice(&c.to_le_bytes()) } o | 1 << 31 }
            };
            let off = match &r.sub {
                Ok(sub) => put_resources(b, sub, skew) | 1 << 31,
                Err((a, n, c)) => { let o = b.len() as u32; for x in [*a, *n, *c, 0] { b.extend_from_slice(&x.to_le_bytes()) } o }
            };
            b[at + 16 + 8 * i..][..4].copy_from_slice(&id.to_le_bytes());
            b[at + 20 + 8 * i..][..4].copy_from_slice(&off.to_le_bytes());
        }
        at as u32
    }
    fn check_resources(dir: ResourceDirectory<'_>, t: ResourceDirectoryTable<'_>, rs: &[Res]) {
        ensure!(t.entries.len() == rs.len(), "as many resources");
        for (e, r) in t.entries.iter().zip(rs) {
            match (e.name_or_id(), &r.id) {
                (ResourceNameOrId::Id(a), Err(b)) => ensure!(a == *b, "the number of a resource"),
                (ResourceNameOrId::Name(a), Ok(b)) => {
                    ensure!(a.data(dir).unwrap().iter().map(|c| c.get(LE)).eq(b.iter().copied()), "the name of a resource");
                    ensure!(a.to_string_lossy(dir).unwrap() == String::from_utf16_lossy(b), "the name of a resource as text");
                    ensure!(a.raw_data(dir).unwrap().len() == 2 * b.len(), "the bytes of the name");
                }
                _ => ensure!(false, "named or numbered"),
            }
            match (e.data(dir), &r.sub) {
                (Ok(x), Ok(sub)) => { ensure!(e.is_table() && x.clone().data().is_none(), "a table"); check_resources(dir, x.table().unwrap(), sub) }
                (Ok(x), Err((a, n, c))) => {
                    ensure!(!e.is_table() && x.clone().table().is_none(), "data");
                    let x = x.data().unwrap();
                    ensure!((x.offset_to_data.get(LE), x.size.get(LE), x.code_page.get(LE)) == (*a, *n, *c), "the data of a resource");
                }
                _ => ensure!(false, "every resource can be read"),
            }
        }
    }
    fn target(t: &ExportTarget<'_>) -> Target {
        match t { ExportTarget::Address(a) => Target::Addr(*a), ExportTarget::ForwardByOrdinal(l, o) => Target::Ord(l.to_vec(), o.0), ExportTarget::ForwardByName(l, n) => Target::Name(l.to_vec(), n.to_vec()) }
    }

    pub fn exact<P: ImageNtHeaders>(wide: bool) {
        let nsec = 1 + uni(3) as usize;
        let mut l = Lay { s: Vec::new(), i: 0 };
        let mut va = 0x1000 * (1 + uni(3) as u32);
        for _ in 0..nsec {
            l.s.push(Sec { va, vs: 0, ptr: 0, rs: 0, body: Vec::new() });
            va += 0x2000 + 0x1000 * uni(3) as u32;
        }
        let pick = |l: &mut Lay| { l.i = uni(nsec as u64) as usize; l.gap(); };
        let mut dirs = [(0u32, 0u32); 16];
        // exports
        let base = match uni(4) { 0 => 0xffff - uni(5) as u32, 1 => 0, _ => uni(100) as u32 };
        let exports = uni(4) != 0;
        let nf = if !exports { 0 } else { uni(6) }.min(0x10000 - base as u64) as usize;
        let mut targets = Vec::new();
        let mut names: Vec<(Vec<u8>, u16)> = Vec::new();
        if exports {
            pick(&mut l);
            let exp_va = l.va();
            let start = l.s[l.i].body.len();
            l.add(&[0; 40]);
            let mut fs = Vec::new();
            for _ in 0..nf {
                let lib = text(4);
                match uni(5) {
                    0 => {
                        let o = if uni(2) == 0 { uni(0x10000) } else { uni(20) } as u16;
                        let s = [&lib[..], b".#", format!("{:01$}", o, uni(8) as usize).as_bytes()].concat();
                        fs.push(l.add(&z(&s)));
                        targets.push(Target::Ord(lib, o));
                    }
                    1 => {
                        let mut n: Vec<u8> = text(4).into_iter().filter(|c| *c != b'.').collect();
                        if n.is_empty() || n[0] == b'#' { n.insert(0, b'x') }
                        fs.push(l.add(&z(&[&lib[..], b".", &n].concat())));
                        targets.push(Target::Name(lib, n));
                    }
                    2 => { fs.push(0); targets.push(Target::Addr(0)); }
                    _ => { let a = 0x10_0000 + uni(1 << 31) as u32; fs.push(a); targets.push(Target::Addr(a)); }
                }
            }
            let mut np = Vec::new();
            for _ in 0..if nf == 0 { 0 } else { uni(5) } {
                let n = text(6);
                np.push(l.add(&z(&n)));
                names.push((n, uni(nf as u64) as u16));
            }
            let w32 = |v: &[u32]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
            let af = l.add(&w32(&fs));
            let an = l.add(&w32(&np));
            let ao = l.add(&names.iter().flat_map(|x| x.1.to_le_bytes()).collect::<Vec<u8>>());
            let dll = l.add(b"me.dll\0");
            let exp_len = l.va() - exp_va;
            let mut w = W::new(false, false);
            w.u32(7).u32(8).u16(9).u16(10).u32(dll).u32(base).u32(nf as u32).u32(names.len() as u32).u32(af).u32(an).u32(ao);
            let i = l.i;
            l.s[i].body[start..start + 40].copy_from_slice(&w.b);
            dirs[0] = (exp_va, exp_len);
        }
        // imports, and delay-load imports
        let mut libs: [Vec<Lib>; 2] = [Vec::new(), Vec::new()];
        for delay in 0..2 {
            if uni(3) == 0 { continue }
            pick(&mut l);
            let here = l.i;
            // the names may be in another section than the tables
            let nsecn = if delay == 0 { uni(nsec as u64) as usize } else { here };
            let mut w = W::new(false, wide);
            for _ in 0..1 + uni(3) {
                let lib = Lib { name: text(6), imps: imports() };
                l.i = nsecn;
                let n = l.add(&z(&lib.name));
                l.i = here;
                let t = thunks(&mut l, wide, &lib.imps, nsecn);
                if delay == 1 { w.u32(1).u32(n).u32(uni(2) as u32).u32(uni(9) as u32).u32(t).u32(0).u32(0).u32(0); }
                else if uni(2) == 0 { w.u32(0).u32(uni(2) as u32).u32(0).u32(n).u32(t); }
                else { w.u32(t).u32(0).u32(uni(2) as u32).u32(n).u32(0x1234_5678); }
                libs[delay].push(lib);
            }
            for _ in 0..if delay == 1 { 8 } else { 5 } { w.u32(0); }
            l.i = here;
            let a = l.add(&w.b);
            dirs[if delay == 1 { 13 } else { 1 }] = (a, w.b.len() as u32);
        }
        // base relocations
        let mut blocks = Vec::new();
        if uni(3) != 0 {
            pick(&mut l);
            let mut w = W::new(false, wide);
            for _ in 0..uni(4) {
                let page = if uni(8) == 0 { 0xffff_f000 + uni(0x1000) as u32 } else { uni(1 << 32) as u32 };
                let n = 2 + 2 * uni(3);
                let rs: Vec<u16> = (0..n).map(|_| match uni(4) { 0 => 0, 1 => uni(0x1000) as u16, _ => uni(0x10000) as u16 }).collect();
                w.u32(page).u32(8 + 2 * n as u32);
                for r in &rs { w.u16(*r); }
                blocks.push((page, rs));
            }
            let a = l.add(&w.b);
            dirs[5] = (a, w.b.len() as u32);
        }
        // resources
        let mut rs = Vec::new();
        if uni(3) != 0 {
            pick(&mut l);
            rs = resources(3);
            let mut b = Vec::new();
            put_resources(&mut b, &rs, uni(2) as u16);
            let a = l.add(&b);
            dirs[2] = (a, b.len() as u32);
        }
        // the file: DOS header, stub, rich header, headers, sections in any order
        let key = uni(1 << 32) as u32;
        let mut w = W::new(false, wide);
        w.bytes(b"MZ").pad(0x3c).u32(0).pad(0x40);
        for _ in 0..4 * uni(20) { w.u8(uni(128) as u8); }
        let mut rich = None;
        if uni(3) != 0 {
            let at = w.b.len();
            let es: Vec<(u32, u32)> = (0..uni(5)).map(|_| (uni(1 << 32) as u32, uni(100) as u32)).collect();
            w.u32(0x536e_6144 ^ key).u32(key).u32(key).u32(key);
            for (a, b) in &es { w.u32(a ^ key).u32(b ^ key); }
            // a marker that is not on a multiple of four is not one
            w.bytes(b"Rich").u32(key);
            let len = w.b.len() - at;
            rich = Some((at, len, es));
        }
        for _ in 0..8 * uni(3) { w.u8(0); }
        w.align(8);
        let nt = w.b.len() as u32;
        w.set_u32(0x3c, nt);
        w.bytes(b"PE\0\0");
        let ndirs = 14 + uni(3) as usize;
        w.u16(if wide { 0x8664 } else { 0x14c }).u16(nsec as u16).u32(0).u32(0).u32(0).u16(if wide { 112 } else { 96 } + ndirs as u16 * 8).u16(0x22);
        let image_base = 0x1000 * uni(1 << 20);
        w.u16(if wide { 0x20b } else { 0x10b }).u8(0).u8(0).u32(0x200).u32(0x200).u32(0).u32(0x1000).u32(0x1000);
        if !wide { w.u32(0x1000); }
        w.word(image_base).u32(0x1000).u32(0x200).u16(6).u16(0).u16(0).u16(0).u16(6).u16(0).u32(0).u32(0x4000).u32(0x400).u32(0).u16(3).u16(0);
        w.word(0x1000).word(0x1000).word(0x1000).word(0x1000).u32(0).u32(ndirs as u32);
        for (a, n) in &dirs[..ndirs] { w.u32(*a).u32(*n); }
        let body = w.b.len() + 40 * nsec;
        let mut order: Vec<usize> = (0..nsec).collect();
        if uni(2) == 0 { order.reverse() }
        let mut tail = Vec::new();
        for i in order {
            let s = &mut l.s[i];
            for _ in 0..uni(20) { tail.push(uni(256) as u8) }
            s.ptr = (body + tail.len()) as u32;
            tail.extend_from_slice(&s.body);
            let n = s.body.len() as u32;
            // either of the sizes may be larger than the other
            (s.vs, s.rs) = match uni(3) { 0 => (n, n + uni(0x800) as u32), 1 => (n + uni(0x800) as u32, n), _ => (n, n) };
        }
        for s in &l.s { w.bytes(b".sec\0\0\0\0").u32(s.vs).u32(s.va).u32(s.rs).u32(s.ptr).u32(0).u32(0).u16(0).u16(0).u32(0x4000_0040); }
        w.bytes(&tail);
        let d: &'static [u8] = crate::fuzz::settle(w.b);

        let f = match PeFile::<P>::parse(d) { Ok(f) => f, Err(_) => { ensure!(false, "a well-formed image is accepted"); return } };
        let (t, dd) = (f.section_table(), f.data_directories());
        ensure!(dd.len() == ndirs, "the data directories");
        for (i, (a, n)) in dirs[..ndirs].iter().enumerate() {
            match dd.get(i) { Some(x) => ensure!(*a != 0 && x.address_range() == (*a, *n), "a data directory"), None => ensure!(*a == 0, "every data directory") }
        }
        // addresses
        for _ in 0..8 {
            let s = &l.s[uni(nsec as u64) as usize];
            let a = match uni(4) { 0 => s.va.wrapping_sub(1), 1 => s.va + s.body.len() as u32, 2 => s.va + uni(0x1000) as u32, _ => s.va + uni(1 + s.body.len() as u64) as u32 };
            let own = l.s.iter().find(|s| a >= s.va && a - s.va < s.body.len() as u32);
            ensure!(t.pe_file_range_at(a) == own.map(|s| (s.ptr + (a - s.va), s.body.len() as u32 - (a - s.va))), "the file range of an address");
            ensure!(t.pe_data_at(d, a) == own.map(|s| &s.body[(a - s.va) as usize..]), "the bytes at an address");
            ensure!(t.pe_data_containing(d, a) == own.map(|s| (&s.body[..], s.va)), "the section of an address");
            let in_mem = l.s.iter().find(|s| a >= s.va && a - s.va < s.vs);
            ensure!(t.section_containing(a).map(|x| x.pe_address_range()) == in_mem.map(|s| (s.va, s.vs)), "the section of an address in memory");
        }
        // rich header
        match (f.rich_header_info(), &rich) {
            (Some(r), Some((at, len, es))) => {
                ensure!((r.offset, r.length, r.xor_key) == (*at, *len, key), "the rich header");
                ensure!(r.unmasked_entries().map(|e| (e.comp_id, e.count)).eq(es.iter().copied()), "the entries of the rich header");
            }
            (None, None) => {}
            // another "Rich" or start marker may appear in the stub or entries by chance: astronomically rare
            _ => ensure!(false, "whether there is a rich header"),
        }
        // exports
        match f.export_table().unwrap() {
            None => ensure!(!exports, "the export table"),
            Some(e) => {
                ensure!(exports && e.ordinal_base() as u32 == base && e.directory().time_date_stamp.get(LE) == 8, "the export directory");
                let all = e.exports().unwrap();
                ensure!(all.len() == nf, "as many exports");
                for (i, x) in all.iter().enumerate() {
                    ensure!(x.ordinal.0 as usize == base as usize + i, "the ordinal of an export");
                    ensure!(target(&x.target) == targets[i], "the target of an export");
                    ensure!(x.name == names.iter().rev().find(|n| n.1 as usize == i).map(|n| &n.0[..]), "the name of an export");
                    ensure!(target(&e.target_by_index(ExportAddressIndex(i as u16)).unwrap()) == targets[i] && target(&e.target_by_ordinal(x.ordinal).unwrap()) == targets[i], "the target of an index");
                    ensure!(x.target.is_forward() == !matches!(targets[i], Target::Addr(_)), "forwarded");
                }
                ensure!(e.target_by_ordinal(ExportOrdinal(base.wrapping_add(nf as u32) as u16)).is_err() || nf == 0x10000, "only the exports");
                ensure!(e.address_iter().map(|x| (x.0 .0 as usize, x.1 .0 as u32)).eq((0..nf).map(|i| (i, base + i as u32))), "the addresses in order");
                ensure!(e.name_iter().map(|x| (e.name_from_pointer(x.0).unwrap().to_vec(), x.1 .0)).eq(names.iter().cloned()), "the names in order");
            }
        }
        let unified = |t: &Target| match t {
            Target::Addr(a) => (Some(image_base.wrapping_add(*a as u64)), None, None),
            Target::Ord(l, o) => (None, Some(l.clone()), Some(Err(*o))),
            Target::Name(l, n) => (None, Some(l.clone()), Some(Ok(n.clone()))),
        };
        let mut want = Vec::new();
        for (n, i) in &names { want.push((Ok(n.clone()), unified(&targets[*i as usize]), (base + *i as u32) as u16)); }
        for i in 0..nf { if !names.iter().any(|n| n.1 as usize == i) && targets[i] != Target::Addr(0) { want.push((Err((base + i as u32) as u16), unified(&targets[i]), (base + i as u32) as u16)); } }
        let got: Vec<_> = f.exports().unwrap().map(|x| {
            let x = x.unwrap();
            let n = match x.name() { NameOrOrdinal::Name(n) => Ok(n.to_vec()), NameOrOrdinal::Ordinal(o) => Err(o) };
            let t = match x.target() {
                read::ExportTarget::Address { address } => (Some(address), None, None),
                read::ExportTarget::Reexport { library, name } => (None, Some(library.to_vec()), Some(match name { NameOrOrdinal::Name(n) => Ok(n.to_vec()), NameOrOrdinal::Ordinal(o) => Err(o) })),
                _ => (None, None, None),
            };
            let o = match x.flags() { read::ExportFlags::Pe { ordinal } => ordinal.0, _ => 0 };
            (n, t, o)
        }).collect();
        ensure!(!exports || got == want, "the exports of the unified interface");
        // imports
        let low = |x: Import<'_>| match x { Import::Ordinal(o) => Imp::Ord(o), Import::Name(h, n) => Imp::Name(h, n.to_vec()) };
        match f.import_table().unwrap() {
            None => ensure!(libs[0].is_empty(), "the import table"),
            Some(x) => {
                let ds: Vec<_> = x.descriptors().unwrap().map(|x| x.unwrap()).collect();
                ensure!(ds.len() == libs[0].len(), "as many libraries");
                for (e, lib) in ds.iter().zip(&libs[0]) {
                    ensure!(x.name(e.name.get(LE)) == Ok(&lib.name[..]), "the name of a library");
                    let o = e.original_first_thunk.get(LE);
                    check_thunks::<P>(x.thunks(if o == 0 { e.first_thunk.get(LE) } else { o }).unwrap(), &lib.imps, |y| low(x.import::<P>(y).unwrap()));
                }
            }
        }
        match f.delay_load_import_table().unwrap() {
            None => ensure!(libs[1].is_empty(), "the delay-load import table"),
            Some(x) => {
                let ds: Vec<_> = x.descriptors().unwrap().map(|x| x.unwrap()).collect();
                ensure!(ds.len() == libs[1].len(), "as many libraries");
                for (e, lib) in ds.iter().zip(&libs[1]) {
                    ensure!(x.name(e.dll_name_rva.get(LE)) == Ok(&lib.name[..]), "the name of a library");
                    check_thunks::<P>(x.thunks(e.import_name_table_rva.get(LE)).unwrap(), &lib.imps, |y| low(x.import::<P>(y).unwrap()));
                }
            }
        }
        let mut want = Vec::new();
        let mut wlib = Vec::new();
        for (k, ls) in libs.iter().enumerate() { for lib in ls { wlib.push((lib.name.clone(), k == 1)); for m in &lib.imps { want.push((lib.name.clone(), match m { Imp::Ord(o) => Err(*o), Imp::Name(_, n) => Ok(n.clone()) }, k == 1)); } } }
        let got: Vec<_> = f.imports().unwrap().map(|x| { let x = x.unwrap(); (x.library().to_vec(), match x.name() { NameOrOrdinal::Name(n) => Ok(n.to_vec()), NameOrOrdinal::Ordinal(o) => Err(o) }, matches!(x.flags(), read::ImportFlags::Pe { delay: true })) }).collect();
        ensure!(got == want, "the imports of the unified interface");
        let got: Vec<_> = f.import_libraries().unwrap().map(|x| { let x = x.unwrap(); (x.name().to_vec(), matches!(x.flags(), read::ImportLibraryFlags::Pe { delay: true })) }).collect();
        ensure!(got == wlib, "the libraries of the unified interface");
        // base relocations
        if dirs[5].1 > 0 || dirs[5].0 == 0 {
            match dd.relocation_blocks(d, &t).unwrap() {
                None => ensure!(dirs[5].0 == 0, "the base relocations"),
                Some(mut x) => {
                    for (page, rs) in &blocks {
                        let b = match x.next() { Ok(Some(b)) => b, _ => { ensure!(false, "every block"); return } };
                        ensure!(b.virtual_address() == *page && b.size() as usize == 8 + 2 * rs.len(), "the header of a block");
                        ensure!(b.map(|r| (r.virtual_address, r.typ.0)).eq(rs.iter().filter(|r| **r != 0).map(|r| (page.wrapping_add(*r as u32 & 0xfff), r >> 12))), "the base relocations of a block");
                    }
                    ensure!(matches!(x.next(), Ok(None)), "only the blocks");
                }
            }
        }
        // resources
        match dd.resource_directory(d, &t).unwrap() {
            None => ensure!(dirs[2].0 == 0, "the resources"),
            Some(r) => check_resources(r, r.root().unwrap(), &rs),
        }
    }
    fn check_thunks<P: ImageNtHeaders>(mut l: ImportThunkList<'_>, imps: &[Imp], f: impl Fn(P::ImageThunkData) -> Imp) {
        for (i, m) in imps.iter().enumerate() { ensure!(f(l.get::<P>(i).unwrap()) == *m, "the import of an index"); }
        for m in imps { match l.next::<P>() { Ok(Some(x)) => ensure!(f(x) == *m, "the imports in order"), _ => ensure!(false, "every import") } }
        ensure!(matches!(l.next::<P>(), Ok(None)), "only the imports");
    }
}

natives! {
    /// Images with every table laid out at random; the tables read back.
    fn exact() { if uni(2) == 0 { low::exact::<pe::ImageNtHeaders32>(false) } else { low::exact::<pe::ImageNtHeaders64>(true) } }
}
