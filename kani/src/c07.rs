//! Malformed PE and COFF input.
use crate::shim::*;
use ::memchr_dep as mc;
use object::pe;
use object::pod::{bytes_of, bytes_of_slice};
use object::read::coff::*;
use object::read::pe::*;
use object::read::{SectionIndex, SymbolIndex};
use object::{LittleEndian as LE, U16, U32};

macro_rules! inside { ($b:expr, $d:expr) => { ensure!(inside($b, $d), "the result is made of bytes of the file") } }

macro_rules! headers { ($t:ty) => {{
    let d = any_bytes::<512>();
    let mut off: u64 = any();
    let o = off;
    if let Ok((h, dirs)) = <$t>::parse(d, &mut off) {
        reach!(dirs.len() > 2, "data directories");
        inside!(bytes_of(h), d);
        ensure!(is_at(bytes_of(h), d, o as usize, core::mem::size_of::<$t>()), "the header at its offset");
        ensure!(dirs.len() == h.optional_header().number_of_rva_and_sizes() as usize, "as many directories as declared");
        ensure!(off - o == 24 + h.file_header().size_of_optional_header.get(LE) as u64, "the offset after the optional header");
        let i: usize = any();
        match dirs.get(i) {
            Some(x) => { inside!(bytes_of(x), d); ensure!(x.virtual_address.get(LE) != 0 && i < dirs.len(), "a present directory"); }
            None => {}
        }
    }
}}}
/// A table of one section of any contents.
fn one_section() -> SectionTable<'static> {
    let mut h = any_pod!(pe::ImageFileHeader);
    h.number_of_sections = U16::new(LE, 1);
    let b: &'static [u8; 40] = Box::leak(Box::new(any_array::<40>()));
    SectionTable::parse(&h, &b[..], 0).unwrap()
}
macro_rules! symbols { ($h:ty, $s:ty, $z:expr, $d:ident, $h0:ident, $t:ident) => {
    let $d = any_bytes::<512>();
    let $h0 = any_pod!($h);
    let Ok($t) = <$h>::symbols(&$h0, $d) else { return };
} }
macro_rules! symtab { ($h:ty, $s:ty, $z:expr) => {{
    symbols!($h, $s, $z, d, h, t);
    let off = CoffHeader::pointer_to_symbol_table(&h) as usize;
    ensure!(t.len() == if off == 0 { 0 } else { CoffHeader::number_of_symbols(&h) as usize }, "as many records as declared");
    let i = SymbolIndex(any());
    match t.symbol(i) {
        Ok(s) => {
            reach!(i.0 > 10, "a symbol");
            ensure!(i.0 < t.len(), "only the records of the table");
            inside!(bytes_of(s), d);
        }
        Err(_) => ensure!(i.0 >= t.len(), "every record can be read"),
    }
}}}
macro_rules! aux { ($h:ty, $m:ident) => {{
    symbols!($h, x, 1, d, h, t);
    let i = SymbolIndex(any());
    match t.$m(i) {
        Ok(s) => { reach!(i.0 > 10, "an auxiliary record"); inside!(bytes_of(s), d) }
        Err(_) => ensure!(i.0 == usize::MAX || i.0 + 1 >= t.len(), "every record can be read"),
    }
}}}
macro_rules! symname { ($s:ty) => {{
    let d = any_bytes::<256>();
    let s: &'static $s = Box::leak(Box::new(any_pod!($s)));
    let strings = object::read::StringTable::new(d, any(), any());
    if let Ok(n) = s.name(strings) { reach!(n.len() > 10, "a long name"); ensure!(inside(n, d) || inside(n, s.raw_name()), "the name is in the record or the file") }
}}}
macro_rules! symsteps { ($h:ty) => {{
    symbols!($h, x, 1, d, h, t);
    let mut it = t.iter();
    if let Some((i, s)) = it.next() {
        ensure!(i.0 == 0, "starts at the first symbol");
        if let Some((j, y)) = it.next() { reach!(j.0 > 3, "auxiliary records skipped"); ensure!(j.0 == 1 + s.number_of_aux_symbols() as usize && j.0 < t.len(), "auxiliary records are skipped"); inside!(bytes_of(y), d) }
    } else { ensure!(t.is_empty(), "only an empty table has no symbol") }
}}}
macro_rules! thunks { ($t:ident, $n:ty, $d:ident) => {{
    let a: u32 = any();
    if let Ok(mut l) = $t.thunks(a) {
        let i: usize = any();
        if let Ok(x) = l.get::<$n>(i) { reach!(i > 100, "a thunk by index"); if let Ok(Import::Name(_, n)) = $t.import::<$n>(x) { inside!(n, $d); ensure!(!n.is_empty(), "names are not empty") } }
        match l.next::<$n>() {
            Ok(Some(x)) => { ensure!(x.address() != 0, "the list ends at a null entry"); }
            _ => ensure!(matches!(l.next::<$n>(), Ok(None)), "iteration ends after an error or the null entry"),
        }
    }
}}}
macro_rules! descriptors { ($t:ident, $d:ident, $name:ident) => {{
    if let Ok(mut it) = $t.descriptors() {
        match it.next() {
            Ok(Some(x)) => {
                reach!($d.len() > 100, "a descriptor");
                inside!(bytes_of(x), $d);
            }
            _ => ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error or the null descriptor"),
        }
    }
}}}
macro_rules! hint { ($t:ident, $d:ident) => {{
    let a: u32 = any();
    if let Ok(n) = $t.name(a) { reach!(n.len() > 10, "a name"); inside!(n, $d) }
    if let Ok((_, n)) = $t.hint_name(a) { inside!(n, $d); ensure!(!n.is_empty(), "names are not empty") }
}}}

harnesses! {
    /// Every file of any length, headers at any offset.
    fn headers32() { headers!(pe::ImageNtHeaders32) }
    fn headers64() { headers!(pe::ImageNtHeaders64) }
    fn dos_header() {
        let d = any_bytes::<512>();
        if let Ok(h) = pe::ImageDosHeader::parse(d) { inside!(bytes_of(h), d); ensure!(d[0] == b'M' && d[1] == b'Z', "the DOS magic"); }
        let r = optional_header_magic(d);
        reach!(r.is_ok(), "an optional header");
        if let Ok(c) = anon_object_class_id(d) { ensure!(d.len() >= 28 && c.0 == d[12..28], "the class of the object"); }
    }
    fn coff_header() {
        let d = any_bytes::<512>();
        let mut off: u64 = any();
        let o = off;
        if let Ok(h) = <pe::ImageFileHeader as CoffHeader>::parse(d, &mut off) {
            reach!(off > 100, "a header");
            ensure!(is_at(bytes_of(h), d, o as usize, 20), "the header at its offset");
            ensure!(off - o == 20 + h.size_of_optional_header.get(LE) as u64, "the offset after the optional header");
            if let Ok(t) = CoffHeader::sections(h, d, off) {
                ensure!(t.len() == h.number_of_sections.get(LE) as usize, "as many sections as declared");
                let i = SectionIndex(any());
                match t.section(i) { Ok(s) => { inside!(bytes_of(s), d); ensure!(i.0 >= 1 && i.0 <= t.len(), "indices start at one") } Err(_) => ensure!(i.0 == 0 || i.0 > t.len(), "every section can be read") }
            }
        }
    }
    fn bigobj_header() {
        let d = any_bytes::<512>();
        let mut off: u64 = any();
        let o = off;
        if let Ok(h) = <pe::AnonObjectHeaderBigobj as CoffHeader>::parse(d, &mut off) {
            reach!(off > 100, "a header");
            ensure!(is_at(bytes_of(h), d, o as usize, 56) && off - o == 56, "the header at its offset");
            if let Ok(t) = CoffHeader::sections(h, d, off) {
                ensure!(t.len() == h.number_of_sections.get(LE) as usize, "as many sections as declared");
                let i = SectionIndex(any());
                if let Ok(s) = t.section(i) { inside!(bytes_of(s), d) }
            }
        }
    }
    /// Every section header against every file.
    fn section_data() {
        let d = any_bytes::<512>();
        let s = any_pod!(pe::ImageSectionHeader);
        let va: u32 = any();
        if let Ok(b) = s.pe_data(d) { inside!(b, d) }
        if let Some(b) = s.pe_data_at(d, va) { reach!(b.len() > 100, "data at an address"); inside!(b, d) }
        if let Some((b, _)) = s.pe_data_containing(d, va) { inside!(b, d) }
        if let Ok(b) = s.coff_data(d) { inside!(b, d) }
        let _ = (s.pe_file_range_at(va), s.contains_rva(va), s.pe_address_range(), s.coff_alignment());
    }
    fn section_relocations() {
        let d = any_bytes::<512>();
        let s = any_pod!(pe::ImageSectionHeader);
        if let Ok(r) = s.coff_relocations(d) { reach!(r.len() > 0x10000, "an overflowing count"); inside!(bytes_of_slice(r), d) }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn section_name() {
        let d = any_bytes::<512>();
        let s: &'static pe::ImageSectionHeader = Box::leak(Box::new(any_pod!(pe::ImageSectionHeader)));
        let strings = object::read::StringTable::new(d, any(), any());
        if let Ok(n) = s.name(strings) { reach!(n.len() > 10, "a long name"); ensure!(inside(n, d) || inside(n, &s.name), "the name is in the header or the file") }
        let _ = s.name_offset();
    }
    fn symtab() { symtab!(pe::ImageFileHeader, pe::ImageSymbol, 18) }
    fn symtab_big() { symtab!(pe::AnonObjectHeaderBigobj, pe::ImageSymbolEx, 20) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn symname() { symname!(pe::ImageSymbol) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn symname_big() { symname!(pe::ImageSymbolEx) }
    fn aux_function() { aux!(pe::ImageFileHeader, aux_function) }
    fn aux_section() { aux!(pe::ImageFileHeader, aux_section) }
    fn aux_section_big() { aux!(pe::AnonObjectHeaderBigobj, aux_section) }
    fn aux_weak() { aux!(pe::ImageFileHeader, aux_weak_external) }
    fn symsteps() { symsteps!(pe::ImageFileHeader) }
    fn symsteps_big() { symsteps!(pe::AnonObjectHeaderBigobj) }
    fn symbol_facts() {
        let _d = any_bytes::<512>();
        let t = one_section();
        let s = any_pod!(pe::ImageSymbol);
        let r = s.address(any(), &t);
        reach!(matches!(r, Ok(Some(_))), "an address");
        let s = any_pod!(pe::ImageSymbolEx);
        let _ = s.address(any(), &t);
        let _ = (s.section(), s.is_definition(), s.has_aux_file_name(), s.has_aux_function(), s.has_aux_section(), s.has_aux_weak_external(), s.base_type(), s.derived_type());
    }
    fn export_table() {
        let d = any_bytes::<256>();
        let va: u32 = any();
        if let Ok(t) = ExportTable::parse(d, va) {
            inside!(bytes_of(t.directory()), d);
            inside!(bytes_of_slice(t.addresses()), d);
            inside!(bytes_of_slice(t.name_pointers()), d);
            inside!(bytes_of_slice(t.name_ordinals()), d);
            ensure!(t.name_pointers().len() == t.name_ordinals().len(), "an ordinal for each name");
            let i = ExportAddressIndex(any());
            match t.ordinal_from_index(i) {
                Ok(o) => { reach!(i.0 > 100, "an export"); ensure!(o.0 as u32 == t.ordinal_base() as u32 + i.0 as u32, "ordinals count from the base"); ensure!(t.index_from_ordinal(o) == Ok(i) && t.address_by_ordinal(o).is_ok(), "the ordinal of an index leads back to it") }
                Err(_) => ensure!(i.0 as usize >= t.addresses().len(), "every address has an ordinal"),
            }
            let o = ExportOrdinal(any());
            if let Ok(j) = t.index_from_ordinal(o) { ensure!(t.ordinal_from_index(j) == Ok(o), "the index of an ordinal leads back to it") }
        }
    }
    fn export_addresses() {
        let d = any_bytes::<256>();
        if let Ok(t) = ExportTable::parse(d, any()) {
            if let Some((i, o, a)) = t.address_iter().next() { reach!(o.0 > 100, "an export"); ensure!(i.0 == 0 && o.0 == t.ordinal_base() && a == t.addresses()[0].get(LE), "the first address has the base ordinal") }
            if let Some((p, i)) = t.name_iter().next() { ensure!(p == t.name_pointers()[0].get(LE) && i.0 == t.name_ordinals()[0].get(LE).0, "names in order") }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn export_strings() {
        let d = any_bytes::<256>();
        if let Ok(t) = ExportTable::parse(d, any()) {
            let a: u32 = any();
            if let Ok(Some(n)) = t.forward_string(a) { reach!(n.len() > 10, "a forwarded export"); inside!(n, d); ensure!(t.is_forward(a), "forwarded") }
            if let Ok(n) = t.name_from_pointer(a) { inside!(n, d) }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import_descriptors() {
        let d = any_bytes::<256>();
        let t = ImportTable::new(d, any(), any());
        descriptors!(t, d, name)
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import_hint() { let d = any_bytes::<256>(); let t = ImportTable::new(d, any(), any()); hint!(t, d) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import_thunks32() { let d = any_bytes::<256>(); let t = ImportTable::new(d, any(), any()); thunks!(t, pe::ImageNtHeaders32, d) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import_thunks64() { let d = any_bytes::<256>(); let t = ImportTable::new(d, any(), any()); thunks!(t, pe::ImageNtHeaders64, d) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn delay_descriptors() {
        let d = any_bytes::<256>();
        let t = DelayLoadImportTable::new(d, any(), any());
        descriptors!(t, d, dll_name_rva)
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn delay_hint() { let d = any_bytes::<256>(); let t = DelayLoadImportTable::new(d, any(), any()); hint!(t, d) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn delay_thunks32() { let d = any_bytes::<256>(); let t = DelayLoadImportTable::new(d, any(), any()); thunks!(t, pe::ImageNtHeaders32, d) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn delay_thunks64() { let d = any_bytes::<256>(); let t = DelayLoadImportTable::new(d, any(), any()); thunks!(t, pe::ImageNtHeaders64, d) }
    /// The first base relocation block of any table.
    fn base_relocations() {
        let d = any_bytes::<256>();
        let mut it = RelocationBlockIterator::new(d);
        let r = it.next();
        reach!(matches!(&r, Ok(Some(b)) if b.size() > 100), "a block");
        match &r {
            Ok(Some(b)) => ensure!(b.size() > 8 && b.size() as usize <= d.len(), "a block is inside the table"),
            Ok(None) => ensure!(d.is_empty(), "only an empty table has no block"),
            Err(_) => ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"),
        }
    }
    fn resources() {
        let d = any_bytes::<256>();
        let r = ResourceDirectory::new(d);
        if let Ok(t) = r.root() {
            inside!(bytes_of(t.header), d);
            inside!(bytes_of_slice(t.entries), d);
            ensure!(t.entries.len() == t.header.number_of_id_entries.get(LE) as usize + t.header.number_of_named_entries.get(LE) as usize, "as many entries as declared");
        }
        let x = any_pod!(pe::ImageResourceDirectoryEntry);
        match x.data(r) {
            Ok(ResourceDirectoryEntryData::Table(t)) => { reach!(t.entries.len() > 10, "a table"); inside!(bytes_of(t.header), d); inside!(bytes_of_slice(t.entries), d) }
            Ok(ResourceDirectoryEntryData::Data(t)) => inside!(bytes_of(t), d),
            Err(_) => {}
        }
        if let ResourceNameOrId::Name(n) = x.name_or_id() {
            if let Ok(b) = n.raw_data(r) { reach!(b.len() > 100, "a name"); inside!(b, d) }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn import_object() {
        let d = any_bytes::<256>();
        let mut off: u64 = any();
        if let Ok(h) = pe::ImportObjectHeader::parse(d, &mut off) {
            inside!(bytes_of(h), d);
            if let Ok(x) = h.parse_data(d, &mut off) {
                reach!(x.symbol().len() > 10, "names");
                inside!(x.symbol(), d);
                inside!(x.dll(), d);
                if let Some(e) = x.export() { inside!(e, d) }
            }
        }
    }
}

#[cfg(not(kani))]
pub mod low {
    use super::*;
    use crate::craft::*;
    use crate::fuzz::*;

    const VA: u32 = 0x1000;
    /// An image with one of everything.  The contents of the second section are at VA.
    pub fn image(wide: bool) -> Vec<u8> {
        let mut s = W::new(false, wide);
        let put = |s: &mut W, n: usize, f: &mut dyn FnMut(&mut W)| { assert!(s.b.len() <= n); s.pad(n); f(s); };
        let ord = if wide { 1u64 << 63 } else { 1 << 31 };
        // 0: exports
        s.u32(0).u32(0).u16(0).u16(0).u32(VA + 0x80).u32(if uni(4) == 0 { 0xfffc } else { 1 }).u32(4).u32(2).u32(VA + 0x28).u32(VA + 0x40).u32(VA + 0x50);
        put(&mut s, 0x28, &mut |w| { w.u32(0x100).u32(VA + 0x60).u32(VA + 0x6c).u32(0); });
        put(&mut s, 0x40, &mut |w| { w.u32(VA + 0x78).u32(VA + 0x7c); });
        put(&mut s, 0x50, &mut |w| { w.u16(0).u16(1); });
        put(&mut s, 0x60, &mut |w| { w.bytes(format!("lib.#{}\0", match uni(8) { 0 => 65530 + uni(10), 1 => 99990 + uni(20), 2 => uni(200000), _ => 123 }).as_bytes()); });
        put(&mut s, 0x6c, &mut |w| { w.bytes(b"lib.func\0"); });
        put(&mut s, 0x78, &mut |w| { w.bytes(b"foo\0bar\0me.dll\0"); });
        // 0xa0: imports
        put(&mut s, 0xa0, &mut |w| { w.u32(VA + 0x100).u32(0).u32(0).u32(VA + 0xe0).u32(VA + 0x120); w.u32(0).u32(0).u32(0).u32(VA + 0xe0).u32(VA + 0x120).pad(0xdc); });
        put(&mut s, 0xe0, &mut |w| { w.bytes(b"k.dll\0\0\0\x05\0name\0"); });
        for at in [0x100, 0x120] { put(&mut s, at, &mut |w| { w.word(VA as u64 + 0xe8).word(ord | 7).word(0); }); }
        // 0x140: delay-load imports
        put(&mut s, 0x140, &mut |w| { w.u32(1).u32(VA + 0xe0).u32(0).u32(VA + 0x120).u32(VA + 0x100).u32(0).u32(0).u32(0).pad(0x180); });
        // 0x180: base relocations
        put(&mut s, 0x180, &mut |w| { w.u32(VA).u32(16).u16(0xa008).u16(0x3010).u16(0).u16(0); w.u32(VA + 0x1000).u32(12).u16(0xa000).u16(0); });
        // 0x1a0: resources
        put(&mut s, 0x1a0, &mut |w| {
            w.u32(0).u32(0).u32(0).u16(1).u16(1).u32(0x8000_0060).u32(0x8000_0020).u32(5).u32(0x50);
            w.u32(0).u32(0).u32(0).u16(0).u16(1).u32(1).u32(0x50).u32(0).u32(0);
            w.pad(0x1f0).u32(VA + 0x40).u32(4).u32(0).u32(0);
            w.pad(0x200).u16(3).u16(65).u16(66).u16(67);
        });
        // 0x220: debug directory; the record is in the file at 0x400 + 0x240
        put(&mut s, 0x220, &mut |w| { w.u32(0).u32(0).u16(0).u16(0).u32(2).u32(0x1c).u32(VA + 0x240).u32(0x640); });
        put(&mut s, 0x240, &mut |w| { w.bytes(b"RSDS").bytes(&[7; 16]).u32(1).bytes(b"x.pdb\0"); });
        s.pad(0x280);
        let mut w = W::new(false, wide);
        // DOS header, rich header, NT headers
        w.bytes(b"MZ").pad(0x3c).u32(0xc0);
        let key = 0x1234_5678u32;
        w.pad(0x80).u32(0x536e_6144 ^ key).u32(key).u32(key).u32(key).u32(1 ^ key).u32(2 ^ key).u32(3 ^ key).u32(4 ^ key).bytes(b"Rich").u32(key);
        w.pad(0xc0).bytes(b"PE\0\0");
        let (nsec, dirs, symoff) = (3u16, 16u32, 0x700);
        let opt = if wide { 112 } else { 96 } + dirs as u16 * 8;
        w.u16(if wide { 0x8664 } else { 0x14c }).u16(nsec).u32(0).u32(symoff).u32(3).u16(opt).u16(0x22);
        w.u16(if wide { 0x20b } else { 0x10b }).u8(0).u8(0).u32(0x200).u32(0x200).u32(0).u32(VA).u32(VA);
        if !wide { w.u32(VA); }
        w.word(0x40_0000).u32(0x1000).u32(0x200).u16(6).u16(0).u16(0).u16(0).u16(6).u16(0).u32(0).u32(0x4000).u32(0x400).u32(0).u16(3).u16(0);
        w.word(0x1000).word(0x1000).word(0x1000).word(0x1000).u32(0).u32(dirs);
        for (a, n) in [(0, 0xa0), (0xa0, 60), (0x1a0, 0x80), (0, 0), (0, 0), (0x180, 28), (0x220, 28), (0, 0), (0, 0), (0, 0), (0, 0), (0, 0), (0, 0), (0x140, 64), (0, 0), (0, 0)] {
            w.u32(if n == 0 { 0 } else { VA + a }).u32(n);
        }
        for (name, vs, va, rs, ro, fl) in [(*b".data\0\0\0", 0x280u32, VA, 0x280u32, 0x400u32, 0xc000_0040u32), (*b"/4\0\0\0\0\0\0", 0x1000, 0x2000, 0x80, 0x680, 0x6000_0020), (*b".bss\0\0\0\0", 0x100, 0x3000, 0, 0, 0xc000_0080)] {
            w.bytes(&name).u32(vs).u32(va).u32(rs).u32(ro).u32(0).u32(0).u16(0).u16(0).u32(fl);
        }
        w.pad(0x400).bytes(&s.b).pad(symoff as usize);
        symbols(&mut w, false);
        w.u32(0x30).bytes(b".debug_info_and_more\0long_symbol\0").pad(symoff as usize + 3 * 18 + 0x30);
        w.b
    }
    /// Three records: a section symbol with an auxiliary record, and an external symbol.
    fn symbols(w: &mut W, big: bool) {
        w.bytes(b".text\0\0\0").u32(0);
        if big { w.u32(1); } else { w.u16(1); }
        w.u16(0).u8(3).u8(1);
        w.u32(0x10).u16(0).u16(0).u32(0).u16(1).u8(2).u8(0).u16(0);
        if big { w.u16(0); }
        w.u32(0).u32(4).u32(8);
        if big { w.u32(2); } else { w.u16(2); }
        w.u16(0x20).u8(2).u8(0);
    }
    pub fn object(big: bool) -> Vec<u8> {
        let machine = [0x14cu16, 0x8664, 0x1c4, 0xaa64, 0xa641, 0x200][uni(6) as usize];
        let hdr = coff_hdr_len(4, big) as u32;
        let mut w = W::new(false, false);
        w.bytes(&[0x90; 16]);
        let rel = hdr + w.b.len() as u32;
        for i in 0..4 { w.u32(4 * i).u32(i % 3).u16(uni(0x15) as u16); }
        let ext = hdr + w.b.len() as u32;
        w.u32(3).u32(0).u16(0).u32(0).u32(2).u16(6).u32(8).u32(2).u16(3);
        let z = hdr + w.b.len() as u32;
        w.bytes(b"ZLIB\0\0\0\0\0\0\0\x09compress");
        let secs = [
            Cs { name: name8(".text"), rsize: 16, roff: hdr, reloff: rel, nrel: 4, flags: 0x6050_1020, ..Default::default() },
            Cs { name: name8(".data"), rsize: 16, roff: hdr, reloff: ext, nrel: 0xffff, flags: 0xc150_1040, ..Default::default() },
            Cs { name: name8(if uni(2) == 0 { "//AAAAAE" } else { "/4" }), rsize: 20, roff: z, flags: 0x4200_0040, ..Default::default() },
            Cs { name: name8(".bss"), rsize: 0x100, flags: 0xc000_0080, ..Default::default() },
        ];
        let mut s = W::new(false, false);
        let num = |s: &mut W, v: i32| { if big { s.u32(v as u32); } else { s.u16(v as u16); } };
        let fin = |s: &mut W| if big { s.u16(0); };
        let aux = |s: &mut W, len: u32, n: u16, sel: u8| { s.u32(len).u16(0).u16(0).u32(0).u16(n).u8(sel).u8(0).u16(0); if big { s.u16(0); } };
        // file name
        s.bytes(b".file\0\0\0").u32(0); num(&mut s, -2); s.u16(0).u8(0x67).u8(1);
        s.bytes(b"some_file_name.cpp"); fin(&mut s);
        // comdat section symbols
        s.bytes(b".text\0\0\0").u32(0); num(&mut s, 1); s.u16(0).u8(3).u8(1); aux(&mut s, 16, 1, 1 + uni(7) as u8);
        s.bytes(b".data\0\0\0").u32(0); num(&mut s, 2); s.u16(0).u8(3).u8(1); aux(&mut s, 16, 1, 5);
        // a function, with its size
        s.u32(0).u32(24).u32(8); num(&mut s, 1); s.u16(0x20).u8(2).u8(1);
        s.u32(0).u32(12).u32(0).u32(0).u16(0); fin(&mut s);
        // weak external, common, undefined, absolute, label
        s.bytes(b"weak\0\0\0\0").u32(0); num(&mut s, 0); s.u16(0).u8(105).u8(1); s.u32(2).u32(1).u32(0).u32(0).u16(0); fin(&mut s);
        for (v, n, c) in [(8u32, 0, 2u8), (0, 0, 2), (5, -1, 3), (4, 2, 6), (0, 3, 104)] { s.bytes(b"sym\0\0\0\0\0").u32(v); num(&mut s, n); s.u16(0).u8(c).u8(0); }
        let n = s.b.len() as u32 / if big { 20 } else { 18 };
        coff(machine, &secs, &w.b, n, &s.b, b".zdebug_info_long\0\0\0long_name\0", big)
    }
    macro_rules! all { ($it:expr, $n:expr) => { for x in $it.take($n) { let _ = x; } } }
    pub fn walk_image<P: ImageNtHeaders>(d: &'static [u8]) {
        let _ = optional_header_magic(d);
        let Ok(f) = PeFile::<P>::parse(d) else { return };
        let (t, dirs) = (f.section_table(), f.data_directories());
        let _ = (f.dos_header().nt_headers_offset(), t.max_section_file_offset(), f.nt_headers().optional_header().base_of_data());
        if let Some(r) = f.rich_header_info() {
            ensure!(r.offset <= d.len() && r.length <= d.len() - r.offset, "the rich header is inside the file");
            all!(r.unmasked_entries(), 1000);
        }
        for (_, x) in dirs.enumerate().take(100) {
            okb(x.data(d, &t), d);
            // a section with invalid data is passed over when the data is asked for
            let whole = t.pe_file_range_at(x.address_range().0).is_some_and(|(o, n)| o as usize + n as usize <= d.len());
            if let (Ok((o, n)), true) = (x.file_range(&t), whole) { ensure!(x.data(d, &t).map_or(true, |b| is_read(b, d, o.into(), n.into())), "the data is at the file range"); }
            let _ = x.address_range();
        }
        let at = value(VA as u64, 4, d, false) as u32;
        if let Some(b) = t.pe_data_at(d, at) { ensure!(inside(b, d), "data at an address") }
        if let Some((b, _)) = t.pe_data_containing(d, at) { ensure!(inside(b, d), "data containing an address") }
        let _ = (t.section_containing(at).map(|s| s.contains_rva(at)), t.pe_file_range_at(at), f.data_directory(value(2, 4, d, false) as usize).map(|x| x.size));
        if let Ok(Some(x)) = dirs.export_directory(d, &t) { ensure!(inside(bytes_of(x), d), "export directory") }
        if let Ok(Some(x)) = f.export_table() {
            for (i, o, a) in x.address_iter().take(2000) {
                let _ = (x.ordinal_from_index(i), x.target_by_index(i).is_ok(), x.is_forward(a));
                if let Ok(y) = x.target_by_ordinal(o) { match y {
                    ExportTarget::Address(_) => ensure!(y.is_address(), "kind"),
                    ExportTarget::ForwardByOrdinal(l, _) => ensure!(inside(l, d), "library name"),
                    ExportTarget::ForwardByName(l, n) => ensure!(inside(l, d) && inside(n, d) && y.is_forward(), "forwarded name"),
                } }
                oko(x.forward_string(a), d);
            }
            for (p, i) in x.name_iter().take(2000) { okb(x.name_from_pointer(p), d); let _ = x.address_by_index(i); }
            if let Ok(v) = x.exports() { for e in v.iter().take(2000) { if let Some(n) = e.name { ensure!(inside(n, d), "export name") } } }
        }
        if let Ok(Some(x)) = f.import_table() {
            if let Ok(mut it) = x.descriptors() { while let Ok(Some(y)) = it.next() {
                okb(x.name(y.name.get(LE)), d);
                for a in [y.original_first_thunk.get(LE), y.first_thunk.get(LE)] { if let Ok(mut l) = x.thunks(a) {
                    let _ = l.get::<P>(value(1, 8, d, false) as usize);
                    while let Ok(Some(z)) = l.next::<P>() { if let Ok(Import::Name(_, n)) = x.import::<P>(z) { ensure!(inside(n, d), "import name") } }
                } }
            } }
        }
        if let Ok(Some(x)) = f.delay_load_import_table() {
            if let Ok(mut it) = x.descriptors() { while let Ok(Some(y)) = it.next() {
                okb(x.name(y.dll_name_rva.get(LE)), d);
                if let Ok(mut l) = x.thunks(y.import_name_table_rva.get(LE)) {
                    while let Ok(Some(z)) = l.next::<P>() { if let Ok(Import::Name(_, n)) = x.import::<P>(z) { ensure!(inside(n, d), "import name") } }
                }
            } }
        }
        if let Ok(Some(mut it)) = dirs.relocation_blocks(d, &t) {
            loop { match it.next() {
                Ok(Some(b)) => all!(b, 2000),
                Ok(None) => break,
                Err(_) => { ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"); break }
            } }
        }
        if let Ok(Some(r)) = dirs.resource_directory(d, &t) { if let Ok(x) = r.root() { resources(r, &x, d, 0) } }
    }
    fn resources(r: ResourceDirectory<'static>, t: &ResourceDirectoryTable<'static>, d: &[u8], depth: u32) {
        ensure!(inside(bytes_of_slice(t.entries), d), "resource entries");
        for e in t.entries.iter().take(20) {
            let _ = (e.has_name(), e.is_table());
            if let Some(n) = e.name_or_id().name() { if let Ok(b) = n.raw_data(r) { ensure!(inside(b, d), "resource name") } let _ = n.to_string_lossy(r); }
            let _ = e.name_or_id().id();
            match e.data(r) {
                Ok(ResourceDirectoryEntryData::Table(x)) => if depth < 3 { resources(r, &x, d, depth + 1) },
                Ok(x) => { if let Some(y) = x.clone().data() { ensure!(inside(bytes_of(y), d), "resource entry") } let _ = x.table().is_none(); }
                Err(_) => {}
            }
        }
    }
    pub fn images() {
        let wide = uni(2) == 0;
        let mut v = image(wide);
        damage_parts(&mut v);
        let d = settle(v);
        walk_image::<pe::ImageNtHeaders32>(d);
        walk_image::<pe::ImageNtHeaders64>(d);
        any_file(d);
    }
    /// Half of the damage goes to the directories' contents.
    fn damage_parts(d: &mut Vec<u8>) {
        if uni(2) == 0 { return damage(d, false) }
        let (a, b) = [(0xc0, 0x250), (0x400, 0x680), (0x400, 0x540), (0x700, 0x740), (0x80, 0xc0)][uni(5) as usize];
        for _ in 0..1 + uni(3) {
            let n = [1, 2, 4, 4, 4, 8][uni(6) as usize];
            if d.len() < b { return }
            let p = a + uni((b - a - n) as u64 + 1) as usize & !(n.min(4) - 1);
            let cur = load(&d[p..p + n], false);
            // addresses inside the section are the interesting values
            let v = if uni(3) == 0 { VA as u64 + uni(0x284) } else { value(cur, n, d, false) };
            store(&mut d[p..p + n], v, false);
        }
    }
    pub fn objects() {
        let big = uni(2) == 0;
        let mut v = object(big);
        damage(&mut v, false);
        let d = settle(v);
        walk_object::<pe::ImageFileHeader>(d);
        walk_object::<pe::AnonObjectHeaderBigobj>(d);
        any_file(d);
    }
    fn walk_object<C: CoffHeader>(d: &'static [u8]) {
        let _ = anon_object_class_id(d);
        let mut off = 0;
        let Ok(h) = C::parse(d, &mut off) else { return };
        let (sec, sym) = (h.sections(d, off), h.symbols(d));
        if let Ok(t) = &sym {
            for (i, s) in t.iter().take(500) {
                okb(s.name(t.strings()), d);
                okb(t.aux_file_name(i, s.number_of_aux_symbols()), d);
                let _ = (t.aux_function(i).is_ok(), t.aux_section(i).is_ok(), t.aux_weak_external(i).map(|w| w.default_symbol()).is_ok());
                if let Ok(x) = &sec { let _ = s.address(1, x); }
                let _ = (s.is_definition(), s.has_aux_file_name(), s.has_aux_function(), s.has_aux_weak_external(), s.base_type(), s.derived_type(), s.section());
            }
            let _ = t.map(|s| Some(object::read::SymbolMapName::new(s.value().into(), 0, "x"))).symbols().len();
            let _ = t.is_empty();
        }
        if let Ok(x) = &sec {
            let _ = (x.max_section_file_offset(), x.is_empty(), x.section(SectionIndex(value(1, 8, d, false) as usize)).is_ok());
            for (_, s) in x.enumerate().take(500) {
                okb(s.coff_data(d), d);
                if let Ok(r) = s.coff_relocations(d) { ensure!(inside(bytes_of_slice(r), d), "relocations"); if let Some(r) = r.first() { let _ = r.symbol(); } }
                let _ = (s.coff_alignment(), s.coff_file_range(), s.name_offset());
                if let Ok(t) = &sym { okb(s.name(t.strings()), d); let _ = x.section_by_name(t.strings(), b".data"); }
            }
        }
        if let Ok(f) = CoffFile::<&[u8], C>::parse(d) {
            let _ = (f.coff_header().machine(), f.coff_section_table().len(), f.coff_symbol_table().len());
            use object::read::Object;
            for s in f.sections().take(100) { let _ = s.coff_relocations(); }
        }
    }
    pub fn imports() {
        let mut w = W::new(false, false);
        let t = uni(4) as u16 | (uni(6) as u16) << 2;
        let sym: &[u8] = [&b"?foo@@YAX@12"[..], b"_bar@8", b"x", b"@f", b""][uni(5) as usize];
        let mut n = W::new(false, false);
        n.bytes(sym).u8(0).bytes(b"k.dll\0");
        if uni(2) == 0 { n.bytes(b"other\0"); }
        w.u16(0).u16(0xffff).u16(0).u16([0x14cu16, 0x8664, 0x1c4, 0xaa64, 0xa641, 1][uni(6) as usize]).u32(0).u32(n.b.len() as u32).u16(3).u16(t).bytes(&n.b);
        damage(&mut w.b, false);
        let d = settle(w.b);
        if let Ok(f) = ImportFile::parse(d) {
            ensure!(inside(f.symbol(), d) && inside(f.dll(), d), "names");
            if let ImportName::Name(n) = f.import() { ensure!(inside(n, d), "import name") }
            let _ = (f.architecture(), f.sub_architecture(), f.import_type());
        }
        let mut o = 0;
        if let Ok(h) = pe::ImportObjectHeader::parse(d, &mut o) { if let Ok(x) = h.parse_data(d, &mut o) { oko(Ok::<_, ()>(x.export()), d); ensure!(inside(x.dll(), d), "name") } }
        any_file(d);
    }
}
natives! {
    /// Damaged PE images with every data directory.
    fn images() { low::images() }
    /// Damaged COFF objects, regular and big.
    fn objects() { low::objects() }
    /// Damaged short import objects.
    fn imports() { low::imports() }
}
