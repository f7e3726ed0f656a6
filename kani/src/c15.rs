//! COFF and PE writers against the COFF and PE readers.
use crate::shim::*;
use object as obj;
use object::read::coff::{CoffHeader as _, SectionTable, SymbolTable};
use object::read::pe::{ImageNtHeaders as _, ImageOptionalHeader as _};
use object::write::{coff as w, pe as p, WritableBuffer};
use object::{pe, pod, LittleEndian as LE, SymbolIndex, U16, U32};

/// A file of at most N bytes; `asked` is the length that was asked for.
struct Sink<const N: usize> { b: [u8; N], n: usize, asked: Option<u64> }
impl<const N: usize> Sink<N> {
    fn new() -> Self { Sink { b: [0xa5; N], n: 0, asked: None } }
}
impl<const N: usize> WritableBuffer for Sink<N> {
    fn reserve(&mut self, size: u64) -> Result<(), ()> { self.asked = Some(size); Ok(()) }
    fn write_bytes(&mut self, val: &[u8]) { self.b[self.n..][..val.len()].copy_from_slice(val); self.n += val.len(); }
    fn write_zeros(&mut self, n: u64) { for i in 0..n as usize { self.b[self.n + i] = 0 } self.n += n as usize; }
}
#[allow(dead_code)]
static mut OFFSET: u32 = 0;
/// The position of a string is any number.
#[allow(dead_code)]
struct Any<'a>(core::marker::PhantomData<&'a ()>);
#[allow(dead_code)]
impl<'a> Any<'a> {
    fn offset(_: &object::write::StringTable<'a>, _: object::write::StringId) -> u32 { unsafe { OFFSET } }
}
macro_rules! eqs { ($r:expr, $h:expr; $($f:ident),*) => { $( ensure!($r.$f.get(LE) == $h.$f, concat!("field ", stringify!($f), " is read back unchanged")); )* } }
macro_rules! rec { ($t:ty, $s:expr) => { match pod::from_bytes::<$t>(&$s.b) { Ok((r, _)) if $s.n == core::mem::size_of::<$t>() => r, _ => { ensure!(false, "a whole record is written"); return } } } }

fn any_section() -> w::SectionHeader {
    w::SectionHeader { name: w::Name::Short(any_array()), size_of_raw_data: any(), pointer_to_raw_data: any(), pointer_to_relocations: any(), pointer_to_linenumbers: any(), number_of_relocations: any(), number_of_linenumbers: any(), characteristics: pe::SectionFlags(any()) }
}
/// A section header whose name is at `offset` of the strings.
fn long_name(offset: u32) {
    unsafe { OFFSET = offset }
    let mut s: Sink<40> = Sink::new();
    let mut h = any_section();
    { let mut wr = w::Writer::new(&mut s); h.name = w::Name::Long(unsafe { core::mem::transmute(0u32) }); wr.write_section_header(h.clone()); }
    let r = rec!(pe::ImageSectionHeader, s);
    ensure!(r.name_offset() == Ok(Some(offset)), "the name is read from where it is");
    eqs!(r, h; size_of_raw_data, characteristics);
}
fn power(below: u32) -> u32 { let b = any::<u8>() as u32; assume(b < below); 1 << b }
fn up(v: u32, a: u32) -> u32 { let m = a - 1; if v & m == 0 { v } else { (v | m) + 1 } }
fn any_nt() -> p::NtHeaders {
    p::NtHeaders { machine: pe::Machine(any()), time_date_stamp: any(), characteristics: pe::FileFlags(any()), major_linker_version: any(), minor_linker_version: any(), address_of_entry_point: any(), image_base: any(), major_operating_system_version: any(), minor_operating_system_version: any(), major_image_version: any(), minor_image_version: any(), major_subsystem_version: any(), minor_subsystem_version: any(), subsystem: pe::Subsystem(any()), dll_characteristics: pe::DllFlags(any()), size_of_stack_reserve: any(), size_of_stack_commit: any(), size_of_heap_reserve: any(), size_of_heap_commit: any() }
}
macro_rules! nt_headers { ($t:ident, $is64:literal, $len:literal, $word:ty) => {{
    let (sa, fa) = (power(17), power(17));
    let mut s: Sink<$len> = Sink::new();
    let mut h = any_nt();
    if !$is64 { h.image_base = any::<u32>() as u64; h.size_of_stack_reserve = any::<u32>() as u64; h.size_of_stack_commit = any::<u32>() as u64; h.size_of_heap_reserve = any::<u32>() as u64; h.size_of_heap_commit = any::<u32>() as u64; }
    let n: u16 = any();
    let (va, size): (u32, u32) = (any(), any());
    let (code, data): (u32, u32) = (any(), any());
    assume(code < 1 << 24 && data < 1 << 24);
    let (at, c, d, end, heads);
    {
        let mut wr = p::Writer::new($is64, sa, fa, &mut s);
        wr.reserve_dos_header();
        wr.reserve_nt_headers(2);
        at = wr.nt_headers_offset();
        wr.set_data_directory(1, va, size);
        ensure!(wr.reserved_len() == $len, "room for the NT headers");
        wr.reserve_section_headers(n);
        heads = wr.reserved_len() as u32;
        ensure!(heads == up($len + 40 * n as u32, fa), "headers end at the file alignment");
        ensure!(wr.virtual_len() == up(heads, sa), "sections start after the headers");
        c = wr.reserve_section([0; 8], pe::IMAGE_SCN_CNT_CODE, code, code);
        d = wr.reserve_section([1; 8], pe::IMAGE_SCN_CNT_INITIALIZED_DATA, data, 0);
        end = wr.virtual_len();
        ensure!(wr.write_empty_dos_header().is_ok(), "the DOS header is written");
        wr.write_nt_headers(h.clone());
        ensure!(wr.len() == $len, "the NT headers are written");
    }
    let dos = match pe::ImageDosHeader::parse(&s.b[..]) { Ok(r) => r, Err(_) => { ensure!(false, "the DOS header is read"); return } };
    ensure!(dos.nt_headers_offset() == at && at == 64, "where the NT headers are");
    let mut off = dos.nt_headers_offset() as u64;
    let (r, dirs) = match pe::$t::parse(&s.b[..], &mut off) { Ok(r) => r, Err(_) => { ensure!(false, "the NT headers are read"); return } };
    ensure!(off == $len, "the section headers follow");
    let (f, o) = (&r.file_header, &r.optional_header);
    eqs!(f, h; machine, time_date_stamp, characteristics);
    ensure!(f.number_of_sections.get(LE) == n && f.pointer_to_symbol_table.get(LE) == 0 && f.number_of_symbols.get(LE) == 0, "counts");
    eqs!(o, h; address_of_entry_point, major_operating_system_version, minor_operating_system_version, major_image_version, minor_image_version, major_subsystem_version, minor_subsystem_version, subsystem, dll_characteristics);
    ensure!(o.major_linker_version == h.major_linker_version && o.minor_linker_version == h.minor_linker_version, "linker version");
    ensure!(o.image_base() == h.image_base && o.size_of_stack_reserve() == h.size_of_stack_reserve && o.size_of_stack_commit() == h.size_of_stack_commit && o.size_of_heap_reserve() == h.size_of_heap_reserve && o.size_of_heap_commit() == h.size_of_heap_commit, "words");
    ensure!(o.section_alignment() == sa && o.file_alignment() == fa, "alignments");
    ensure!(o.size_of_code() == up(code, fa) && o.size_of_initialized_data() == up(data, fa) && o.size_of_uninitialized_data() == 0, "sizes by kind");
    ensure!(o.base_of_code() == c.virtual_address && (c.virtual_address, d.virtual_address) == (up(heads, sa), up(up(heads, sa) + code, sa)), "base addresses");
    ensure!(o.size_of_image() == end && o.size_of_headers() == heads, "sizes of the image and the headers");
    ensure!(o.win32_version_value() == 0 && o.check_sum() == 0 && o.loader_flags() == 0, "reserved fields");
    ensure!(o.number_of_rva_and_sizes() == 2 && dirs.len() == 2, "data directories");
    ensure!(dirs.get(0).is_none() && match dirs.get(1) { Some(e) => e.address_range() == (va, size), None => va == 0 }, "a data directory is read back unchanged");
}} }

harnesses! {
    /// The header of an object file.
    [kani::stub(std::hash::RandomState::new, fixed_random_state)]
    fn coff_header() {
        let mut s: Sink<20> = Sink::new();
        let h = w::FileHeader { machine: pe::Machine(any()), time_date_stamp: any(), characteristics: pe::FileFlags(any()) };
        let (n, syms): (u16, u32) = (any(), any());
        assume(syms < 1 << 27);
        {
            let mut wr = w::Writer::new(&mut s);
            wr.reserve_file_header();
            wr.reserve_section_headers(n);
            wr.reserve_symbol_indices(syms);
            ensure!(wr.symbol_count() == syms && wr.reserved_len() == 20 + 40 * n as u64, "reserved");
            ensure!(wr.reserve_symtab_strtab().is_ok(), "reserved");
            ensure!(wr.reserved_len() == 24 + 40 * n as u64 + 18 * syms as u64, "the strings follow the symbols");
            ensure!(wr.write_file_header(h.clone()).is_ok(), "written");
        }
        ensure!(s.asked == Some(24 + 40 * n as u64 + 18 * syms as u64), "the whole length is asked for");
        let r = rec!(pe::ImageFileHeader, s);
        eqs!(r, h; machine, time_date_stamp, characteristics);
        ensure!(r.number_of_sections() as u16 == n && r.number_of_symbols() == syms && r.pointer_to_symbol_table.get(LE) == 20 + 40 * n as u32 && r.size_of_optional_header.get(LE) == 0, "counts and positions");
    }
    /// A section header with its name inside.
    [kani::stub(std::hash::RandomState::new, fixed_random_state)]
    fn coff_section() {
        let mut s: Sink<40> = Sink::new();
        let h = any_section();
        { let mut wr = w::Writer::new(&mut s); wr.write_section_header(h.clone()); }
        let r = rec!(pe::ImageSectionHeader, s);
        if let w::Name::Short(n) = h.name { ensure!(r.name == n, "name"); }
        eqs!(r, h; size_of_raw_data, pointer_to_raw_data, pointer_to_relocations, pointer_to_linenumbers, characteristics);
        ensure!(r.virtual_size.get(LE) == 0 && r.virtual_address.get(LE) == 0, "no address");
        ensure!(r.number_of_relocations.get(LE) as u32 == if h.number_of_relocations > 0xffff { 0xffff } else { h.number_of_relocations }, "the number of relocations or its escape");
        ensure!(r.number_of_linenumbers.get(LE) == h.number_of_linenumbers, "the number of line numbers");
    }
    /// A name at any position that six base-64 digits are needed for.
    [kani::stub(std::hash::RandomState::new, fixed_random_state), kani::stub(obj::write::StringTable::get_offset, Any::offset)]
    fn section_name_base64() {
        let offset: u32 = any();
        assume(offset > 9_999_999);
        if cfg!(kani) { long_name(offset) }
    }
    /// A name at any position that decimal digits suffice for.
    [kani::stub(std::hash::RandomState::new, fixed_random_state), kani::stub(obj::write::StringTable::get_offset, Any::offset)]
    fn section_name_decimal() {
        let offset: u32 = any();
        assume(offset <= 9_999_999);
        if cfg!(kani) { long_name(offset) }
    }
    /// More relocations than the section header can count.
    [kani::stub(std::hash::RandomState::new, fixed_random_state)]
    fn relocation_count() {
        let mut s: Sink<10> = Sink::new();
        let n = any::<u32>();
        assume(n < u32::MAX);
        { let mut wr = w::Writer::new(&mut s); wr.write_relocations_count(n as usize); }
        if n <= 0xffff { ensure!(s.n == 0, "the header counts"); return }
        let r = rec!(pe::ImageRelocation, s);
        ensure!(r.virtual_address.get(LE) == n + 1 && r.symbol_table_index.get(LE) == 0 && r.typ.get(LE).0 == 0, "the count includes itself");
    }
    [kani::stub(std::hash::RandomState::new, fixed_random_state)]
    fn relocation() {
        let mut s: Sink<10> = Sink::new();
        let v = w::Relocation { virtual_address: any(), symbol: any(), typ: pe::RelocationType(any()) };
        { let mut wr = w::Writer::new(&mut s); wr.write_relocation(v.clone()); }
        let r = rec!(pe::ImageRelocation, s);
        eqs!(r, v; virtual_address, typ);
        ensure!(r.symbol() == SymbolIndex(v.symbol as usize), "symbol");
    }
    [kani::stub(std::hash::RandomState::new, fixed_random_state), kani::stub(obj::write::StringTable::get_offset, Any::offset)]
    fn symbol() {
        let mut s: Sink<18> = Sink::new();
        let off: u32 = any();
        unsafe { OFFSET = off }
        let long = cfg!(kani) && any_bool();
        let name: [u8; 8] = any_array();
        let v = w::Symbol { name: if long { w::Name::Long(unsafe { core::mem::transmute(0u32) }) } else { w::Name::Short(name) }, value: any(), section_number: pe::SymbolSection(any::<i16>() as i32), typ: pe::SymbolType(any()), storage_class: pe::SymbolClass(any()), number_of_aux_symbols: any() };
        { let mut wr = w::Writer::new(&mut s); wr.write_symbol(v.clone()); }
        let r = rec!(pe::ImageSymbol, s);
        eqs!(r, v; value, typ);
        ensure!(r.section_number.get(LE) as i16 as i32 == v.section_number.0 && r.storage_class == v.storage_class && r.number_of_aux_symbols == v.number_of_aux_symbols, "section, class and auxiliary records");
        if long { ensure!(r.name[..4] == [0; 4] && u32::from_le_bytes([r.name[4], r.name[5], r.name[6], r.name[7]]) == off, "the position of the name"); } else { ensure!(r.name == name, "name"); }
    }
    [kani::stub(std::hash::RandomState::new, fixed_random_state)]
    fn aux_section() {
        let mut s: Sink<18> = Sink::new();
        let v = w::AuxSymbolSection { length: any(), number_of_relocations: any(), number_of_linenumbers: any(), check_sum: any(), number: any(), selection: pe::ComdatSelection(any()) };
        { let mut wr = w::Writer::new(&mut s); ensure!(wr.reserve_aux_section() == 1 && wr.symbol_count() == 1, "one record"); wr.write_aux_section(v.clone()); }
        let r = rec!(pe::ImageAuxSymbolSection, s);
        eqs!(r, v; length, number_of_linenumbers, check_sum);
        ensure!(r.selection == v.selection && r.number.get(LE) as u32 | (r.high_number.get(LE) as u32) << 16 == v.number, "selection and section");
        ensure!(r.number_of_relocations.get(LE) as u32 == if v.number_of_relocations > 0xffff { 0xffff } else { v.number_of_relocations }, "the number of relocations or its escape");
    }
    [kani::stub(std::hash::RandomState::new, fixed_random_state)]
    fn aux_weak() {
        let mut s: Sink<18> = Sink::new();
        let v = w::AuxSymbolWeak { weak_default_sym_index: any(), weak_search_type: pe::WeakExternSearch(any()) };
        { let mut wr = w::Writer::new(&mut s); ensure!(wr.reserve_aux_weak_external() == 1 && wr.symbol_count() == 1, "one record"); wr.write_aux_weak_external(v.clone()); }
        ensure!(s.n == 18 && s.b[8..] == [0; 10], "a whole record is written");
        if let Ok((r, _)) = pod::from_bytes::<pe::ImageAuxSymbolWeak>(&s.b) {
            eqs!(r, v; weak_search_type);
            ensure!(r.weak_default_sym_index.get(LE) == v.weak_default_sym_index, "default symbol");
        }
    }
    /// Records for a file name of any length that they can hold.
    [kani::stub(std::hash::RandomState::new, fixed_random_state)]
    fn aux_file_reserve() {
        let name = any_bytes::<4590>();
        assume(name.len() <= 255 * 18);
        let mut s: Sink<1> = Sink::new();
        let mut wr = w::Writer::new(&mut s);
        let n = wr.reserve_aux_file_name(name) as usize;
        ensure!(wr.symbol_count() as usize == n && n * 18 >= name.len() && (n == 0 || (n - 1) * 18 < name.len()), "just enough records");
    }
    /// Reserving space in an object file.
    [kani::stub(std::hash::RandomState::new, fixed_random_state)]
    fn coff_reserve() {
        let mut s: Sink<1> = Sink::new();
        let mut wr = w::Writer::new(&mut s);
        let start = any::<u32>() as u64;
        wr.reserve_until(start);
        ensure!(wr.reserved_len() == start, "reserved up to there");
        let n = any::<u32>() as usize;
        match any::<u8>() % 2 {
            0 => {
                let at = wr.reserve_section(n) as u64;
                if n == 0 { ensure!(at == 0 && wr.reserved_len() == start, "nothing is reserved"); return }
                assume(start < 1 << 31);
                ensure!(at >= start && at - start < 4 && at & 3 == 0 && wr.reserved_len() == at + n as u64, "a section is aligned");
            }
            _ => {
                let at = wr.reserve_relocations(n) as u64;
                if n == 0 { ensure!(at == 0 && wr.reserved_len() == start, "nothing is reserved"); return }
                let n = n as u64 + if n > 0xffff { 1 } else { 0 };
                ensure!(at == start && wr.reserved_len() == start + 10 * n, "room for the relocations and their number");
            }
        }
    }
    /// The DOS header.
    fn dos_header() {
        let b: [u8; 64] = any_array();
        let mut s: Sink<64> = Sink::new();
        if let Ok((h, _)) = pod::from_bytes::<pe::ImageDosHeader>(&b) {
            let mut wr = p::Writer::new(any_bool(), 4096, 512, &mut s);
            wr.reserve_dos_header();
            ensure!(wr.reserved_len() == 64 && wr.write_custom_dos_header(h).is_ok() && wr.len() == 64, "written");
        }
        ensure!(s.b == b && s.asked == Some(64), "the header is written unchanged");
    }
    fn dos_header_and_stub() {
        let mut s: Sink<128> = Sink::new();
        let at;
        {
            let mut wr = p::Writer::new(any_bool(), 4096, 512, &mut s);
            wr.reserve_dos_header_and_stub();
            ensure!(wr.reserved_len() == 128, "room for the header and the stub");
            wr.reserve_nt_headers(0);
            at = wr.nt_headers_offset();
            ensure!(at == 128 && wr.write_dos_header_and_stub().is_ok() && wr.len() == 128, "written");
        }
        let r = match pe::ImageDosHeader::parse(&s.b[..]) { Ok(r) => r, Err(_) => { ensure!(false, "the DOS header is read"); return } };
        ensure!(r.nt_headers_offset() == at, "where the NT headers are");
    }
    fn nt_headers32() { nt_headers!(ImageNtHeaders32, false, 200, u32); }
    fn nt_headers64() { nt_headers!(ImageNtHeaders64, true, 216, u64); }
    /// Two sections of any kind and size after any headers.
    fn pe_sections() {
        let (sa, fa) = (power(17), power(17));
        let mut s: Sink<80> = Sink::new();
        let heads: u32 = any();
        assume(heads < 1 << 20);
        let mut want = [([0u8; 8], pe::SectionFlags(0), 0u32, 0u32, p::SectionRange::default()); 2];
        {
            let mut wr = p::Writer::new(any_bool(), sa, fa, &mut s);
            wr.reserve_until(heads);
            wr.reserve_section_headers(2);
            let mut at = up(heads + 80, fa);
            let mut va = up(at, sa);
            for v in &mut want {
                *v = (any_array(), pe::SectionFlags(any()), any(), any(), p::SectionRange::default());
                assume(v.2 < 1 << 24 && v.3 < 1 << 24);
                v.4 = wr.reserve_section(v.0, v.1, v.2, v.3);
                let size = up(v.3, fa);
                ensure!(v.4.virtual_address == va && v.4.virtual_size == v.2, "sections follow each other in memory");
                ensure!(v.4.file_size == size && v.4.file_offset == if size == 0 { 0 } else { at }, "sections follow each other in the file");
                at += size;
                va = up(va + v.2, sa);
                ensure!(wr.virtual_len() == va && wr.reserved_len() == at as u64, "reserved");
            }
            wr.write_section_headers();
        }
        ensure!(s.n == 80, "whole headers are written");
        if let Ok((rs, _)) = pod::slice_from_bytes::<pe::ImageSectionHeader>(&s.b, 2) {
            for (r, v) in rs.iter().zip(&want) {
                ensure!(r.name == v.0 && r.characteristics.get(LE) == v.1, "name and flags");
                ensure!(r.virtual_address.get(LE) == v.4.virtual_address && r.virtual_size.get(LE) == v.4.virtual_size && r.size_of_raw_data.get(LE) == v.4.file_size && r.pointer_to_raw_data.get(LE) == v.4.file_offset, "the header says where the section is");
                ensure!(r.pointer_to_relocations.get(LE) == 0 && r.pointer_to_linenumbers.get(LE) == 0 && r.number_of_relocations.get(LE) == 0 && r.number_of_linenumbers.get(LE) == 0, "no relocations or line numbers");
            }
        }
    }
}
natives! {
    /// Random object files through the COFF writer, and back through the reader.
    fn objects() { low::objects(0) }
    /// Names beyond the reach of decimal positions.
    fn long_strings() { low::objects(9_999_900 + uni(160) as usize) }
    /// Random images through the PE writer, and back through the reader.
    fn images() { low::images() }
}
#[cfg(not(kani))]
mod low {
    use super::*;
    use object::read::pe::{ImageNtHeaders, PeFile};
    use object::read::{ObjectSection as _, Object as _, SectionIndex};
    use std::sync::OnceLock;

    fn bytes(n: u64) -> Vec<u8> { (0..n).map(|_| any()).collect() }
    fn name() -> Vec<u8> {
        let n = 1 + if uni(4) == 0 { uni(60) } else { uni(12) };
        let mut v: Vec<u8> = (0..n).map(|_| if uni(8) == 0 { 1 + uni(255) as u8 } else { b'a' + uni(3) as u8 }).collect();
        if v[0] == b'/' { v[0] = b'.' }
        v
    }
    struct Sec { name: Vec<u8>, h: w::SectionHeader, data: Vec<u8>, zero: bool, rels: Vec<(u32, u32, u16)> }
    enum Aux { None, File(Vec<u8>), Sec(w::AuxSymbolSection), Weak(w::AuxSymbolWeak) }
    struct Sym { name: Vec<u8>, s: w::Symbol, aux: Aux }

    /// `far` bytes of other strings.
    pub fn objects(far: usize) {
        static FILL: OnceLock<Vec<u8>> = OnceLock::new();
        let fill: &[u8] = if far > 0 { &FILL.get_or_init(|| vec![0xff; 10_100_000])[..far] } else { &[] };
        let header = w::FileHeader { machine: pe::Machine(any()), time_date_stamp: any(), characteristics: pe::FileFlags(any()) };
        let mut secs: Vec<Sec> = (0..uni(6) + if far > 0 { 4 } else { 0 }).map(|_| {
            let mut h = any_section();
            let n = match uni(60) { 0 if far == 0 => 0xfffe + uni(4), 1..=30 => 0, _ => uni(5) };
            h.number_of_relocations = n as u32;
            // A reader takes 0xffff relocations and the flag for the escape.
            h.characteristics = pe::SectionFlags(h.characteristics.0 & !0x0100_0080 | if n > 0xffff { 0x0100_0000 } else { 0 });
            let zero = uni(4) == 0;
            let len = uni(20);
            Sec { name: name(), h, data: if zero { vec![0; len as usize] } else { bytes(len) }, zero, rels: (0..n).map(|_| (any(), any(), any())).collect() }
        }).collect();
        let mut syms: Vec<Sym> = (0..uni(8)).map(|_| {
            let s = w::Symbol { name: Default::default(), value: any(), section_number: pe::SymbolSection(any::<i16>() as i32), typ: pe::SymbolType(any()), storage_class: pe::SymbolClass(any()), number_of_aux_symbols: 0 };
            let aux = match uni(8) {
                0 => Aux::File({ let n = if uni(20) == 0 { 4500 } else { 50 }; (0..1 + uni(n)).map(|_| 1 + uni(255) as u8).collect() }),
                1 => Aux::Sec(w::AuxSymbolSection { length: any(), number_of_relocations: any(), number_of_linenumbers: any(), check_sum: any(), number: any(), selection: pe::ComdatSelection(any()) }),
                2 => Aux::Weak(w::AuxSymbolWeak { weak_default_sym_index: any(), weak_search_type: pe::WeakExternSearch(any()) }),
                _ => Aux::None,
            };
            Sym { name: name(), s, aux }
        }).collect();
        let secname: Vec<Vec<u8>> = secs.iter().map(|s| s.name.clone()).collect();
        let symname: Vec<Vec<u8>> = syms.iter().map(|s| s.name.clone()).collect();
        let mut out: Vec<u8> = Vec::new();
        let mut index = Vec::new();
        {
            let mut wr = w::Writer::new(&mut out);
            if far > 0 { wr.add_string(fill); }
            for (s, n) in secs.iter_mut().zip(&secname) { s.h.name = wr.add_name(n) }
            for (s, n) in syms.iter_mut().zip(&symname) { s.s.name = wr.add_name(n) }
            wr.reserve_file_header();
            wr.reserve_section_headers(secs.len() as u16);
            for s in &mut secs {
                let end = wr.reserved_len();
                s.h.size_of_raw_data = s.data.len() as u32;
                s.h.pointer_to_raw_data = wr.reserve_section(s.data.len());
                let at = s.h.pointer_to_raw_data as u64;
                ensure!(if s.data.is_empty() { at == 0 } else { at >= end && at < end + 4 && at % 4 == 0 }, "section data is aligned");
                let end = wr.reserved_len();
                s.h.pointer_to_relocations = wr.reserve_relocations(s.rels.len());
                ensure!(s.h.pointer_to_relocations as u64 == if s.rels.is_empty() { 0 } else { end }, "relocations follow");
            }
            for s in &mut syms {
                index.push(wr.reserve_symbol_index());
                s.s.number_of_aux_symbols = match &s.aux { Aux::None => 0, Aux::File(n) => wr.reserve_aux_file_name(n), Aux::Sec(_) => wr.reserve_aux_section(), Aux::Weak(_) => wr.reserve_aux_weak_external() };
            }
            ensure!(wr.reserve_symtab_strtab().is_ok(), "the tables are reserved");
            ensure!(wr.write_file_header(header.clone()).is_ok(), "the header is written");
            for s in &secs { wr.write_section_header(s.h.clone()) }
            for s in &secs {
                if s.zero { wr.write_section_zeroes(s.data.len()) } else { wr.write_section(&s.data) }
                if !s.data.is_empty() { ensure!(wr.len() == s.h.pointer_to_raw_data as u64 + s.data.len() as u64, "section data is where it was reserved"); }
                wr.write_relocations_count(s.rels.len());
                for r in &s.rels { wr.write_relocation(w::Relocation { virtual_address: r.0, symbol: r.1, typ: pe::RelocationType(r.2) }) }
            }
            for s in &syms {
                wr.write_symbol(s.s.clone());
                match &s.aux { Aux::None => {}, Aux::File(n) => wr.write_aux_file_name(n, s.s.number_of_aux_symbols), Aux::Sec(v) => wr.write_aux_section(v.clone()), Aux::Weak(v) => wr.write_aux_weak_external(v.clone()) }
            }
            wr.write_strtab();
            ensure!(wr.len() == wr.reserved_len(), "exactly the reserved length is written");
        }
        let d = &out[..];
        let mut off = 0;
        let f = pe::ImageFileHeader::parse(d, &mut off).expect("header");
        eqs!(f, header; machine, time_date_stamp, characteristics);
        let table: SectionTable = f.sections(d, off).expect("sections");
        let symbols: SymbolTable<&[u8]> = f.symbols(d).expect("symbols");
        ensure!(table.len() == secs.len(), "section count");
        for (i, s) in secs.iter().enumerate() {
            let r = table.section(SectionIndex(i + 1)).unwrap();
            ensure!(r.name(symbols.strings()).ok() == Some(&s.name[..]), "section name");
            eqs!(r, s.h; size_of_raw_data, pointer_to_raw_data, pointer_to_relocations, pointer_to_linenumbers, number_of_linenumbers, characteristics);
            ensure!(r.coff_data(d) == Ok(&s.data[..]), "section data");
            let rels = r.coff_relocations(d).expect("relocations");
            ensure!(rels.len() == s.rels.len() && rels.iter().zip(&s.rels).all(|(r, v)| (r.virtual_address.get(LE), r.symbol_table_index.get(LE), r.typ.get(LE).0) == *v), "relocations");
        }
        ensure!(symbols.len() == index.iter().zip(&syms).map(|(i, s)| *i as usize + 1 + s.s.number_of_aux_symbols as usize).max().unwrap_or(0), "symbol count");
        for (i, s) in index.iter().zip(&syms) {
            use object::read::coff::Symbol as _;
            let i = SymbolIndex(*i as usize);
            let r = symbols.symbol(i).unwrap();
            ensure!(r.name(symbols.strings()).ok() == Some(&s.name[..]), "symbol name");
            eqs!(r, s.s; value, typ);
            ensure!(r.section_number.get(LE) as i16 as i32 == s.s.section_number.0 && r.storage_class == s.s.storage_class && r.number_of_aux_symbols == s.s.number_of_aux_symbols, "symbol");
            match &s.aux {
                Aux::None => {}
                Aux::File(n) => ensure!(symbols.aux_file_name(i, s.s.number_of_aux_symbols).ok() == Some(&n[..]), "file name"),
                Aux::Sec(v) => {
                    let r = symbols.aux_section(i).unwrap();
                    eqs!(r, v; length, number_of_linenumbers, check_sum);
                    ensure!(r.selection == v.selection && r.number.get(LE) == v.number as u16 && r.high_number.get(LE) == (v.number >> 16) as u16, "section record");
                }
                Aux::Weak(v) => {
                    let r = symbols.aux_weak_external(i).unwrap();
                    eqs!(r, v; weak_search_type);
                    ensure!(r.weak_default_sym_index.get(LE) == v.weak_default_sym_index, "weak record");
                }
            }
        }
    }
    #[derive(Clone, Copy, PartialEq)]
    enum K { Any, Text, Data, Rdata, Bss, Idata, Edata, Pdata, Xdata, Rsrc, Reloc }
    pub fn images() {
        let is64 = uni(2) == 0;
        let fa = 1u32 << uni(11);
        let sa = fa.max(1 << uni(14));
        let mut kinds = vec![K::Text, K::Data, K::Rdata, K::Bss, K::Idata, K::Edata, K::Pdata, K::Xdata, K::Rsrc, K::Reloc];
        kinds.retain(|_| uni(3) == 0);
        for _ in 0..uni(4) { kinds.push(K::Any) }
        for i in (1..kinds.len()).rev() { kinds.swap(i, uni(i as u64 + 1) as usize) }
        let dirs = 7 + uni(10) as usize;
        let mut relocs: Vec<(u32, u16)> = Vec::new();
        let mut va = uni(1 << 20) as u32;
        for _ in 0..if kinds.contains(&K::Reloc) { uni(14) } else { 0 } {
            let typ = uni(16) as u16;
            if typ != 0 || va & 0xfff != 0 { relocs.push((va, typ)) }
            va = match uni(4) { 0 => (va & !0xfff) + 0x1000 * (1 + uni(3) as u32), 1 => (va | 0xfff) + 1 + uni(0x1000) as u32, _ => (va & !0xfff) + uni(0x1000) as u32 };
        }
        let nt = any_nt();
        let cert = if uni(3) == 0 { Some(bytes(uni(30) & !7)) } else { None };
        let stub = uni(3);
        let custom = bytes(uni(40));
        let mut out: Vec<u8> = Vec::new();
        let mut secs: Vec<([u8; 8], pe::SectionFlags, p::SectionRange, Vec<u8>)> = Vec::new();
        let mut want = vec![(0u32, 0u32); dirs];
        let (heads, end, nt_at);
        {
            let mut wr = p::Writer::new(is64, sa, fa, &mut out);
            match stub { 0 => wr.reserve_dos_header(), 1 => wr.reserve_dos_header_and_stub(), _ => { wr.reserve_dos_header(); wr.reserve(custom.len() as u32, 1); } }
            wr.reserve_nt_headers(dirs);
            nt_at = wr.nt_headers_offset();
            wr.reserve_section_headers(kinds.len() as u16);
            heads = wr.reserved_len();
            for r in &relocs { wr.add_reloc(r.0, pe::BaseRelocationType(r.1)) }
            ensure!(wr.has_relocs() != relocs.is_empty(), "relocations were added");
            for k in &kinds {
                let (v, n) = (uni(3000) as u32, uni(1200) as u32);
                use pe::*;
                let (rd, rw) = (IMAGE_SCN_CNT_INITIALIZED_DATA | IMAGE_SCN_MEM_READ, IMAGE_SCN_CNT_INITIALIZED_DATA | IMAGE_SCN_MEM_READ | IMAGE_SCN_MEM_WRITE);
                let (file, mem) = (wr.reserved_len(), wr.virtual_len());
                let (r, n, name, flags, dir) = match k {
                    K::Any => { let (a, c) = (any_array(), SectionFlags(any())); (wr.reserve_section(a, c, v, n), n, a, c, None) }
                    K::Text => (wr.reserve_text_section(n), n, *b".text\0\0\0", IMAGE_SCN_CNT_CODE | IMAGE_SCN_MEM_EXECUTE | IMAGE_SCN_MEM_READ, None),
                    K::Data => (wr.reserve_data_section(v, n), n, *b".data\0\0\0", rw, None),
                    K::Rdata => (wr.reserve_rdata_section(n), n, *b".rdata\0\0", rd, None),
                    K::Bss => (wr.reserve_bss_section(v), 0, *b".bss\0\0\0\0", IMAGE_SCN_CNT_UNINITIALIZED_DATA | IMAGE_SCN_MEM_READ | IMAGE_SCN_MEM_WRITE, None),
                    K::Idata => (wr.reserve_idata_section(n), n, *b".idata\0\0", rw, Some(1)),
                    K::Edata => (wr.reserve_edata_section(n), n, *b".edata\0\0", rd, Some(0)),
                    K::Pdata => (wr.reserve_pdata_section(n), n, *b".pdata\0\0", rd, Some(3)),
                    K::Xdata => (wr.reserve_xdata_section(n), n, *b".xdata\0\0", rd, None),
                    K::Rsrc => (wr.reserve_rsrc_section(n), n, *b".rsrc\0\0\0", rd, Some(2)),
                    K::Reloc => { let r = wr.reserve_reloc_section(); (r, r.virtual_size, *b".reloc\0\0", rd | IMAGE_SCN_MEM_DISCARDABLE, Some(5)) }
                };
                let size = up(n, fa);
                ensure!((r.virtual_address, r.file_size) == (mem, size) && wr.virtual_len() == up(mem + r.virtual_size, sa), "a section follows the one before it in memory");
                ensure!(r.file_offset == if size == 0 { 0 } else { file as u32 } && wr.reserved_len() == file + size as u64, "a section follows the one before it in the file");
                match k { K::Any | K::Data | K::Bss => ensure!(r.virtual_size == v, "virtual size"), _ => ensure!(r.virtual_size == n, "virtual size") }
                if let Some(i) = dir { want[i] = (r.virtual_address, n) }
                secs.push((name, flags, r, if *k == K::Reloc { Vec::new() } else { bytes(n as u64) }));
            }
            end = wr.virtual_len();
            for i in 0..dirs { if want[i] == (0, 0) && uni(4) == 0 && i != 4 && i != 5 { want[i] = (any(), any()); wr.set_data_directory(i, want[i].0, want[i].1) } }
            if let Some(c) = &cert {
                let at = (wr.reserved_len() as u32 + 7) & !7;
                let at = if c.is_empty() { wr.reserved_len() as u32 } else { at };
                wr.reserve_certificate_table(c.len() as u32);
                want[4] = (at, c.len() as u32);
            }
            match stub { 0 => ensure!(wr.write_empty_dos_header().is_ok(), "DOS header"), 1 => ensure!(wr.write_dos_header_and_stub().is_ok(), "DOS header"), _ => { ensure!(wr.write_empty_dos_header().is_ok(), "DOS header"); wr.write(&custom) } }
            wr.write_nt_headers(nt.clone());
            wr.write_section_headers();
            for (k, s) in kinds.iter().zip(&secs) {
                if *k == K::Reloc { wr.write_reloc_section() } else { wr.write_section(s.2.file_offset, &s.3) }
                if s.2.file_size > 0 { ensure!(wr.len() == s.2.file_offset as u64 + s.2.file_size as u64, "a section is written where it was reserved"); }
            }
            if let Some(c) = &cert { wr.write_certificate_table(c) }
            if kinds.is_empty() && cert.is_none() { wr.write_file_align() }
            ensure!(wr.len() == wr.reserved_len() || secs.iter().all(|s| s.2.file_size == 0), "exactly the reserved length is written");
            wr.pad_until(wr.reserved_len() as u32);
        }
        if is64 { check::<pe::ImageNtHeaders64>(&out, &nt, &kinds, &secs, &want, &relocs, &cert, nt_at, (sa, fa, heads as u32, end)) } else { check::<pe::ImageNtHeaders32>(&out, &nt, &kinds, &secs, &want, &relocs, &cert, nt_at, (sa, fa, heads as u32, end)) }
    }
    fn check<T: ImageNtHeaders>(d: &[u8], nt: &p::NtHeaders, kinds: &[K], secs: &[([u8; 8], pe::SectionFlags, p::SectionRange, Vec<u8>)], want: &[(u32, u32)], relocs: &[(u32, u16)], cert: &Option<Vec<u8>>, nt_at: u32, sizes: (u32, u32, u32, u32)) {
        let f = PeFile::<T>::parse(d).expect("image");
        ensure!(f.dos_header().nt_headers_offset() == nt_at, "where the NT headers are");
        let (h, o) = (f.nt_headers().file_header(), f.nt_headers().optional_header());
        eqs!(h, nt; machine, time_date_stamp, characteristics);
        let w = |v: u64| if f.is_64() { v } else { v as u32 as u64 };
        ensure!((o.major_linker_version(), o.minor_linker_version(), o.address_of_entry_point(), o.image_base()) == (nt.major_linker_version, nt.minor_linker_version, nt.address_of_entry_point, w(nt.image_base)), "linker, entry and base");
        ensure!((o.major_operating_system_version(), o.minor_operating_system_version(), o.major_image_version(), o.minor_image_version(), o.major_subsystem_version(), o.minor_subsystem_version()) == (nt.major_operating_system_version, nt.minor_operating_system_version, nt.major_image_version, nt.minor_image_version, nt.major_subsystem_version, nt.minor_subsystem_version), "versions");
        ensure!(o.subsystem() == nt.subsystem && o.dll_characteristics() == nt.dll_characteristics, "subsystem");
        ensure!((o.size_of_stack_reserve(), o.size_of_stack_commit(), o.size_of_heap_reserve(), o.size_of_heap_commit()) == (w(nt.size_of_stack_reserve), w(nt.size_of_stack_commit), w(nt.size_of_heap_reserve), w(nt.size_of_heap_commit)), "stack and heap");
        ensure!((o.section_alignment(), o.file_alignment(), o.size_of_headers(), o.size_of_image()) == sizes, "alignments and sizes");
        let (mut code, mut data, mut bss, mut base) = (0, 0, 0, 0);
        for s in secs {
            let v = up(s.2.virtual_size, sizes.1);
            if s.1.contains(pe::IMAGE_SCN_CNT_CODE) { if base == 0 { base = s.2.virtual_address } code += v } else if s.1.contains(pe::IMAGE_SCN_CNT_INITIALIZED_DATA) { data += v } else if s.1.contains(pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA) { bss += v }
        }
        ensure!((o.size_of_code(), o.size_of_initialized_data(), o.size_of_uninitialized_data(), o.base_of_code()) == (code, data, bss, base), "sizes by kind");
        let dirs = f.data_directories();
        ensure!(dirs.len() == want.len() && dirs.iter().zip(want).all(|(r, v)| r.address_range() == *v), "data directories");
        let table = f.section_table();
        ensure!(table.len() == secs.len(), "section count");
        for (i, s) in secs.iter().enumerate() {
            let r = table.section(SectionIndex(i + 1)).unwrap();
            ensure!(r.name == s.0 && r.characteristics.get(LE) == s.1, "section name and flags");
            ensure!(r.pe_address_range() == (s.2.virtual_address, s.2.virtual_size) && (r.pointer_to_raw_data.get(LE), r.size_of_raw_data.get(LE)) == (s.2.file_offset, s.2.file_size), "where the section is");
            let b = r.pe_data(d).expect("section data");
            ensure!(b.len() == s.2.virtual_size.min(s.2.file_size) as usize, "length of the data");
            if kinds[i] != K::Reloc {
                let n = b.len().min(s.3.len());
                ensure!(b[..n] == s.3[..n] && b[n..].iter().all(|b| *b == 0), "section data");
            }
        }
        if kinds.contains(&K::Reloc) && !relocs.is_empty() {
            let mut it = dirs.relocation_blocks(d, &table).expect("relocations").expect("relocation directory");
            let mut got = Vec::new();
            let mut page = None;
            while let Some(b) = it.next().expect("block") {
                ensure!(page.map_or(true, |p| p < b.virtual_address()) && b.virtual_address() & 0xfff == 0 && b.size() % 4 == 0, "blocks are in order of their pages");
                page = Some(b.virtual_address());
                for r in b { got.push((r.virtual_address, r.typ.0)) }
            }
            ensure!(got == relocs, "the added relocations are read back");
        }
        if let Some(c) = cert {
            let (at, n) = want[4];
            ensure!(&d[at as usize..][..n as usize] == &c[..], "certificates");
        }
    }
}
