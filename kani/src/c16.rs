//! Mach-O encoder against the Mach-O reader.
use crate::rec::*;
use crate::shim::*;
use object::macho as m;
use object::read::macho::{LoadCommandData, MachHeader as _, Nlist as _, Section as _, Segment as _};
use object::write::macho as w;
use object::write::{WritableBuffer, WritableBufferExt};
use object::{BigEndian, Endian, Endianness, LittleEndian, U32};
use std::mem::size_of;

type H32 = m::MachHeader32<Endianness>;
type H64 = m::MachHeader64<Endianness>;

fn put(b: &mut [u8], f: impl FnOnce(&mut &mut [u8])) -> usize {
    let n = b.len();
    let mut s: &mut [u8] = b;
    f(&mut s);
    n - s.len()
}
fn any_header() -> w::MachHeader {
    w::MachHeader { cputype: m::CpuType(any()), cpusubtype: m::CpuSubtype(any()), filetype: m::FileType(any()), ncmds: any(), sizeofcmds: any(), flags: m::FileFlags(any()) }
}
macro_rules! same {
    ($got:expr, $want:expr; $($f:ident),*) => { $( ensure!($got.$f == $want.$f, concat!("field ", stringify!($f), " is read back unchanged")); )* };
}
macro_rules! same_acc {
    ($got:expr, $e:expr, $want:expr; $($f:ident),*) => { $( ensure!($got.$f($e) == $want.$f, concat!("field ", stringify!($f), " is read back unchanged")); )* };
}
macro_rules! same_get {
    ($got:expr, $e:expr, $want:expr; $($f:ident),*) => { $( ensure!($got.$f.get($e) == $want.$f, concat!("field ", stringify!($f), " is read back unchanged")); )* };
}
/// The load command that `f` encodes after a file header, found by the reader.
macro_rules! command {
    ($is64:literal, $e:ident, $enc:ident, $b:ident, $size:expr, $f:expr) => {{
        const HL: usize = if $is64 { size_of::<H64>() } else { size_of::<H32>() };
        let size = $size;
        let mut h = any_header();
        h.ncmds = 1;
        h.sizeofcmds = size as u32;
        ensure!(put(&mut $b[..HL], |b| $enc.mach_header(b, &h)) == HL, "header size");
        let n = put(&mut $b[HL..], $f);
        ensure!(n as u64 == size, "the command has its declared size");
        (HL, size)
    }};
}
macro_rules! read_command {
    ($is64:literal, $e:ident, $b:ident, $hl:expr, $size:expr) => {{
        let mut it = if $is64 { H64::parse(&$b[..], 0).ok().map(|h| h.load_commands($e, &$b[..], 0)) } else { H32::parse(&$b[..], 0).ok().map(|h| h.load_commands($e, &$b[..], 0)) };
        let mut it = match it { Some(Ok(i)) => i, _ => { ensure!(false, "the commands are read"); return } };
        let c = match it.next() { Ok(Some(c)) => c, _ => { ensure!(false, "the command is read"); return } };
        ensure!(is_at(c.raw_data(), &$b[..], $hl, $size as usize) && c.offset() == $hl as u64 && c.cmdsize() as u64 == $size, "the command is where it was encoded, with its declared size");
        ensure!(matches!(it.next(), Ok(None)), "one command");
        c
    }};
}
macro_rules! header {
    ($t:ident, $is64:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        ensure!(enc.endian() == e && enc.is_64() == $is64 && enc.address_size() == if $is64 { 8 } else { 4 }, "parameters");
        let h = any_header();
        let mut b = [0xa5u8; 40];
        let n = put(&mut b, |b| enc.mach_header(b, &h));
        ensure!(n == size_of::<$t>() && enc.mach_header_size() == n as u64, "the header has its declared size");
        let r = match $t::parse(&b[..], 0) { Ok(r) => r, Err(_) => { ensure!(false, "the header is read"); return } };
        ensure!(matches!(r.endian(), Ok(x) if x == e) && r.is_type_64() == $is64, "byte order and class");
        same_acc!(r, e, h; cputype, cpusubtype, filetype, ncmds, sizeofcmds, flags);
        let g = w::MachHeader::from_raw(e, r);
        same!(g, h; cputype, cpusubtype, filetype, ncmds, sizeofcmds, flags);
    }};
}
macro_rules! segment {
    ($is64:literal, $get:ident, $t:ident, $st:ident, $len:literal, $word:ty) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let mut b = [0xa5u8; 32 + $len];
        let mut s = w::SegmentCommand { segname: any_array(), vmaddr: any::<$word>() as u64, vmsize: any::<$word>() as u64, fileoff: any::<$word>() as u64, filesize: any::<$word>() as u64, maxprot: m::VmProt(any()), initprot: m::VmProt(any()), nsects: 0, flags: m::SegmentFlags(any()) };
        let (hl, size) = command!($is64, e, enc, b, enc.segment_command_size(0), |b| enc.segment_command(b, &s));
        ensure!(size as usize == size_of::<m::$t<Endianness>>(), "size of the record");
        let c = read_command!($is64, e, b, hl, size);
        let (r, rest) = match c.$get() { Ok(Some(r)) => r, _ => { ensure!(false, "a segment command"); return } };
        ensure!(rest.is_empty(), "no sections");
        ensure!(r.cmdsize(e) as u64 == size && *r.segname() == s.segname, "size and name");
        ensure!(u64::from(r.vmaddr(e)) == s.vmaddr && u64::from(r.vmsize(e)) == s.vmsize && u64::from(r.fileoff(e)) == s.fileoff && u64::from(r.filesize(e)) == s.filesize, "address and file range");
        same_acc!(r, e, s; maxprot, initprot, nsects, flags);
        let g = w::SegmentCommand::from_raw(e, r);
        same!(g, s; segname, vmaddr, vmsize, fileoff, filesize, maxprot, initprot, nsects, flags);
    }};
}
/// Any number of sections: the declared sizes.
macro_rules! segment_sizes {
    ($is64:literal, $t:ident, $st:ident, $len:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let n = any::<u32>();
        ensure!(enc.section_header_size() as usize == size_of::<m::$st<Endianness>>(), "section header size");
        ensure!(enc.segment_command_size(n) as usize == size_of::<m::$t<Endianness>>() + n as usize * size_of::<m::$st<Endianness>>(), "segment command size");
        assume(n < 1 << 25);
        let mut b = [0u8; $len];
        let s = w::SegmentCommand { segname: [0; 16], vmaddr: 0, vmsize: 0, fileoff: 0, filesize: 0, maxprot: m::VmProt(0), initprot: m::VmProt(0), nsects: n, flags: m::SegmentFlags(0) };
        put(&mut b, |b| enc.segment_command(b, &s));
        if let Ok((r, _)) = object::pod::from_bytes::<m::$t<Endianness>>(&b) {
            ensure!(r.cmdsize(e) as u64 == enc.segment_command_size(n) && r.nsects(e) == n, "the declared size covers the sections");
        } else { ensure!(false, "whole record"); }
    }};
}
macro_rules! section {
    ($is64:literal, $t:ident, $len:literal, $word:ty) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let s = w::SectionHeader { sectname: any_array(), segname: any_array(), addr: any::<$word>() as u64, size: any::<$word>() as u64, offset: any(), align: any(), reloff: any(), nreloc: any(), flags: m::SectionFlags(any()), reserved1: any(), reserved2: any(), reserved3: if $is64 { any() } else { 0 } };
        let mut b = [0xa5u8; $len];
        let n = put(&mut b, |b| enc.section_header(b, &s));
        ensure!(n == size_of::<m::$t<Endianness>>() && enc.section_header_size() == n as u64, "the section header has its declared size");
        let r = match object::pod::from_bytes::<m::$t<Endianness>>(&b) { Ok((r, _)) => r, Err(_) => return };
        ensure!(*r.sectname() == s.sectname && *r.segname() == s.segname, "names");
        ensure!(u64::from(r.addr(e)) == s.addr && u64::from(r.size(e)) == s.size, "address and size");
        same_acc!(r, e, s; offset, align, reloff, nreloc, flags, reserved1, reserved2, reserved3);
        let g = w::SectionHeader::from_raw(e, r);
        same!(g, s; sectname, segname, addr, size, offset, align, reloff, nreloc, flags, reserved1, reserved2, reserved3);
    }};
}
macro_rules! nlist {
    ($is64:literal, $t:ident, $len:literal, $word:ty) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let s = w::Nlist { n_strx: any(), n_type: m::SymbolFlags(any()), n_sect: any(), n_desc: m::SymbolDesc(any()), n_value: any::<$word>() as u64 };
        let mut b = [0xa5u8; $len];
        let n = put(&mut b, |b| enc.nlist(b, &s));
        ensure!(n == size_of::<m::$t<Endianness>>() && enc.nlist_size() == n as u64, "the symbol has its declared size");
        let r = match object::pod::from_bytes::<m::$t<Endianness>>(&b) { Ok((r, _)) => r, Err(_) => return };
        ensure!(r.n_type() == s.n_type && r.n_sect() == s.n_sect && u64::from(r.n_value(e)) == s.n_value, "type, section and value");
        same_acc!(r, e, s; n_strx, n_desc);
        let g = w::Nlist::from_raw(e, r);
        same!(g, s; n_strx, n_type, n_sect, n_desc, n_value);
    }};
}
macro_rules! symtab {
    ($is64:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let mut b = [0xa5u8; 56];
        let s = w::SymtabCommand { symoff: any(), nsyms: any(), stroff: any(), strsize: any() };
        let (hl, size) = command!($is64, e, enc, b, enc.symtab_command_size(), |b| enc.symtab_command(b, &s));
        let c = read_command!($is64, e, b, hl, size);
        let r = match c.symtab() { Ok(Some(r)) => r, _ => { ensure!(false, "a symtab command"); return } };
        same_get!(r, e, s; symoff, nsyms, stroff, strsize);
        let g = w::SymtabCommand::from_raw(e, r);
        same!(g, s; symoff, nsyms, stroff, strsize);
    }};
}
macro_rules! dysymtab {
    ($is64:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let mut b = [0xa5u8; 112];
        let s = w::DysymtabCommand { ilocalsym: any(), nlocalsym: any(), iextdefsym: any(), nextdefsym: any(), iundefsym: any(), nundefsym: any(), tocoff: any(), ntoc: any(), modtaboff: any(), nmodtab: any(), extrefsymoff: any(), nextrefsyms: any(), indirectsymoff: any(), nindirectsyms: any(), extreloff: any(), nextrel: any(), locreloff: any(), nlocrel: any() };
        let (hl, size) = command!($is64, e, enc, b, enc.dysymtab_command_size(), |b| enc.dysymtab_command(b, &s));
        let c = read_command!($is64, e, b, hl, size);
        let r = match c.dysymtab() { Ok(Some(r)) => r, _ => { ensure!(false, "a dysymtab command"); return } };
        same_get!(r, e, s; ilocalsym, nlocalsym, iextdefsym, nextdefsym, iundefsym, nundefsym, tocoff, ntoc, modtaboff, nmodtab, extrefsymoff, nextrefsyms, indirectsymoff, nindirectsyms, extreloff, nextrel, locreloff, nlocrel);
        let g = w::DysymtabCommand::from_raw(e, r);
        same!(g, s; ilocalsym, nlocalsym, iextdefsym, nextdefsym, iundefsym, nundefsym, tocoff, ntoc, modtaboff, nmodtab, extrefsymoff, nextrefsyms, indirectsymoff, nindirectsyms, extreloff, nextrel, locreloff, nlocrel);
    }};
}
macro_rules! build_version {
    ($is64:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let mut b = [0xa5u8; 72];
        let s = w::BuildVersionCommand { platform: m::Platform(any()), minos: m::Version(any()), sdk: m::Version(any()), ntools: any_below(3) as u32 };
        let (t0, v0, t1, v1) = (m::Tool(any()), m::Version(any()), m::Tool(any()), m::Version(any()));
        let (hl, size) = command!($is64, e, enc, b, enc.build_version_command_size(s.ntools), |b| {
            enc.build_version_command(b, &s);
            if s.ntools > 0 { enc.build_tool_version(b, t0, v0); }
            if s.ntools > 1 { enc.build_tool_version(b, t1, v1); }
        });
        let c = read_command!($is64, e, b, hl, size);
        let (r, t) = match c.build_version(e) { Ok(Some(r)) => r, _ => { ensure!(false, "a build version command"); return } };
        same_get!(r, e, s; platform, minos, sdk, ntools);
        ensure!(t.len() == s.ntools as usize, "number of tools");
        if t.len() > 0 { ensure!(t[0].tool.get(e) == t0 && t[0].version.get(e) == v0, "first tool"); }
        if t.len() > 1 { ensure!(t[1].tool.get(e) == t1 && t[1].version.get(e) == v1, "second tool"); }
        reach!(t.len() > 1, "tools");
        let g = w::BuildVersionCommand::from_raw(e, r);
        same!(g, s; platform, minos, sdk, ntools);
    }};
}
macro_rules! linkedit {
    ($is64:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let mut b = [0xa5u8; 48];
        let (cmd, off, size_) = (m::LoadCommandType(any()), any::<u32>(), any::<u32>());
        let (hl, size) = command!($is64, e, enc, b, enc.linkedit_data_command_size(), |b| enc.linkedit_data_command(b, cmd, off, size_));
        let c = read_command!($is64, e, b, hl, size);
        ensure!(c.cmd() == cmd, "command type");
        let r = match c.data::<m::LinkeditDataCommand<Endianness>>() { Ok(r) => r, _ => { ensure!(false, "a linkedit command"); return } };
        ensure!(r.dataoff.get(e) == off && r.datasize.get(e) == size_, "range");
    }};
}
macro_rules! dyld_info {
    ($is64:literal) => {{
        let e = any_endian();
        let enc = w::Encoder::new(e, $is64);
        let mut b = [0xa5u8; 80];
        let s = w::DyldInfoCommand { rebase_off: any(), rebase_size: any(), bind_off: any(), bind_size: any(), weak_bind_off: any(), weak_bind_size: any(), lazy_bind_off: any(), lazy_bind_size: any(), export_off: any(), export_size: any() };
        let only = any_bool();
        let cmd = if only { m::LC_DYLD_INFO_ONLY } else { m::LC_DYLD_INFO };
        let (hl, size) = command!($is64, e, enc, b, enc.dyld_info_command_size(), |b| enc.dyld_info_command(b, cmd, &s));
        let c = read_command!($is64, e, b, hl, size);
        ensure!(c.cmd() == cmd, "command type");
        let r = match c.dyld_info() { Ok(Some(r)) => r, _ => { ensure!(false, "a dyld info command"); return } };
        same_get!(r, e, s; rebase_off, rebase_size, bind_off, bind_size, weak_bind_off, weak_bind_size, lazy_bind_off, lazy_bind_size, export_off, export_size);
        let g = w::DyldInfoCommand::from_raw(e, r);
        same!(g, s; rebase_off, rebase_size, bind_off, bind_size, weak_bind_off, weak_bind_size, lazy_bind_off, lazy_bind_size, export_off, export_size);
    }};
}
fn w32(e: Endianness, v: u32) -> [u8; 4] { if e.is_big_endian() { v.to_be_bytes() } else { v.to_le_bytes() } }
fn at(parts: &[[u8; 4]], w: u64) -> u8 { parts[(w / 4) as usize][(w % 4) as usize] }

/// A code directory header of one supported version.
fn code_directory(version: u32, size: usize) {
    let enc = w::CodeSignatureEncoder;
    let cd = w::CodeDirectory { length: any(), version: m::CsVersion(version), flags: m::CsFlags(any()), hash_offset: any(), ident_offset: any(), n_special_slots: any(), n_code_slots: any(), code_limit: any(), hash_size: any(), hash_type: m::CsHashType(any()), platform: any(), page_size: any(), scatter_offset: any(), team_offset: any(), exec_seg_base: any(), exec_seg_limit: any(), exec_seg_flags: m::CsExecSegFlags(any()) };
    let (v1, v2, v3, v4) = (version >= 0x20100, version >= 0x20200, version >= 0x20300, version >= 0x20400);
    // requires: a 64-bit limit only where the version has the field
    assume(v3 || cd.code_limit <= u32::MAX as u64);
    let mut b = [0xa5u8; 96];
    let n = put(&mut b, |b| enc.code_directory(b, &cd));
    ensure!(n == size && enc.code_directory_size(cd.version) as usize == n, "the code directory has its declared size");
    let r = match object::read::macho::CodeDirectory::parse(&b[..n]) { Ok(r) => r, Err(_) => { ensure!(false, "the code directory is read"); return } };
    let h = r.header();
    same_get!(h, BigEndian, cd; length, version, flags, hash_offset, ident_offset, n_special_slots, n_code_slots);
    same!(h, cd; hash_size, hash_type, platform, page_size);
    ensure!(r.version() == cd.version && r.code_limit() == cd.code_limit, "version and limit");
    ensure!(r.scatter_offset() == if v1 { Some(cd.scatter_offset) } else { None }, "scatter offset");
    ensure!(r.team_offset() == if v2 { Some(cd.team_offset) } else { None }, "team offset");
    ensure!(r.code_limit64().is_some() == v3, "64-bit limit");
    match r.exec_seg() {
        Some(x) => { ensure!(v4, "version has the fields"); same_get!(x, BigEndian, cd; exec_seg_base, exec_seg_limit, exec_seg_flags); }
        None => ensure!(!v4, "version has the fields"),
    }
    let g = w::CodeDirectory::from_raw(&r);
    same!(g, cd; length, version, flags, hash_offset, ident_offset, n_special_slots, n_code_slots, code_limit, hash_size, hash_type, platform, page_size);
    ensure!(g.scatter_offset == if v1 { cd.scatter_offset } else { 0 } && g.team_offset == if v2 { cd.team_offset } else { 0 }, "optional offsets");
    if v4 { same!(g, cd; exec_seg_base, exec_seg_limit, exec_seg_flags); }
}

harnesses! {
    fn header_32() { header!(H32, false) }
    fn header_64() { header!(H64, true) }
    fn segment_32() { segment!(false, segment_32, SegmentCommand32, Section32, 56, u32) }
    fn segment_64() { segment!(true, segment_64, SegmentCommand64, Section64, 72, u64) }
    fn segment_sizes_32() { segment_sizes!(false, SegmentCommand32, Section32, 56) }
    fn segment_sizes_64() { segment_sizes!(true, SegmentCommand64, Section64, 72) }
    fn section_32() { section!(false, Section32, 68, u32) }
    fn section_64() { section!(true, Section64, 80, u64) }
    fn nlist_32() { nlist!(false, Nlist32, 12, u32) }
    fn nlist_64() { nlist!(true, Nlist64, 16, u64) }
    fn symtab_32() { symtab!(false) }
    fn symtab_64() { symtab!(true) }
    fn dysymtab_32() { dysymtab!(false) }
    fn dysymtab_64() { dysymtab!(true) }
    fn build_version_32() { build_version!(false) }
    fn build_version_64() { build_version!(true) }
    fn linkedit_32() { linkedit!(false) }
    fn linkedit_64() { linkedit!(true) }
    fn dyld_info_32() { dyld_info!(false) }
    fn dyld_info_64() { dyld_info!(true) }
    fn build_version_sizes() {
        let enc = w::Encoder::new(any_endian(), any_bool());
        let n = any::<u32>();
        ensure!(enc.build_version_command_size(n) == 24 + 8 * n as u64, "declared size covers the tools");
    }
    fn relocation() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool());
        let r = m::RelocationInfo { r_address: any(), r_symbolnum: any::<u32>() & 0xff_ffff, r_pcrel: any_bool(), r_length: any::<u8>() & 3, r_extern: any_bool(), r_type: m::RelocationType(any::<u8>() & 15) };
        let mut b = [0u8; 8];
        ensure!(put(&mut b, |b| enc.relocation(b, &r)) == 8 && enc.relocation_size() == 8, "the relocation has its declared size");
        if let Ok((x, _)) = object::pod::from_bytes::<m::Relocation<Endianness>>(&b) {
            let g = x.info(e);
            same!(g, r; r_address, r_symbolnum, r_pcrel, r_length, r_extern, r_type);
        } else { ensure!(false, "whole record"); }
    }
    fn scattered_relocation() {
        let e = any_endian();
        let r = m::ScatteredRelocationInfo { r_address: any::<u32>() & 0xff_ffff, r_type: m::RelocationType(any::<u8>() & 15), r_length: any::<u8>() & 3, r_pcrel: any_bool(), r_value: any() };
        let x = r.relocation(e);
        let cpu = m::CpuType(any());
        ensure!(x.r_scattered(e, cpu) == (cpu != m::CPU_TYPE_X86_64), "marked as scattered");
        let g = x.scattered_info(e);
        same!(g, r; r_address, r_type, r_length, r_pcrel, r_value);
    }
    fn indirect_symbol() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool());
        let s = m::IndirectSymbol(any());
        let mut b = [0u8; 4];
        ensure!(put(&mut b, |b| enc.indirect_symbol(b, s)) == 4 && enc.indirect_symbol_size() == 4, "declared size");
        if let Ok((x, _)) = object::pod::from_bytes::<U32<Endianness, m::IndirectSymbol>>(&b) { ensure!(x.get(e) == s, "read back"); }
    }
    /// Any name: the record, the name, a terminator and padding, of the declared size.
    fn dylib() {
        let e = any_endian();
        let is64 = any_bool();
        let enc = w::Encoder::new(e, is64);
        let name = any_bytes::<24>();
        assume(name.len() < 1 << 31);
        let d = w::DylibCommand { cmd: m::LoadCommandType(any()), name, timestamp: any(), current_version: m::Version(any()), compatibility_version: m::Version(any()) };
        let a = if is64 { 8 } else { 4 };
        let size = enc.dylib_command_size(name.len());
        ensure!(size % a == 0 && size > 24 + name.len() as u64 && size <= 24 + name.len() as u64 + a, "smallest aligned size with a terminator");
        let mut r = Rec::start();
        enc.dylib_command(&mut r, &d);
        ensure!(r.len == size, "the command has its declared size");
        if r.w < r.len {
            let head = [w32(e, d.cmd.0), w32(e, size as u32), w32(e, 24), w32(e, d.timestamp), w32(e, d.current_version.0), w32(e, d.compatibility_version.0)];
            let want = if r.w < 24 { at(&head, r.w) } else if r.w - 24 < name.len() as u64 { name[(r.w - 24) as usize] } else { 0 };
            ensure!(r.at == Some(want), "every byte of the command");
            reach!(r.w > 40, "name");
        }
    }
    fn raw_load_command() {
        let e = any_endian();
        let enc = w::Encoder::new(e, any_bool());
        let data = any_bytes::<24>();
        assume(data.len() < 1 << 31);
        let cmd = m::LoadCommandType(any());
        let mut r = Rec::start();
        enc.load_command(&mut r, cmd, data);
        ensure!(r.len == 8 + data.len() as u64 && enc.load_command_size(data.len() as u64) == r.len, "the command has its declared size");
        if r.w < r.len {
            let head = [w32(e, cmd.0), w32(e, r.len as u32)];
            let want = if r.w < 8 { at(&head, r.w) } else { data[(r.w - 8) as usize] };
            ensure!(r.at == Some(want), "every byte of the command");
        }
    }
    fn code_directory_v0() { code_directory(0x20001, 44) }
    fn code_directory_v1() { code_directory(0x20100, 48) }
    fn code_directory_v2() { code_directory(0x20200, 52) }
    fn code_directory_v3() { code_directory(0x20300, 64) }
    fn code_directory_v4() { code_directory(0x20400, 88) }
    fn code_signature_blobs() {
        let enc = w::CodeSignatureEncoder;
        ensure!(enc.super_blob_size() == 12 && enc.blob_index_size() == 8 && enc.generic_blob_size() == 8, "declared sizes");
        let (slot, off, magic, len) = (m::CsSlot(any()), any_in(20, 29) as u32, any::<u32>(), any_in(8, 12) as u32);
        let total = any::<u32>();
        let mut b = [0xa5u8; 40];
        let n = put(&mut b, |b| { enc.signature_super_blob(b, total, 1); enc.blob_index(b, slot, off); });
        ensure!(n == 20, "sizes written");
        let o = off as usize;
        ensure!(put(&mut b[o..], |b| enc.generic_blob(b, magic, len)) == 8, "generic blob size");
        let s = match object::read::macho::CodeSignature::parse(&b[..]) { Ok(s) => s, Err(_) => { ensure!(false, "the signature is read"); return } };
        ensure!(s.header().length.get(BigEndian) == total && s.index().len() == 1, "super blob");
        ensure!(s.index()[0].slot.get(BigEndian) == slot && s.index()[0].offset.get(BigEndian) == off, "index entry");
        match s.blobs().next() {
            Ok(Some(x)) => ensure!(x.slot() == slot && x.offset() == off && x.magic() == magic && is_at(x.data(), &b, o, len as usize) && is_at(x.contents(), &b, o + 8, len as usize - 8), "blob"),
            _ => ensure!(false, "the blob is read"),
        }
        let n = put(&mut b, |b| enc.requirements_super_blob(b, total, any::<u32>() & 0));
        ensure!(n == 12, "requirements size");
        if let Ok((x, _)) = object::pod::from_bytes::<m::CsSuperBlob>(&b) { ensure!(x.magic.get(BigEndian) == m::CSMAGIC_REQUIREMENTS && x.length.get(BigEndian) == total && x.count.get(BigEndian) == 0, "requirements header"); }
    }
}

natives! {
    /// Dylib commands and string tables through the reader.
    fn dylib_and_strings() {
        let e = if choose(2) == 0 { Endianness::Little } else { Endianness::Big };
        let is64 = choose(2) == 1;
        let n = choose(20);
        let enc = w::Encoder::new(e, is64);
        let name: Vec<u8> = (0..n).map(|i| b'a' + i as u8).collect();
        let d = w::DylibCommand { cmd: m::LC_LOAD_DYLIB, name: &name, timestamp: 0x1234, current_version: m::Version(5), compatibility_version: m::Version(6) };
        let raw: Vec<u8> = (0..choose(5)).map(|i| i as u8).collect();
        let size = enc.dylib_command_size(n) + enc.load_command_size(raw.len() as u64);
        let mut b: Vec<u8> = Vec::new();
        enc.mach_header(&mut b, &w::MachHeader { cputype: m::CPU_TYPE_X86_64, cpusubtype: m::CpuSubtype(3), filetype: m::FileType(2), ncmds: 2, sizeofcmds: size as u32, flags: m::FileFlags(0) });
        let h = b.len();
        enc.dylib_command(&mut b, &d);
        enc.load_command(&mut b, m::LC_UUID, &raw);
        ensure!(b.len() as u64 == h as u64 + size, "sizes");
        let mut it = if is64 { H64::parse(&b[..], 0).unwrap().load_commands(e, &b[..], 0).unwrap() } else { H32::parse(&b[..], 0).unwrap().load_commands(e, &b[..], 0).unwrap() };
        let c = it.next().unwrap().unwrap();
        let r = c.dylib().unwrap().unwrap();
        ensure!(c.string(e, r.dylib.name).unwrap() == &name[..], "the name is read back");
        let g = w::DylibCommand::from_raw(e, r, c.string(e, r.dylib.name).unwrap());
        same!(g, d; cmd, name, timestamp, current_version, compatibility_version);
        let c = it.next().unwrap().unwrap();
        ensure!(c.cmd() == m::LC_UUID && c.raw_data()[8..] == raw[..] && it.next().unwrap().is_none(), "raw command");
    }
    fn strtab() {
        let e = if choose(2) == 0 { Endianness::Little } else { Endianness::Big };
        let is64 = choose(2) == 1;
        let enc = w::Encoder::new(e, is64);
        let names: [&[u8]; 6] = [b"a", b"bca", b"_main", b"main", b"xyzzy_longer_name", b"ca"];
        let mut t = object::write::StringTable::new();
        let mask = choose(64);
        let ids: Vec<_> = (0..6).filter(|i| mask >> i & 1 == 1).map(|i| (t.add(names[i]), names[i])).collect();
        let mut b = Vec::new();
        let n = enc.strtab(&mut b, &mut t).unwrap();
        ensure!(n as usize == b.len() && n as u64 % enc.address_size() == 0, "the table has its declared, aligned size");
        ensure!(b[0] == 0, "starts with the empty string");
        for (id, s) in ids {
            let o = t.get_offset(id) as usize;
            ensure!(b[o..].starts_with(s) && b[o + s.len()] == 0, "every string is at its offset");
        }
    }
}
