//! The editable Mach-O file: what it holds, and what becomes of it when it is written and read.
use crate::shim::*;
#[allow(unused_imports)]
use ::memchr_dep as mc;
#[allow(unused_imports)]
use object::{build::macho as b, build::Id as _, build::Item as _, macho as x, Endianness};

#[allow(dead_code)]
fn any_endian3() -> Endianness { if any_bool() { Endianness::Little } else { Endianness::Big } }

use object::write::macho as w;
type E = Endianness;
#[allow(dead_code)]
fn put(b: &mut [u8], f: impl FnOnce(&mut &mut [u8])) -> usize {
    let n = b.len();
    let mut s: &mut [u8] = b;
    f(&mut s);
    n - s.len()
}
#[allow(dead_code)]
fn whole<T: object::pod::Pod>(b: &[u8]) -> &T { object::pod::from_bytes(b).unwrap().0 }
macro_rules! same {
    ($got:expr, $want:expr; $($f:ident),*) => { $( ensure!($got.$f == $want.$f, concat!("field ", stringify!($f), " is read back unchanged")); )* };
}
/// One record: written, as long as it says, read back by the reader with every field.
macro_rules! record {
    ($t:ident, $is64:expr, $size:ident($($a:expr),*), $put:ident, $val:expr, $from:ident; $($f:ident),*) => { record!($t, $is64, $size($($a),*), $put, $val, $from, |_r, _e, _n| {}; $($f),*) };
    ($t:ident, $is64:expr, $size:ident($($a:expr),*), $put:ident, $val:expr, $from:ident, $more:expr; $($f:ident),*) => {{
        let e = any_endian3();
        let is64: bool = $is64;
        let enc = w::Encoder::new(e, is64);
        ensure!(enc.is_64() == is64 && enc.endian() == e && enc.address_size() == if is64 { 8 } else { 4 }, "the encoder is for what it was asked for");
        let v = $val;
        let mut b = [0xa5u8; 96];
        let n = put(&mut b, |b| enc.$put(b, &v));
        ensure!(n == std::mem::size_of::<x::$t<E>>() && enc.$size($($a),*) == n as u64, "a record has its declared size");
        let r = match object::pod::from_bytes::<x::$t<E>>(&b) { Ok((r, _)) => r, Err(_) => { ensure!(false, "whole record"); return } };
        let g = w::$from::from_raw(e, r);
        same!(g, v; $($f),*);
        let more: fn(&x::$t<E>, E, usize) = $more;
        more(r, e, n);
    }};
}
macro_rules! mach_header {
    ($t:ident, $is64:literal) => { record!($t, $is64, mach_header_size(), mach_header, w::MachHeader { cputype: x::CpuType(any()), cpusubtype: x::CpuSubtype(any()), filetype: x::FileType(any()), ncmds: any(), sizeofcmds: any(), flags: x::FileFlags(any()) }, MachHeader, |r, e, _| {
        use object::read::macho::MachHeader as _;
        let d = object::pod::bytes_of(r);
        let p = x::$t::<E>::parse(d, 0);
        ensure!(matches!(p, Ok(p) if matches!(p.endian(), Ok(v) if v == e) && p.is_type_64() == $is64), "a header is recognised");
    }; cputype, cpusubtype, filetype, ncmds, sizeofcmds, flags) };
}
macro_rules! segment_command {
    ($t:ident, $is64:literal, $word:ty, $cmd:expr, $sect:literal) => { record!($t, $is64, segment_command_size(0), segment_command, w::SegmentCommand { segname: any_array(), vmaddr: any::<$word>() as u64, vmsize: any::<$word>() as u64, fileoff: any::<$word>() as u64, filesize: any::<$word>() as u64, maxprot: x::VmProt(any()), initprot: x::VmProt(any()), nsects: any_below(256) as u32, flags: x::SegmentFlags(any()) }, SegmentCommand, |r, e, n| {
        ensure!(r.cmd.get(e) == $cmd && r.cmdsize.get(e) as usize == n + r.nsects.get(e) as usize * $sect, "a segment command covers its sections");
        ensure!(w::Encoder::new(e, $is64).segment_command_size(r.nsects.get(e)) == r.cmdsize.get(e) as u64, "the declared size");
    }; segname, vmaddr, vmsize, fileoff, filesize, maxprot, initprot, nsects, flags) };
}
macro_rules! section_header {
    ($t:ident, $is64:literal, $word:ty) => { record!($t, $is64, section_header_size(), section_header, w::SectionHeader { sectname: any_array(), segname: any_array(), addr: any::<$word>() as u64, size: any::<$word>() as u64, offset: any(), align: any(), reloff: any(), nreloc: any(), flags: x::SectionFlags(any()), reserved1: any(), reserved2: any(), reserved3: if $is64 { any() } else { 0 } }, SectionHeader; sectname, segname, addr, size, offset, align, reloff, nreloc, flags, reserved1, reserved2, reserved3) };
}
macro_rules! symbol {
    ($t:ident, $is64:literal, $word:ty) => { record!($t, $is64, nlist_size(), nlist, w::Nlist { n_strx: any(), n_type: x::SymbolFlags(any()), n_sect: any(), n_desc: x::SymbolDesc(any()), n_value: any::<$word>() as u64 }, Nlist; n_strx, n_type, n_sect, n_desc, n_value) };
}
/// A command that is one record: its kind and size.
macro_rules! is {
    ($cmd:expr) => { |r, e, n| ensure!(r.cmd.get(e) == $cmd && r.cmdsize.get(e) as usize == n, "a command has its kind and size") };
}

harnesses! {
    fn header32() { mach_header!(MachHeader32, false) }
    fn header64() { mach_header!(MachHeader64, true) }
    fn segment32() { segment_command!(SegmentCommand32, false, u32, x::LC_SEGMENT, 68) }
    fn segment64() { segment_command!(SegmentCommand64, true, u64, x::LC_SEGMENT_64, 80) }
    fn section32() { section_header!(Section32, false, u32) }
    fn section64() { section_header!(Section64, true, u64) }
    fn symbol32() { symbol!(Nlist32, false, u32) }
    fn symbol64() { symbol!(Nlist64, true, u64) }
    fn symtab_command() { record!(SymtabCommand, any_bool(), symtab_command_size(), symtab_command, w::SymtabCommand { symoff: any(), nsyms: any(), stroff: any(), strsize: any() }, SymtabCommand, is!(x::LC_SYMTAB); symoff, nsyms, stroff, strsize) }
    fn dysymtab_command() { record!(DysymtabCommand, any_bool(), dysymtab_command_size(), dysymtab_command, w::DysymtabCommand { ilocalsym: any(), nlocalsym: any(), iextdefsym: any(), nextdefsym: any(), iundefsym: any(), nundefsym: any(), tocoff: any(), ntoc: any(), modtaboff: any(), nmodtab: any(), extrefsymoff: any(), nextrefsyms: any(), indirectsymoff: any(), nindirectsyms: any(), extreloff: any(), nextrel: any(), locreloff: any(), nlocrel: any() }, DysymtabCommand, is!(x::LC_DYSYMTAB); ilocalsym, nlocalsym, iextdefsym, nextdefsym, iundefsym, nundefsym, tocoff, ntoc, modtaboff, nmodtab, extrefsymoff, nextrefsyms, indirectsymoff, nindirectsyms, extreloff, nextrel, locreloff, nlocrel) }
    fn build_version() { record!(BuildVersionCommand, any_bool(), build_version_command_size(0), build_version_command, w::BuildVersionCommand { platform: x::Platform(any()), minos: x::Version(any()), sdk: x::Version(any()), ntools: any_below(256) as u32 }, BuildVersionCommand, |r, e, n| ensure!(r.cmd.get(e) == x::LC_BUILD_VERSION && r.cmdsize.get(e) as usize == n + 8 * r.ntools.get(e) as usize, "a version command covers its tools"); platform, minos, sdk, ntools) }
    /// Records without a native form of their own.
    fn small_records() {
        let e = any_endian3();
        let enc = w::Encoder::new(e, any_bool());
        let mut b = [0xa5u8; 96];
        let (c, o, n) = (x::LoadCommandType(any()), any::<u32>(), any::<u32>());
        let k = put(&mut b, |b| enc.linkedit_data_command(b, c, o, n));
        { let r = whole::<x::LinkeditDataCommand<E>>(&b);
            ensure!(r.cmd.get(e) == c && r.cmdsize.get(e) == 16 && r.dataoff.get(e) == o && r.datasize.get(e) == n && k == 16 && enc.linkedit_data_command_size() == 16, "a link-edit command is as it was given");
        }
        let i = x::IndirectSymbol(any());
        let k = put(&mut b, |b| enc.indirect_symbol(b, i));
        { let r = whole::<object::U32<E, x::IndirectSymbol>>(&b); ensure!(r.get(e) == i && k == 4 && enc.indirect_symbol_size() == 4, "an indirect symbol is as it was given") }
        let (t, v) = (x::Tool(any()), x::Version(any()));
        let k = put(&mut b, |b| enc.build_tool_version(b, t, v));
        { let r = whole::<x::BuildToolVersion<E>>(&b); ensure!(r.tool.get(e) == t && r.version.get(e) == v && k == 8, "a tool is as it was given") }
        let d: [u8; 8] = any_array();
        let k = put(&mut b, |b| enc.load_command(b, c, &d));
        { let r = whole::<x::LoadCommand<E>>(&b); ensure!(r.cmd.get(e) == c && r.cmdsize.get(e) == 16 && b[8..16] == d && k == 16 && enc.load_command_size(8) == 16, "a raw command is as it was given") }
        reach!(true, "the case is reached");
    }
    fn dyld_info() {
        let c = x::LoadCommandType(any());
        let e = any_endian3();
        let enc = w::Encoder::new(e, any_bool());
        let mut b = [0xa5u8; 96];
        let v = w::DyldInfoCommand { rebase_off: any(), rebase_size: any(), bind_off: any(), bind_size: any(), weak_bind_off: any(), weak_bind_size: any(), lazy_bind_off: any(), lazy_bind_size: any(), export_off: any(), export_size: any() };
        let k = put(&mut b, |b| enc.dyld_info_command(b, c, &v));
        { let r = whole::<x::DyldInfoCommand<E>>(&b);
            ensure!(k == 48 && enc.dyld_info_command_size() == 48 && r.cmd.get(e) == c && r.cmdsize.get(e) == 48, "a command has its kind and size");
            let g = w::DyldInfoCommand::from_raw(e, r);
            same!(g, v; rebase_off, rebase_size, bind_off, bind_size, weak_bind_off, weak_bind_size, lazy_bind_off, lazy_bind_size, export_off, export_size);
        }
    }
    /// The size of a library command is a multiple of the word and holds the name and a zero, for any name.
    fn dylib_size() {
        let is64 = any_bool();
        let enc = w::Encoder::new(any_endian3(), is64);
        let n: u32 = any();
        let word = if is64 { 8 } else { 4 };
        let s = enc.dylib_command_size(n as usize);
        ensure!(s % word == 0 && s >= 24 + n as u64 + 1 && s - (24 + n as u64 + 1) < word, "a library command is the smallest that holds its name");
    }
    /// What a symbol is, for any type byte.
    fn symbol_kinds() {
        let mut f = b::Builder::new(any_endian3(), any_bool());
        let s = f.symbols.add();
        let t: u8 = any();
        s.n_type = x::SymbolFlags(t);
        ensure!(s.is_undefined() == (t & 0xe0 == 0 && t & 0x0e == 0), "an undefined symbol is no stab and has no place");
        ensure!(s.is_extdef() == (t & 1 != 0 && t & 0x10 == 0), "a symbol is visible when external and not private");
        reach!(s.is_undefined() && s.is_extdef(), "both answers");
    }
    /// A name is what comes before the first zero.
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn fixed_names() {
        let mut f = b::Builder::new(any_endian3(), any_bool());
        let n: [u8; 16] = any_array();
        // Any position.
        let k = witness();
        let good = |name: &[u8], whole: &[u8; 16]| name.as_ptr() == whole.as_ptr() && name.len() <= 16 && (name.len() == 16 || n[name.len()] == 0) && (k >= name.len() || n[k] != 0);
        let g = f.segments.add();
        g.segname = n;
        ensure!(good(g.segname(), &g.segname), "a segment's name ends at the first zero");
        let s = f.sections.add();
        s.segname = n; s.sectname = n;
        ensure!(good(s.segname(), &s.segname) && good(s.sectname(), &s.sectname), "a section's names end at the first zero");
        reach!(s.segname().len() == 16, "a name without a zero");
        std::mem::forget(f);
    }
}
natives! {
    /// Random object files through the builder, the reader, and the builder again, with and without edits.
    fn rebuild_object() { low::rebuild(true) }
    /// Random executables and libraries in the same way.
    fn rebuild_image() { low::rebuild(false) }
    /// A damaged file is refused, or all that it names is there.
    fn damaged() { low::damaged() }
    /// Sections of an object file that were given no address.
    fn assigned() { low::assigned() }
    /// An indirect symbol that is deleted.
    fn indirect() { low::indirect() }
    /// A relocation that only carries an addend.
    fn addend() { low::addend() }
}
#[cfg(not(kani))]
mod low {
    use super::*;
    use object::read::macho::{LoadCommandVariant as V, MachHeader, Nlist as _, Section as _, Segment as _};
    use std::collections::BTreeMap;
    use b::{IndirectSymbol as I, LoadCommand as C, RelocationTarget as T, SectionData as D};

    fn word(n: u64) -> Vec<u8> { (0..n).map(|_| b'a' + uni(6) as u8).collect() }
    fn fresh(seen: &mut Vec<Vec<u8>>) -> Vec<u8> { loop { let n = word(1 + uni(7)); if !seen.contains(&n) { seen.push(n.clone()); return n } } }
    fn bytes(n: u64) -> Vec<u8> { (0..n).map(|_| any()).collect() }
    fn t(v: &[u8]) -> String { String::from_utf8_lossy(v).trim_end_matches('\0').to_string() }
    fn fit(is64: bool) -> u64 { let v = any::<u64>() >> uni(64); if is64 { v } else { v & 0xffff_ffff } }
    fn pad(n: &[u8]) -> [u8; 16] { let mut v = [0; 16]; v[..n.len()].copy_from_slice(n); v }
    fn pick<T: Copy>(l: &[T]) -> T { l[uni(l.len() as u64) as usize] }

    /// Everything in a file that is not deleted and names nothing deleted.
    type View = BTreeMap<String, String>;
    fn view(f: &b::Builder<'_>, raw: bool) -> View {
        let mut v = View::new();
        let mut put = |k: String, s: String| { let mut k = k; while v.contains_key(&k) { k.push('\'') } v.insert(k, s); };
        let object = f.header.filetype == x::MH_OBJECT;
        put("header".into(), format!("{:?} {:?} {:?} {:?} {:?} {}", f.header.cputype, f.header.cpusubtype, f.header.filetype, f.header.flags, f.endian, f.is_64));
        let sec = |id: b::SectionId| { let s = f.sections.get(id); format!("{},{}", t(&s.segname), t(&s.sectname)) };
        let sym = |id: b::SymbolId| t(&f.symbols.get(id).name);
        let live_sec = |id: b::SectionId| !f.sections.get(id).delete;
        let live_sym = |id: b::SymbolId| { let s = f.symbols.get(id); !s.delete && s.section.map_or(true, live_sec) };
        let live_seg = |id: b::SegmentId| { let g = f.segments.get(id); !g.delete && (g.sections.is_empty() || g.sections.iter().any(|s| live_sec(*s))) };
        let lib = |d: &b::Dylib<'_>| format!("{:?} {} {:x} {:?} {:?}", d.cmd, t(&d.name), d.timestamp, d.current_version, d.compatibility_version);
        let mut n = 0;
        for c in &f.commands {
            let s = match c {
                C::Segment(id) if live_seg(*id) => {
                    let g = f.segments.get(*id);
                    let size = if object || g.segname() == b"__LINKEDIT" { 0 } else { g.vmsize };
                    for s in &g.sections {
                        if !live_sec(*s) { continue }
                        let k = f.sections.get(*s);
                        let data = match &k.data { D::Data(d) => format!("{:?}", d.as_slice()), D::UninitializedData(n) => format!("zero {n}") };
                        put(format!("section {}", sec(*s)), format!("{:x} {} {:?} {} {data} {:?}", k.addr, k.align, k.flags, k.symbol_stub_size, k.indirect_symbols.iter().map(|i| match i { I::Flags(f) => format!("{f:?}"), I::Symbol(y) => sym(*y) }).collect::<Vec<_>>()));
                        for (i, r) in k.relocations.iter().filter(|r| match r.target { T::Symbol(y) => live_sym(y), T::Section(s) => live_sec(s) }).enumerate() {
                            let to = match r.target { T::Symbol(y) => format!("symbol {}", sym(y)), T::Section(s) => format!("section {}", sec(s)) };
                            put(format!("reloc {} {i:04}", sec(*s)), format!("{to} {:x} {} {} {:?}", r.r_address, r.r_pcrel, r.r_length, r.r_type));
                        }
                    }
                    format!("segment {} {:x} {size:x} {:?} {:?} {:?} {:?}", t(&g.segname), g.vmaddr, g.maxprot, g.initprot, g.flags, g.sections.iter().filter(|s| live_sec(**s)).map(|s| sec(*s)).collect::<Vec<_>>())
                }
                C::Segment(_) => continue,
                C::Symtab => "symtab".into(), C::Dysymtab => "dysymtab".into(),
                C::Dylib(id) if f.dylibs.get(*id).delete => continue,
                C::Dylib(id) => format!("dylib {}", lib(f.dylibs.get(*id))),
                C::IdDylib(d) => format!("dylib {}", lib(d)),
                C::BuildVersion(q) => format!("version {:?} {:?} {:?} {:?}", q.platform, q.minos, q.sdk, q.tools.iter().map(|q| (q.tool, q.version)).collect::<Vec<_>>()),
                C::LinkeditData { cmd, data } => format!("linkedit {cmd:?} {:?}", data.as_slice()),
                C::DyldInfo { rebase, bind, weak_bind, lazy_bind, export } => format!("dyld {:?}", [rebase, bind, weak_bind, lazy_bind, export].map(|d| d.as_slice().to_vec())),
                C::Other { cmd, data } => format!("other {cmd:?} {:?}", data.as_slice()),
            };
            put(format!("command {n:03}"), s);
            n += 1;
        }
        for s in &f.symbols {
            if !live_sym(s.id()) { continue }
            put(format!("symbol {}", t(&s.name)), format!("{:?} {} {:?} {:?} {:x}", s.section.map(sec), if s.section.is_some() || !raw { 0 } else { s.n_sect }, s.n_type, s.n_desc, s.n_value));
        }
        v
    }
    fn same(a: &View, c: &View, why: &str) -> bool {
        for (k, v) in a { if c.get(k) != Some(v) { eprintln!("{why}: {k}: {v} became {:?}", c.get(k)); return false } }
        for k in c.keys() { if !a.contains_key(k) { eprintln!("{why}: {k} appeared: {}", c[k]); return false } }
        true
    }

    fn make(object: bool) -> b::Builder<'static> {
        let is64 = uni(2) == 0;
        let e = if uni(2) == 0 { Endianness::Little } else { Endianness::Big };
        let mut f = b::Builder::new(e, is64);
        f.page_size = pick(&[0x1000, 0x2000, 0x4000]);
        f.header.cputype = x::CpuType(any()); f.header.cpusubtype = x::CpuSubtype(any()); f.header.flags = x::FileFlags(any());
        f.header.filetype = if object { x::MH_OBJECT } else { pick(&[x::MH_EXECUTE, x::MH_DYLIB, x::MH_BUNDLE, x::MH_DYLINKER]) };
        let mut names: Vec<Vec<u8>> = vec![];
        let mut libs: Vec<Vec<u8>> = vec![];
        // Segments are added in any order.
        let count = if object { 1 } else { 1 + uni(4) as usize };
        let mut ids: Vec<b::SegmentId> = (0..count).map(|_| f.segments.add().id()).collect();
        if uni(2) == 0 { ids.reverse() }
        let mut at = if object { 0 } else { uni(4) * 0x4000 };
        let mut room = !object;
        let linkedit = !object && count > 1 && uni(3) > 0;
        let mut indirect = 0;
        for (k, id) in ids.iter().enumerate() {
            let last = linkedit && k + 1 == count;
            let mut here = vec![];
            let start = at;
            if room { at += 0x1000 }
            for _ in 0..if last { 0 } else { uni(5) } {
                let n = fresh(&mut names);
                let kind = pick(&[x::S_REGULAR, x::S_REGULAR, x::S_ZEROFILL, x::S_CSTRING_LITERALS, x::S_NON_LAZY_SYMBOL_POINTERS, x::S_LAZY_SYMBOL_POINTERS, x::S_SYMBOL_STUBS, x::S_GB_ZEROFILL, x::S_THREAD_LOCAL_ZEROFILL, x::S_THREAD_LOCAL_VARIABLE_POINTERS]);
                let zero = matches!(kind, x::S_ZEROFILL | x::S_GB_ZEROFILL | x::S_THREAD_LOCAL_ZEROFILL);
                let align = uni(6) as u32;
                let entry = match kind { x::S_SYMBOL_STUBS => 1 + uni(8), x::S_NON_LAZY_SYMBOL_POINTERS | x::S_LAZY_SYMBOL_POINTERS | x::S_THREAD_LOCAL_VARIABLE_POINTERS => if is64 { 8 } else { 4 }, _ => 0 };
                let size = uni(50);
                let s = f.sections.add();
                s.sectname = pad(&n); s.segname = pad(pick(&[&b"__TEXT"[..], b"__DATA", b"__sixteen_bytes_"]));
                s.flags = x::SectionFlags(kind.0 as u32 | any::<u32>() & 0xffff_ff00);
                s.align = align;
                if kind == x::S_SYMBOL_STUBS { s.symbol_stub_size = entry as u32 }
                s.data = if zero { D::UninitializedData(size as u32) } else { D::Data(bytes(size).into()) };
                if entry != 0 { indirect += size / entry; s.indirect_symbols = (0..size / entry).map(|_| I::Flags(pick(&[x::INDIRECT_SYMBOL_LOCAL, x::INDIRECT_SYMBOL_ABS]))).collect() }
                if object { s.addr = fit(is64) } else {
                    at = (at + (1 << align) - 1) & !((1 << align) - 1);
                    s.addr = at;
                    at += size;
                    if !zero && room { room = false }
                }
                here.push(s.id());
            }
            // The sections of an object can be in any order.
            if object { for i in (1..here.len()).rev() { here.swap(i, uni(i as u64 + 1) as usize) } }
            let g = f.segments.get_mut(*id);
            g.sections = here;
            g.maxprot = x::VmProt(any()); g.initprot = x::VmProt(any()); g.flags = x::SegmentFlags(any());
            if !object {
                g.segname = pad(if last { &b"__LINKEDIT"[..] } else { [&b"__TEXT"[..], b"__DATA", b"__DATA_CONST", b"__OBJC"][k % 4] });
                g.vmaddr = start;
                at = (at + 0x3fff) & !0x3fff;
                if uni(3) == 0 { at += 0x4000 }
                g.vmsize = at - start;
                if uni(3) == 0 { at += 0x8000 }
            }
        }
        let plain: Vec<b::SectionId> = f.sections.iter().map(|s| s.id()).collect();
        // Symbols.
        let mut seen: Vec<Vec<u8>> = vec![];
        let mut syms = vec![];
        for _ in 0..uni(9) {
            let n = fresh(&mut seen);
            let stab = uni(8) == 0;
            let s = f.symbols.add();
            s.name = n.into(); s.n_desc = x::SymbolDesc(any()); s.n_value = fit(is64);
            let bits = pick(&[0u8, 1, 0x10, 0x11]);
            if stab { s.n_type = x::SymbolFlags(pick(&[0x20, 0x24, 0x26, 0x44, 0x64, 0x66, 0x80, 0x84])); s.n_sect = uni(plain.len() as u64 + 1) as u8 }
            else if !plain.is_empty() && uni(3) > 0 { s.n_type = x::SymbolFlags(0xe | bits); s.section = Some(pick(&plain)) }
            else { s.n_type = x::SymbolFlags(pick(&[0, 2, 0xa, 0xc]) | bits) }
            syms.push(s.id());
        }
        for id in &plain {
            let n = if object && uni(2) == 0 { uni(5) } else { 0 };
            let s = f.sections.get_mut(*id);
            s.relocations = (0..n).map(|_| b::Relocation { target: if !syms.is_empty() && uni(2) == 0 { T::Symbol(pick(&syms)) } else { T::Section(pick(&plain)) }, r_address: any::<u32>() >> 1, r_pcrel: uni(2) == 0, r_length: uni(4) as u8, r_type: x::RelocationType(uni(16) as u8) }).collect();
            for i in &mut s.indirect_symbols { if !syms.is_empty() && uni(3) > 0 { *i = I::Symbol(pick(&syms)) } }
        }
        // Commands, with the segments in the order of their addresses.
        let mut other: Vec<C<'static>> = vec![];
        if !syms.is_empty() || uni(2) == 0 { other.push(C::Symtab) }
        if indirect != 0 || uni(2) == 0 { other.push(C::Dysymtab) }
        for _ in 0..uni(4) {
            let q = |d: &mut Vec<Vec<u8>>| b::Dylib { delete: false, cmd: pick(&[x::LC_LOAD_DYLIB, x::LC_LOAD_WEAK_DYLIB, x::LC_REEXPORT_DYLIB, x::LC_LAZY_LOAD_DYLIB, x::LC_LOAD_UPWARD_DYLIB]), name: fresh(d).into(), timestamp: any(), current_version: x::Version(any()), compatibility_version: x::Version(any()) };
            other.push(match uni(6) {
                // A library that is loaded is one of the builder's when the file is read.
                0 => C::IdDylib(q(&mut libs)),
                1 => C::IdDylib(b::Dylib { cmd: x::LC_ID_DYLIB, ..q(&mut libs) }),
                2 => C::BuildVersion(b::BuildVersion { platform: x::Platform(any()), minos: x::Version(any()), sdk: x::Version(any()), tools: (0..uni(3)).map(|_| b::BuildToolVersion { tool: x::Tool(any()), version: x::Version(any()) }).collect() }),
                3 => C::LinkeditData { cmd: pick(&[x::LC_SEGMENT_SPLIT_INFO, x::LC_FUNCTION_STARTS, x::LC_DATA_IN_CODE, x::LC_DYLIB_CODE_SIGN_DRS, x::LC_LINKER_OPTIMIZATION_HINT, x::LC_DYLD_EXPORTS_TRIE, x::LC_DYLD_CHAINED_FIXUPS]), data: bytes(uni(40)).into() },
                4 => { let mut d = || bytes(if uni(2) == 0 { 0 } else { uni(20) }).into(); C::DyldInfo { rebase: d(), bind: d(), weak_bind: d(), lazy_bind: d(), export: d() } }
                _ => match uni(4) { 0 => C::Other { cmd: x::LC_UUID, data: bytes(16).into() }, 1 => C::Other { cmd: x::LC_SOURCE_VERSION, data: bytes(8).into() }, 2 => C::Other { cmd: x::LC_MAIN, data: bytes(16).into() }, _ => C::Other { cmd: x::LC_LOAD_DYLINKER, data: [&(if matches!(e, Endianness::Little) { 12u32.to_le_bytes() } else { 12u32.to_be_bytes() })[..], &word(11), &[0]].concat().into() } },
            });
        }
        if uni(4) == 0 { other.push(C::LinkeditData { cmd: x::LC_CODE_SIGNATURE, data: bytes(uni(40)).into() }) }
        for i in (1..other.len()).rev() { other.swap(i, uni(i as u64 + 1) as usize) }
        let mut segs = ids.into_iter().peekable();
        let mut rest = other.into_iter().peekable();
        while segs.peek().is_some() || rest.peek().is_some() {
            if rest.peek().is_none() || segs.peek().is_some() && uni(2) == 0 { f.commands.push(C::Segment(segs.next().unwrap())) } else { f.commands.push(rest.next().unwrap()) }
        }
        f
    }
    fn emit(f: b::Builder<'_>) -> Option<&'static [u8]> {
        let mut out = vec![];
        match f.write(&mut out) { Ok(()) => Some(crate::fuzz::settle(out)), Err(e) => { eprintln!("{e}"); None } }
    }
    /// What readers say that the builder does not: where things are.
    fn check<H: MachHeader<Endian = Endianness>>(d: &'static [u8], f: &b::Builder<'_>) {
        let h = H::parse(d, 0).unwrap();
        let e = h.endian().unwrap();
        let object = f.header.filetype == x::MH_OBJECT;
        let front = std::mem::size_of::<H>() as u64 + h.sizeofcmds(e) as u64;
        let mut commands = h.load_commands(e, d, 0).unwrap();
        let mut edit: Vec<(u64, u64)> = vec![];
        let mut range = None;
        let mut taken: Vec<(u64, u64)> = vec![];
        let mut part = None;
        let mut total = 0;
        let mut names: Vec<(bool, bool, Vec<u8>)> = vec![];
        let mut segment = |name: &[u8; 16], off: u64, size: u64, addr: u64, vmsize: u64, secs: Vec<(u64, Option<u64>, u64, u64, u32)>| {
            ensure!(off + size <= d.len() as u64, "a segment is in the file");
            if &name[..11] == b"__LINKEDIT\0" { range = Some((off, off + size)); ensure!(size <= vmsize, "the link-edit segment is loaded whole"); return }
            ensure!(size <= vmsize, "a segment's data is loaded whole");
            ensure!(!object || vmsize >= secs.iter().map(|s| s.3).sum::<u64>(), "an object's segment has room for its sections");
            for (at, data, sa, sn, _) in secs {
                if object { ensure!(sn == 0 || data.is_none() || at >= off && at + sn <= off + size, "a section is in its segment") } else {
                    ensure!(sa >= addr && sa + sn <= addr + vmsize, "a section is at an address of its segment");
                    if data.is_some() && sn != 0 { ensure!(at - off == sa - addr && at + sn <= off + size, "a section is where its address says") }
                }
                if data.is_some() && sn != 0 { taken.push((at, sn)) }
            }
        };
        while let Some(c) = commands.next().unwrap() {
            let mut put = |o: u32, n: u32| if n != 0 { edit.push((o as u64, n as u64)) };
            match c.variant().unwrap() {
                V::Segment32(g, q) => segment(&g.segname, g.fileoff(e) as u64, g.filesize(e) as u64, g.vmaddr(e) as u64, g.vmsize(e) as u64, g.sections(e, q).unwrap().iter().map(|s| (s.offset(e) as u64, s.file_size(e), s.addr(e) as u64, s.size(e) as u64, s.nreloc(e))).collect()),
                V::Segment64(g, q) => segment(&g.segname, g.fileoff(e), g.filesize(e), g.vmaddr(e), g.vmsize(e), g.sections(e, q).unwrap().iter().map(|s| (s.offset(e) as u64, s.file_size(e), s.addr(e), s.size(e), s.nreloc(e))).collect()),
                V::Symtab(q) => {
                    put(q.symoff.get(e), q.nsyms.get(e) * if h.is_type_64() { 16 } else { 12 }); put(q.stroff.get(e), q.strsize.get(e));
                    let l = q.symbols::<H, _>(e, d).unwrap();
                    total = l.len() as u32;
                    for y in l.iter() { let ty = y.n_type(); names.push((ty.0 & 0xe0 == 0 && ty.0 & 0xe == 0, ty.0 & 0x11 == 1, l.symbol_name(e, y).unwrap().to_vec())) }
                }
                V::Dysymtab(q) => { part = Some([q.ilocalsym, q.nlocalsym, q.iextdefsym, q.nextdefsym, q.iundefsym, q.nundefsym].map(|v| v.get(e))); put(q.indirectsymoff.get(e), q.nindirectsyms.get(e) * 4) }
                V::LinkeditData(q) => { put(q.dataoff.get(e), q.datasize.get(e)); if q.cmd.get(e) == x::LC_CODE_SIGNATURE { ensure!(q.dataoff.get(e) % 16 == 0, "a code signature is aligned") } }
                V::DyldInfo(q) => { put(q.rebase_off.get(e), q.rebase_size.get(e)); put(q.bind_off.get(e), q.bind_size.get(e)); put(q.weak_bind_off.get(e), q.weak_bind_size.get(e)); put(q.lazy_bind_off.get(e), q.lazy_bind_size.get(e)); put(q.export_off.get(e), q.export_size.get(e)) }
                _ => {}
            }
        }
        if let Some((lo, hi)) = range { for (o, n) in &edit { ensure!(*o >= lo && o + n <= hi, "link-edit data is in its segment") } }
        taken.extend(edit);
        taken.push((0, front));
        taken.sort();
        for w in taken.windows(2) { ensure!(w[0].0 + w[0].1 <= w[1].0, "the parts of a file are apart") }
        if let Some([il, nl, ie, ne, iu, nu]) = part {
            ensure!(il == 0 && ie == nl && iu == ie + ne && iu + nu == total, "the kinds of symbols follow each other");
            for (i, (undef, ext, _)) in names.iter().enumerate() {
                let i = i as u32;
                ensure!(if i < nl { !undef && !ext } else if i < iu { !undef && *ext } else { *undef }, "a symbol is with its kind");
                if i > ie && i < iu || i > iu { ensure!(names[i as usize - 1].2 <= names[i as usize].2, "symbols of other files are sorted") }
            }
        }
    }
    fn checked(d: &'static [u8], f: &b::Builder<'_>) { if f.is_64 { check::<x::MachHeader64<Endianness>>(d, f) } else { check::<x::MachHeader32<Endianness>>(d, f) } }
    fn again(r: b::Builder<'static>, raw: bool) {
        let want = view(&r, raw);
        let Some(d) = emit(r) else { ensure!(false, "an edited file is written"); return };
        let r = match b::Builder::read(d) { Ok(r) => r, Err(e) => { eprintln!("{e}"); ensure!(false, "an edited file is read"); return } };
        ensure!(same(&want, &view(&r, raw), "editing"), "an edited file has what is left and nothing else");
        checked(d, &r);
    }
    pub(super) fn rebuild(object: bool) {
        let f = make(object);
        let want = view(&f, true);
        let Some(first) = emit(f) else { ensure!(false, "a built file is written"); return };
        let r = match b::Builder::read(first) { Ok(r) => r, Err(e) => { eprintln!("{e}"); ensure!(false, "a written file is read"); return } };
        ensure!(same(&want, &view(&r, true), "building"), "a built file reads back as it was built");
        checked(first, &r);
        let Some(second) = emit(r) else { ensure!(false, "a read file is written"); return };
        let mut r = match b::Builder::read(second) { Ok(r) => r, Err(_) => { ensure!(false, "a rewritten file is read"); return } };
        ensure!(same(&want, &view(&r, true), "rewriting"), "a file that is read and written is the same");
        checked(second, &r);
        reach!(true, "the case is reached");
        let syms: Vec<_> = r.symbols.iter().map(|s| s.id()).collect();
        let secs: Vec<_> = r.sections.iter().map(|s| s.id()).collect();
        // An indirect symbol cannot go.
        let held: Vec<_> = r.sections.iter().flat_map(|s| s.indirect_symbols.iter()).filter_map(|i| match i { I::Symbol(y) => Some(*y), _ => None }).collect();
        for _ in 0..1 + uni(3) {
            match uni(8) {
                0 => { if !syms.is_empty() { let id = pick(&syms); if !held.contains(&id) { r.symbols.get_mut(id).delete = true } } }
                1 => {
                    if secs.is_empty() { continue }
                    let id = pick(&secs);
                    if r.symbols.iter().any(|y| y.section == Some(id) && held.contains(&y.id())) { continue }
                    let left = r.sections.iter().filter(|s| s.id() != id).count();
                    // An object keeps its segment; the first data of an image leaves room for the commands.
                    if object && left == 0 || !object && r.sections.iter().find(|s| matches!(s.data, D::Data(_))).map(|s| s.id()) == Some(id) { continue }
                    r.sections.get_mut(id).delete = true;
                }
                2 => {
                    // A segment and all that it has.
                    let l: Vec<_> = r.segments.iter().map(|g| g.id()).collect();
                    if object || l.is_empty() { continue }
                    let id = pick(&l);
                    let has = r.segments.get(id).sections.clone();
                    let first = r.sections.iter().find(|s| matches!(s.data, D::Data(_))).map(|s| s.id());
                    if has.iter().any(|s| Some(*s) == first || r.symbols.iter().any(|y| y.section == Some(*s) && held.contains(&y.id()))) { continue }
                    for s in &has { r.sections.get_mut(*s).delete = true }
                    r.segments.get_mut(id).delete = true;
                }
                3 => { let l: Vec<_> = r.commands.iter().filter_map(|c| if let C::Dylib(id) = c { Some(*id) } else { None }).collect(); if !l.is_empty() { let id = pick(&l); r.dylibs.get_mut(id).delete = true } }
                4 => { if !syms.is_empty() { let y = r.symbols.get_mut(pick(&syms)); y.n_value ^= 1; y.n_desc.0 ^= 0x100; if uni(2) == 0 { let mut n = word(3); n.push(b'!'); n.extend(&word(9)); y.name = n.into() } } }
                5 => {
                    let n = [&b"added"[..], &word(5)].concat();
                    if !r.commands.iter().any(|c| matches!(c, C::Symtab)) { continue }
                    let at = secs.iter().copied().find(|s| !r.sections.get(*s).delete);
                    let y = r.symbols.add();
                    y.name = n.into(); y.n_type = x::SymbolFlags(if at.is_some() { 0xf } else { 1 }); y.section = at; y.n_value = 5;
                }
                6 => { if let Some(D::Data(v)) = r.sections.iter_mut().map(|s| &mut s.data).find(|d| matches!(d, D::Data(v) if v.len() > 0)) { v.to_mut()[0] ^= 0x55 } }
                _ => { let i = r.commands.len(); if let Some(k) = (0..i).find(|k| matches!(r.commands[*k], C::LinkeditData { .. } | C::DyldInfo { .. } | C::Other { .. } | C::BuildVersion(_))) { if uni(2) == 0 { r.commands.remove(k); } else if let C::LinkeditData { data, .. } = &mut r.commands[k] { *data = bytes(uni(30)).into() } } r.header.flags.0 ^= 1 }
            }
        }
        again(r, false)
    }
    pub(super) fn damaged() {
        let Some(first) = emit(make(uni(2) == 0)) else { return };
        let mut d = first.to_vec();
        let n = d.len() as u64;
        for _ in 0..1 + uni(4) {
            let at = match uni(3) { 0 => uni(32), 1 => uni(n.min(700)), _ => uni(n) } as usize;
            d[at] = match uni(4) { 0 => any(), 1 => d[at].wrapping_add(1), 2 => d[at].wrapping_sub(1), _ => [0, 1, 2, 0x7f, 0x80, 0xff][uni(6) as usize] };
        }
        if uni(8) == 0 { d.truncate(uni(n) as usize) }
        let d: &'static [u8] = crate::fuzz::settle(d);
        let Ok(r) = b::Builder::read(d) else { return };
        // Everything that is named is there.
        let _ = view(&r, true);
        reach!(true, "the case is reached");
    }
    fn small() -> b::Builder<'static> {
        let mut f = b::Builder::new(Endianness::Little, true);
        f.header.cputype = x::CPU_TYPE_ARM64; f.header.filetype = x::MH_OBJECT;
        let g = f.segments.add().id();
        for n in [&b"__a"[..], b"__b"] {
            let s = f.sections.add();
            s.sectname = pad(n); s.segname = pad(b"__DATA"); s.align = 3;
            s.data = D::Data(bytes(16).into());
            let id = s.id();
            f.segments.get_mut(g).sections.push(id);
        }
        f.commands = vec![C::Segment(g), C::Symtab, C::Dysymtab];
        f
    }
    pub(super) fn assigned() {
        let Some(d) = emit(small()) else { ensure!(false, "an object is written"); return };
        let r = b::Builder::read(d).unwrap();
        let a: Vec<u64> = r.sections.iter().map(|s| s.addr).collect();
        ensure!(a[0].abs_diff(a[1]) >= 16, "the sections of an object are assigned addresses");
    }
    pub(super) fn indirect() {
        let mut f = small();
        let mut ids = vec![];
        for n in [&b"_one"[..], b"_two"] { let y = f.symbols.add(); y.name = n.into(); y.n_type = x::SymbolFlags(1); ids.push(y.id()) }
        let s = f.sections.iter_mut().next().unwrap();
        s.flags = x::SectionFlags(x::S_NON_LAZY_SYMBOL_POINTERS.0 as u32);
        s.indirect_symbols = ids.iter().map(|i| I::Symbol(*i)).collect();
        f.symbols.get_mut(ids[0]).delete = true;
        let Some(d) = emit(f) else { return };
        let r = b::Builder::read(d).unwrap();
        let s = r.sections.iter().next().unwrap();
        ensure!(!matches!(s.indirect_symbols[0], I::Symbol(y) if r.symbols.get(y).name.as_slice() == b"_two"), "an indirect symbol that is deleted is not another one");
    }
    pub(super) fn addend() {
        let mut f = small();
        let y = f.symbols.add();
        y.name = b"_one"[..].into(); y.n_type = x::SymbolFlags(1);
        let y = y.id();
        let s = f.sections.iter_mut().next().unwrap();
        s.relocations = [x::ARM64_RELOC_PAGE21, x::ARM64_RELOC_PAGE21].map(|r_type| b::Relocation { target: T::Symbol(y), r_address: 0, r_pcrel: false, r_length: 2, r_type }).to_vec();
        let Some(d) = emit(f) else { return };
        let mut d = d.to_vec();
        // The first relocation becomes the addend of the second.
        let h = x::MachHeader64::<Endianness>::parse(&*d, 0).unwrap();
        let mut c = h.load_commands(Endianness::Little, &*d, 0).unwrap();
        let V::Segment64(g, q) = c.next().unwrap().unwrap().variant().unwrap() else { return };
        let at = g.sections(Endianness::Little, q).unwrap()[0].reloff(Endianness::Little) as usize;
        let word = 0x20u32 | 2 << 25 | (x::ARM64_RELOC_ADDEND.0 as u32) << 28;
        d[at + 4..at + 8].copy_from_slice(&word.to_le_bytes());
        let d: &'static [u8] = crate::fuzz::settle(d);
        let r = b::Builder::read(d);
        ensure!(r.is_ok(), "a relocation that carries an addend is read");
        let Some(d) = emit(r.unwrap()) else { ensure!(false, "a relocation that carries an addend is written"); return };
        ensure!(d[at + 4..at + 8] == word.to_le_bytes(), "a relocation keeps its addend");
    }
}
