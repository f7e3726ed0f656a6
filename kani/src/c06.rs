//! Malformed Mach-O input.
use crate::shim::*;
use ::memchr_dep as mc;
use object::macho;
use object::pod::{bytes_of, bytes_of_slice};
use object::read::macho::*;
use object::read::{ReadRef, SymbolIndex};
use object::{BigEndian, Endianness, LittleEndian};

type M32 = macho::MachHeader32<Endianness>;
type M64 = macho::MachHeader64<Endianness>;
macro_rules! inside { ($b:expr, $d:expr) => { ensure!(inside($b, $d), "the result is made of bytes of the file") } }

macro_rules! header { ($t:ty) => {{
    let d = any_bytes::<128>();
    let off: u64 = any();
    let r = <$t>::parse(d, off);
    if let Ok(h) = r {
        reach!(off > 1000, "a header inside a file");
        inside!(bytes_of(h), d);
        ensure!(h.is_supported(), "only supported magic numbers");
        if let Ok(e) = h.endian() {
            if let Ok(mut it) = h.load_commands(e, d, off) {
                match it.next() {
                    Ok(Some(c)) => {
                        reach!(c.cmdsize() > 1000, "a load command");
                        inside!(c.raw_data(), d);
                        ensure!(is_at(c.raw_data(), d, off as usize + core::mem::size_of::<$t>(), c.cmdsize() as usize), "the first command follows the header");
                        ensure!(c.cmdsize() <= h.sizeofcmds(e), "commands are inside the command area");
                        ensure!(c.offset() == core::mem::size_of::<$t>() as u64, "command offsets are relative to the header");
                        if let Ok(Some(n)) = it.next() {
                            ensure!(is_at(n.raw_data(), d, off as usize + core::mem::size_of::<$t>() + c.cmdsize() as usize, n.cmdsize() as usize), "commands follow each other");
                        }
                    }
                    Ok(None) => ensure!(h.ncmds(e) == 0, "no commands only when none are declared"),
                    Err(_) => ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"),
                }
            }
        }
    }
}}}
/// A load command of any type and any size up to a page.
fn command(d: &'static [u8], e: Endianness) -> Option<LoadCommandData<'static, Endianness>> {
    let h = M64::parse(d, 0).ok()?;
    if h.endian().ok()? != e { return None }
    h.load_commands(e, d, 0).ok()?.next().ok()?
}
macro_rules! segment { ($s:ty, $f:ident) => {{
    let (d, e) = (any_bytes::<128>(), any_endian());
    let Some(c) = command(d, e) else { return };
    let r = c.$f();
    if let Ok(Some((s, rest))) = r {
        inside!(bytes_of(s), c.raw_data());
        inside!(rest, c.raw_data());
        let s: &$s = s;
        let (o, n) = s.file_range(e);
        if let Ok(b) = s.data(e, d) { ensure!(is_read(b, d, o, n), "segment data is its file range"); }
        match s.sections(e, rest) {
            Ok(x) => {
                reach!(x.len() > 100, "sections");
                inside!(bytes_of_slice(x), rest);
                ensure!(x.len() == s.nsects(e) as usize, "as many sections as declared");
            }
            Err(_) => ensure!(s.nsects(e) > 0, "no sections is not an error"),
        }
    }
}}}
macro_rules! sect { ($s:ty) => {{
    let (d, e) = (any_bytes::<128>(), any_endian());
    let s = any_pod!($s);
    let off: u64 = any();
    if let Ok(b) = s.data(e, d, off) {
        reach!(b.len() > 1000, "section data");
        match s.file_range(e, off) { Some((o, n)) => ensure!(is_read(b, d, o, n), "section data is its file range"), None => ensure!(b.is_empty(), "no data") }
    }
    if let Ok(r) = s.relocations(e, d) {
        reach!(r.len() > 1000, "relocations");
        ensure!(is_read(bytes_of_slice(r), d, s.reloff(e).into(), 8 * u64::from(s.nreloc(e))), "the declared relocations");
    }
}}}
macro_rules! indirect { ($s:ty) => {{
    let (d, e) = (any_bytes::<128>(), any_endian());
    let s = any_pod!($s);
    let c = any_pod!(macho::DysymtabCommand<Endianness>);
    if let Ok(t) = c.indirect_symbols(e, d) {
        ensure!(is_read(bytes_of_slice(t), d, c.indirectsymoff.get(e).into(), 4 * u64::from(c.nindirectsyms.get(e))), "the declared indirect symbols");
        if let Ok(r) = s.indirect_symbols(e, t) {
            reach!(r.len() > 100, "indirect symbols of a section");
            inside!(bytes_of_slice(r), bytes_of_slice(t));
        }
    }
}}}
macro_rules! symtab { ($t:ty) => {{
    let (d, e) = (any_bytes::<128>(), any_endian());
    let c = any_pod!(macho::SymtabCommand<Endianness>);
    if let Ok(t) = c.symbols::<$t, _>(e, d) {
        let z = core::mem::size_of::<<$t as MachHeader>::Nlist>() as u64;
        ensure!(is_read(bytes_of_slice(t.symbols()), d, c.symoff.get(e).into(), z * u64::from(c.nsyms.get(e))), "the declared symbols");
        let i = SymbolIndex(any());
        let r = t.symbol(i);
        ensure!(r.is_ok() == (i.0 < t.len()), "a symbol exactly for the indices of the table");
        if let Ok(s) = r {
            reach!(i.0 > 100, "a symbol");
            if let Ok(n) = s.name(e, t.strings()) {
                inside!(n, d);
                ensure!(n.is_empty() || n.as_ptr() as usize - d.as_ptr() as usize >= c.stroff.get(e) as usize && n.as_ptr() as usize - d.as_ptr() as usize + n.len() < c.stroff.get(e) as usize + c.strsize.get(e) as usize, "the name and its terminator are inside the string table");
            }
        }
    }
}}}
macro_rules! fat { ($t:ty) => {{
    let d = any_bytes::<128>();
    if let Ok(f) = MachOFatFile::<$t>::parse(d) {
        inside!(bytes_of(f.header()), d);
        let a = f.arches();
        ensure!(a.len() == f.header().nfat_arch.get(BigEndian) as usize, "as many entries as declared");
        inside!(bytes_of_slice(a), d);
        let i: usize = any();
        if i < a.len() {
            reach!(i > 1000, "an entry");
            let (o, n) = a[i].file_range();
            if let Ok(b) = a[i].data(d) { ensure!(is_read(b, d, o, n), "the declared range"); }
        }
    }
}}}
macro_rules! linkedit { ($c:ident, $e:ident, $d:ident, $f:ident, $off:ident, $size:ident) => {
    if let Ok(b) = $c.$f($e, $d) { ensure!(is_read(b, $d, $c.$off.get($e).into(), $c.$size.get($e).into()), "the declared range"); }
} }
macro_rules! slide { ($v:expr, $k:ident { $($f:ident),* }, $slide:ident, $starts:ident, $e:ident, $at:expr, $more:ident) => {{
    let (d, $e) = (any_bytes::<128>(), LittleEndian);
    let m = any_pod!(macho::DyldCacheMappingAndSlideInfo<LittleEndian>);
    let o = m.slide_info_file_offset.get($e);
    // the version word, when there is one
    if o < d.len() as u64 && d.len() as u64 - o >= 4 {
        let o = o as usize;
        let b = [d[o], d[o + 1], d[o + 2], d[o + 3]];
        if u32::from_le_bytes(b) != $v { return }
    }
    if let Ok(DyldCacheSlideInfo::$k { $($f),* }) = m.slide($e, d) {
        reach!($starts.len() > 100, "page starts");
        inside!(bytes_of($slide), d);
        ensure!($slide.version.get($e) == $v, "the version");
        ensure!(is_read(bytes_of_slice($starts), d, o + $at, 2 * $slide.page_starts_count.get($e) as u64), "page starts");
        inside!(bytes_of_slice($more), d);
    }
}}}
fn dcd<T>(r: object::read::Result<Option<T>>) -> Option<T> { r.ok().flatten() }

harnesses! {
    /// Every file of any length, headers at any offset.
    fn header32() { header!(M32) }
    fn header64() { header!(M64) }
    /// Each single-command accessor.
    fn accessors() {
        let (d, e) = (any_bytes::<128>(), any_endian());
        let Some(c) = command(d, e) else { return };
        if let Some(s) = dcd(c.symtab()) { inside!(bytes_of(s), c.raw_data()) }
        if let Some(s) = dcd(c.dysymtab()) { inside!(bytes_of(s), c.raw_data()) }
        if let Some(s) = dcd(c.dylib()) { inside!(bytes_of(s), c.raw_data()); let _ = c.dylib_use_flags(e, s); }
        if let Some(s) = dcd(c.uuid()) { inside!(bytes_of(s), c.raw_data()) }
        if let Some(s) = dcd(c.dyld_info()) { inside!(bytes_of(s), c.raw_data()) }
        if let Some(s) = dcd(c.dyld_exports_trie()) { inside!(bytes_of(s), c.raw_data()) }
        if let Some(s) = dcd(c.dyld_chained_fixups()) { inside!(bytes_of(s), c.raw_data()) }
        if let Some(s) = dcd(c.entry_point()) { reach!(c.cmdsize() > 100, "an entry point"); inside!(bytes_of(s), c.raw_data()) }
        if let Some((s, r)) = dcd(c.unix_thread()) { inside!(bytes_of(s), c.raw_data()); inside!(r, c.raw_data()) }
        if let Some((s, r)) = dcd(c.build_version(e)) { inside!(bytes_of(s), c.raw_data()); inside!(bytes_of_slice(r), c.raw_data()) }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn command_string() {
        let (d, e) = (any_bytes::<128>(), any_endian());
        let Some(c) = command(d, e) else { return };
        let s = macho::LcStr { offset: object::U32::new(e, any()) };
        if let Ok(n) = c.string(e, s) {
            reach!(n.len() > 100, "a string");
            let o = s.offset.get(e) as usize;
            ensure!(o + n.len() < c.raw_data().len(), "the string and its terminator are inside the command");
            ensure!(n.is_empty() || is_at(n, c.raw_data(), o, n.len()), "the string starts at its offset");
        }
    }
    fn segment32() { segment!(macho::SegmentCommand32<Endianness>, segment_32) }
    fn segment64() { segment!(macho::SegmentCommand64<Endianness>, segment_64) }
    fn section32() { sect!(macho::Section32<Endianness>) }
    fn section64() { sect!(macho::Section64<Endianness>) }
    fn indirect32() { indirect!(macho::Section32<Endianness>) }
    fn indirect64() { indirect!(macho::Section64<Endianness>) }
    /// One step of the large-offset reconstruction from any state reachable in one step.
    fn section_offsets() {
        let e = any_endian();
        let g = any_pod!(macho::SegmentCommand64<Endianness>);
        let s = [any_pod!(macho::Section64<Endianness>), any_pod!(macho::Section64<Endianness>)];
        let mut it = g.section_offsets(e, &s);
        let _ = it.next();
        if let Some(r) = it.next() {
            if let Ok((x, o)) = r { reach!(o > u32::MAX as u64, "a large offset"); ensure!(o as u32 == x.offset(e), "the low half of the offset is the one stored"); }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn symtab32() { symtab!(M32) }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn symtab64() { symtab!(M64) }
    fn fat32() { fat!(macho::FatArch32) }
    fn fat64() { fat!(macho::FatArch64) }
    fn linkedit() {
        let (d, e) = (any_bytes::<128>(), any_endian());
        let c = any_pod!(macho::LinkeditDataCommand<Endianness>);
        linkedit!(c, e, d, data, dataoff, datasize);
        let r = c.function_starts(e, d, any());
        reach!(r.is_ok(), "function starts");
        let _ = c.exports_trie(e, d).is_ok();
        let c = any_pod!(macho::DyldInfoCommand<Endianness>);
        linkedit!(c, e, d, rebase_data, rebase_off, rebase_size);
        linkedit!(c, e, d, bind_data, bind_off, bind_size);
        linkedit!(c, e, d, weak_bind_data, weak_bind_off, weak_bind_size);
        linkedit!(c, e, d, lazy_bind_data, lazy_bind_off, lazy_bind_size);
        linkedit!(c, e, d, export_data, export_off, export_size);
    }
    fn code_signature() {
        let d = any_bytes::<128>();
        if let Ok(s) = CodeSignature::parse(d) {
            inside!(bytes_of_slice(s.index()), d);
            ensure!(s.index().len() == s.header().count.get(BigEndian) as usize, "as many blobs as declared");
            if let Ok(Some(b)) = s.blobs().next() {
                reach!(b.data().len() > 100, "a blob");
                ensure!(is_at(b.data(), d, b.offset() as usize, b.data().len()), "a blob is at its offset");
                inside!(b.contents(), b.data());
            }
        }
    }
    fn code_directory() {
        let d = any_bytes::<128>();
        if let Ok(c) = CodeDirectory::parse(d) {
            inside!(bytes_of(c.header()), d);
            let _ = (c.version(), c.scatter_offset(), c.team_offset(), c.code_limit(), c.code_limit64());
            if let Some(x) = c.exec_seg() { inside!(bytes_of(x), d) }
            let (z, h) = (c.header().hash_size as u64, c.header().hash_offset.get(BigEndian) as u64);
            let i: u32 = any();
            if let Ok(b) = c.code_hash(i) {
                reach!(i > 100, "a hash");
                ensure!(i < c.header().n_code_slots.get(BigEndian), "a hash only for a slot of the directory");
                ensure!(is_read(b, d, h + i as u64 * z, z), "the hash of the slot");
            }
        }
    }
    fn code_directory_special() {
        let d = any_bytes::<128>();
        if let Ok(c) = CodeDirectory::parse(d) {
            let (z, h) = (c.header().hash_size as u64, c.header().hash_offset.get(BigEndian) as u64);
            let s = macho::CsSlot(any());
            if let Ok(b) = c.special_hash(s) {
                ensure!(s.0 >= 1 && s.0 <= c.header().n_special_slots.get(BigEndian), "a hash only for a slot of the directory");
                ensure!(h >= s.0 as u64 * z && is_read(b, d, h - s.0 as u64 * z, z), "special slots are before the hash offset");
            }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn code_directory_strings() {
        let d = any_bytes::<128>();
        if let Ok(c) = CodeDirectory::parse(d) {
            if let Ok(n) = c.ident() { reach!(n.len() > 10, "an identifier"); inside!(n, d) }
            if let Ok(Some(n)) = c.team_id() { inside!(n, d) }
        }
    }
    [kani::stub(mc::memchr::memchr, memchr_contract)]
    fn chained_imports() {
        let (d, e) = (any_bytes::<128>(), any_endian());
        if let Ok(f) = DyldChainedFixups::parse(e, d) {
            if let Ok(mut it) = f.imports(e) {
                match it.next() {
                    Ok(Some(i)) => { reach!(i.name.len() > 10, "an import"); inside!(i.name, d) }
                    Ok(None) => ensure!(f.header().imports_count.get(e) == 0, "no imports only when none are declared"),
                    Err(_) => ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"),
                }
            }
        }
    }
    /// Shared caches: every table the header describes.
    fn cache_tables() {
        let d = any_bytes::<1024>();
        if let Ok(h) = macho::DyldCacheHeader::<Endianness>::parse(d) {
            inside!(bytes_of(h), d);
            let e = any_endian();
            match h.mappings(e, d) {
                Ok(DyldCacheMappingSlice::V1(m)) => inside!(bytes_of_slice(m), d),
                Ok(DyldCacheMappingSlice::V2(m)) => { reach!(m.len() > 100, "mappings"); inside!(bytes_of_slice(m), d) }
                _ => {}
            }
            match h.subcaches(e, d) {
                Ok(Some(DyldSubCacheSlice::V1(m))) => inside!(bytes_of_slice(m), d),
                Ok(Some(DyldSubCacheSlice::V2(m))) => inside!(bytes_of_slice(m), d),
                _ => {}
            }
            if let Ok(m) = h.images(e, d) { inside!(bytes_of_slice(m), d) }
            let _ = h.symbols_subcache_uuid(e);
        }
    }
    fn cache_magic() {
        let h = any_pod!(macho::DyldCacheHeader<Endianness>);
        if let Ok((_, e)) = h.parse_magic() { ensure!(e == Endianness::Little || h.magic[12..] == *b"ppc\0", "only PowerPC caches are big-endian"); }
    }
    fn cache_slide5() { slide!(5, V5 { slide, page_starts }, slide, page_starts, e, 24, page_starts) }
}

#[cfg(not(kani))]
pub mod low {
    use super::*;
    use crate::craft::*;
    use crate::fuzz::*;

    fn uleb(w: &mut W, mut v: u64) { loop { let b = v as u8 & 0x7f; v >>= 7; w.u8(b | if v != 0 { 0x80 } else { 0 }); if v == 0 { break } } }
    /// A code signature with a directory of any version.
    fn signature(w: &mut W) {
        let mut s = W::new(true, false);
        let v = [0x20001u32, 0x20100, 0x20200, 0x20300, 0x20400, 0x20500][uni(6) as usize];
        s.u32(0xfade0cc0).u32(0).u32(2).u32(0).u32(28).u32(0x10000).u32(200);
        let at = s.b.len();
        s.u32(0xfade0c02).u32(172).u32(v).u32(0).u32(128).u32(100).u32(2).u32(2).u32(0x1000).u8(20).u8(1).u8(0).u8(12).u32(0);
        s.u32(0).u32(108).u32(0).u64(0x2000).u64(0).u64(0x1000).u64(1);
        s.pad(at + 96).bytes(&[0; 4]).bytes(b"ident\0\0\0team\0");
        s.pad(at + 172);
        s.u32(0xfade0b01).u32(12).u32(7);
        let n = s.b.len() as u32;
        s.set_u32(4, n);
        w.bytes(&s.b);
    }
    fn trie(w: &mut W) {
        // root -> "_a" (terminal) -> "b" (re-export); root -> "_c" (resolver)
        w.u8(0).u8(2).bytes(b"_a\0").u8(10).bytes(b"_c\0").u8(26);
        w.u8(3).u8(0).u8(0x90).u8(1).u8(1).bytes(b"b\0").u8(18);
        w.u8(5).u8(8).u8(1).bytes(b"_x\0").u8(0);
        w.pad(w.b.len());
        w.u8(3).u8(0x10).u8(4).u8(5).u8(0);
    }
    fn chained(w: &mut W, big: bool, wide: bool) {
        let mut c = W::new(big, wide);
        let fmt = 1 + uni(3) as u32;
        let pf = if wide { [1u16, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14][uni(11) as usize] } else { [3u16, 4, 5][uni(3) as usize] };
        c.u32(0).u32(28).u32(80).u32(120).u32(2).u32(fmt).u32(0);
        c.u32(3).u32(0).u32(16).u32(0);
        c.u32(28).u16(0x1000).u16(pf).u64(0x1000).u32(0).u16(2).u16(0).u16(0x8003).u16(0x8010);
        c.pad(80);
        for i in 0..2u32 { match fmt {
            1 => { c.u32(1 | i << 9); }
            2 => { c.u32(1 | i << 9).u32(5); }
            _ => { c.u64(1 | (i as u64) << 32).u64(u64::MAX); }
        } }
        c.pad(120).bytes(b"_foo\0_bar\0\0\0");
        w.bytes(&c.b);
    }
    /// One of everything the Mach-O readers read.
    pub fn sample(big: bool, wide: bool, obj: bool) -> Vec<u8> {
        let mut w = W::new(big, wide);
        let base = MACHO_BODY as u32;
        let mut at = |w: &mut W, f: &mut dyn FnMut(&mut W)| -> (u32, u32) { w.align(8); let o = w.pos() as u32; f(w); (base + o, w.pos() as u32 - o) };
        let text = at(&mut w, &mut |w| { w.bytes(&[0x90; 32]); });
        let data = at(&mut w, &mut |w| for i in 0..8 { w.u64((i + 1) << if wide { 51 } else { 26 } | i); });
        let debug = at(&mut w, &mut |w| { w.bytes(b"ZLIB\0\0\0\0\0\0\0\x09compress"); });
        let cputype = if wide { [0x0100_0007u32, 0x0100_000c, 0x0100_0012][uni(3) as usize] } else { [7u32, 12, 18, 0x0200_000c][uni(4) as usize] };
        let rel = at(&mut w, &mut |w| {
            // plain, external, subtrahend pair, scattered, addend
            let r = |i: u32, pc: u32, len: u32, ext: u32, t: u32| if big { i << 8 | pc << 7 | len << 5 | ext << 4 | t } else { i | pc << 24 | len << 25 | ext << 27 | t << 28 };
            w.u32(4).u32(r(1, 1, 2, 0, uni(10) as u32)).u32(8).u32(r(0, 0, if wide { 3 } else { 2 }, 1, uni(12) as u32));
            w.u32(8).u32(r(2, 0, 3, 1, 0)).u32(0x8000_0010 | 2 << 28).u32(4).u32(12).u32(r(7, 0, 2, 0, 10));
        });
        let ns = 8u32;
        let strs: &[u8] = b"\0_f0\0_f1\0_f2\0file.c\0file.o\0_f5\0lib.a(m.o)\0ltmp0\0";
        let syms = at(&mut w, &mut |w| for i in 0..ns {
            let (t, s, d, n) = [(0xfu8, 1u8, 0u16, 1u32), (0xe, 2, 0, 5), (1, 0, 0x100, 9), (0x64, 0, 0, 13), (0x66, 0, 1, 20), (0x24, 1, 0, 27), (0x66, 0, 1, 31), (0x24, 1, 0, 0), (0x26, 5, 0, 5), (0xe, 1, 0, 42), (0xe, 8, 0, 1)][(if obj { [0u32, 1, 2, 6, 9, 10, 5, 7][i as usize] } else { [3u32, [4, 6][uni(2) as usize], 5, 7, 8, 0, 2, 3][i as usize] }) as usize];
            w.u32(n).u8(t).u8(s).u16(d).word(if n == 42 { 0x1000 } else { 0x1000 + 4 * (i / 2) as u64 });
        });
        let st = at(&mut w, &mut |w| { w.bytes(strs); });
        let ind = at(&mut w, &mut |w| { w.u32(0).u32(1).u32(0x8000_0000).u32(2); });
        let fstarts = at(&mut w, &mut |w| { uleb(w, 0x100); uleb(w, 4); uleb(w, 0x1000); uleb(w, 0); });
        let tr = at(&mut w, &mut |w| trie(w));
        let sig = at(&mut w, &mut |w| signature(w));
        let ch = at(&mut w, &mut |w| chained(w, big, wide));
        let reb = at(&mut w, &mut |w| { w.u8(0x11).u8(0x21); uleb(w, 8); w.u8(0x53).u8(0x60); uleb(w, 2); w.u8(0x70); uleb(w, 8); w.u8(0x80); uleb(w, 2); uleb(w, 8); w.u8(0x41).u8(0x30); uleb(w, 16); w.u8(0x51).u8(0); });
        let bnd = at(&mut w, &mut |w| {
            w.u8(0x11).u8(0x41).bytes(b"_foo\0").u8(0x51).u8(0x60).u8(0x7f).u8(0x72); uleb(w, 8); w.u8(0x90).u8(0xa0); uleb(w, 8); w.u8(0xb2).u8(0xc0); uleb(w, 3); uleb(w, 4);
            w.u8(0x20); uleb(w, 1); w.u8(0x3e).u8(0x80); uleb(w, 4); w.u8(0x90).u8(0);
        });
        let end = base + w.pos() as u32;
        let ws = if wide { 8 } else { 4 };
        let mut segs = vec![Mg { name: name16(if obj { "" } else { "__TEXT" }), vmaddr: 0x1000, vmsize: 0x1000, off: if obj { text.0 as u64 } else { 0 }, size: (data.0 + data.1 - if obj { text.0 } else { 0 }) as u64, sections: vec![
            Ms { sect: name16("__text"), seg: name16("__TEXT"), addr: 0x1000, size: text.1 as u64, off: text.0, align: 2, reloff: rel.0, nreloc: rel.1 / 8, flags: 0x8000_0400, ..Ms::default() },
            Ms { sect: name16("__stubs"), seg: name16("__TEXT"), addr: 0x1100, size: 12, off: text.0, align: 2, flags: 8, res1: 1, res2: 6, ..Ms::default() },
            Ms { sect: name16("__debug_info"), seg: name16("__DWARF"), addr: 0x1200, size: debug.1 as u64, off: debug.0, flags: 0x0200_0000, ..Ms::default() },
            Ms { sect: name16("__zdebug_loc"), seg: name16("__DWARF"), addr: 0x1200, size: debug.1 as u64, off: debug.0, flags: 0x0200_0000, ..Ms::default() },
        ] }];
        let dsecs = vec![
            Ms { sect: name16("__data"), seg: name16("__DATA"), addr: 0x2000, size: data.1 as u64, off: data.0, align: 3, ..Ms::default() },
            Ms { sect: name16("__got"), seg: name16("__DATA"), addr: 0x2000, size: 2 * ws, off: data.0, align: 3, flags: 6, ..Ms::default() },
            Ms { sect: name16("__bss"), seg: name16("__DATA"), addr: 0x3000, size: 64, flags: 1, ..Ms::default() },
            Ms { sect: name16("__cstring"), seg: name16("__TEXT"), addr: 0x3000, size: 8, off: data.0, flags: [2, 5, 0xb, 0x11, 0x12, 0x13, 0x14, 0x15][uni(8) as usize], ..Ms::default() },
        ];
        if obj { segs[0].sections.extend(dsecs) } else {
            segs.push(Mg { name: name16("__DATA"), vmaddr: 0x2000, vmsize: 0x1000, off: data.0 as u64, size: data.1 as u64, sections: dsecs });
            segs.push(Mg { name: name16("__LINKEDIT"), vmaddr: 0x4000, vmsize: 0x4000, off: rel.0 as u64, size: (end - rel.0) as u64, sections: vec![] });
        }
        let mut x = W::new(big, wide);
        let mut n = 0;
        let mut cmd = |x: &mut W, c: u32, f: &mut dyn FnMut(&mut W)| { let a = x.b.len(); x.u32(c).u32(0); f(x); x.align(8); let z = (x.b.len() - a) as u32; x.set_u32(a + 4, z); n += 1; };
        cmd(&mut x, 2, &mut |x| { x.u32(syms.0).u32(ns).u32(st.0).u32(st.1); });
        cmd(&mut x, 0xb, &mut |x| { for v in [0u32, 1, 1, 1, 2, 4, 0, 0, 0, 0, 0, 0, ind.0, 4, rel.0, 1, rel.0, 1] { x.u32(v); } });
        cmd(&mut x, 0x1b, &mut |x| { x.bytes(&[7; 16]); });
        let uses: [u32; 5] = [0xc, 0x8000_0018, 0x8000_001f, 0x20, 0x8000_0023];
        for c in [0xd, uses[uni(5) as usize], 0xc] { cmd(&mut x, c, &mut |x| { x.u32(24).u32(if uni(4) == 0 { 0x1a741800 } else { 2 }).u32(0x10000).u32(0x10000); if uni(4) == 0 { x.u32(1); } x.bytes(b"/lib.dylib\0"); }); }
        cmd(&mut x, 0xe, &mut |x| { x.u32(12).bytes(b"/dyld\0"); });
        cmd(&mut x, [0x22u32, 0x8000_0022][uni(2) as usize], &mut |x| { for v in [reb.0, reb.1, bnd.0, bnd.1, bnd.0, bnd.1, bnd.0, bnd.1, tr.0, tr.1] { x.u32(v); } });
        cmd(&mut x, 0x26, &mut |x| { x.u32(fstarts.0).u32(fstarts.1); });
        cmd(&mut x, 0x8000_0033, &mut |x| { x.u32(tr.0).u32(tr.1); });
        cmd(&mut x, 0x8000_0034, &mut |x| { x.u32(ch.0).u32(ch.1); });
        cmd(&mut x, 0x1d, &mut |x| { x.u32(sig.0).u32(sig.1); });
        if uni(2) == 0 { cmd(&mut x, 0x8000_0028, &mut |x| { x.u64(0x100).u64(0); }); } else { cmd(&mut x, 5, &mut |x| { x.u32(if wide { 4 } else { 1 }).u32(42).bytes(&[3; 168]); }); }
        cmd(&mut x, 0x32, &mut |x| { x.u32(1).u32(0xa0000).u32(0xb0000).u32(1).u32(3).u32(7); });
        cmd(&mut x, 0x8000_001c, &mut |x| { x.u32(12).bytes(b"/rpath\0"); });
        // any other command: the body is whatever it is
        let other = [1u32, 3, 4, 6, 8, 9, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x1a, 0x1e, 0x21, 0x24, 0x25, 0x27, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x36, 0x8000_0035, 0x39];
        for _ in 0..3 { let c = other[uni(other.len() as u64) as usize]; let k = uni(30); cmd(&mut x, c, &mut |x| for _ in 0..k { x.u32(uni(40) as u32); }); }
        let mut f = macho(big, wide, if obj { 1 } else { [2, 6, 8, 0xa, 0xb][uni(5) as usize] }, &segs, n, &x.b, &w.b);
        store(&mut f[4..8], cputype as u64, big);
        f
    }
    fn strs<T: AsRef<[u8]>>(_: T) {}
    fn fixups<M: MachHeader<Endian = Endianness>>(e: Endianness, f: DyldChainedFixups<'static, Endianness>, d: &'static [u8], t: &[&'static M::Segment]) {
        ensure!(inside(bytes_of(f.header()), d), "header");
        if let Ok(mut it) = f.imports(e) { for _ in 0..3000 { match it.next() {
            Ok(Some(i)) => ensure!(inside(i.name, d), "import name"),
            Ok(None) => break,
            Err(_) => { ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"); break } } } }
        if let Ok(it) = f.segments(e) { for g in it.take(100) { if let Ok(g) = g {
            ensure!(inside(bytes_of(g.header()), d), "chain starts");
            let data = t.get(g.index() as usize).and_then(|s| s.data(e, d).ok()).unwrap_or(d);
            let mut it = g.fixups(e, value(0, 8, d, false), data);
            for _ in 0..3000 { match it.next() {
                Ok(Some((o, _))) => ensure!(o < data.len() as u64 && data.len() as u64 - o >= 4, "a fixup is inside its segment"),
                Ok(None) => break,
                Err(_) => { ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"); break } } }
        } } }
    }
    fn exports(mut it: ExportsTrieIterator<'static>, d: &[u8]) {
        for _ in 0..500 { match it.next() {
            Ok(Some(s)) => { let _ = (s.name(), s.flags()); if let ExportData::Reexport { import_name, .. } = s.data() { ensure!(inside(import_name, d), "re-export name") } strs(s.into_name()) }
            _ => break } }
    }
    fn signature_walk(s: CodeSignature<'static>, d: &[u8]) {
        ensure!(inside(bytes_of_slice(s.index()), d) && inside(bytes_of(s.header()), d), "index");
        for b in s.blobs().take(300) { if let Ok(b) = b {
            ensure!(inside(b.data(), d) && inside(b.contents(), b.data()), "blob");
            let _ = (b.slot(), b.offset(), b.magic());
            for c in [b.code_directory().ok().flatten(), CodeDirectory::parse(b.data()).ok()].into_iter().flatten() {
                okb(c.ident(), d);
                oko(c.team_id(), d);
                let _ = (c.version(), c.scatter_offset(), c.team_offset(), c.code_limit(), c.code_limit64(), c.exec_seg().is_some(), c.header());
                for i in [0, 1, 2, u32::MAX, value(2, 4, d, true) as u32] { okb(c.code_hash(i), d); okb(c.special_hash(macho::CsSlot(i)), d); }
            }
        } }
    }
    macro_rules! all { ($it:expr, $n:expr) => { if let Ok(it) = $it { let mut k = 0; for x in it { k += 1; if x.is_err() || k > $n { break } } } } }
    /// The low-level readers.
    pub fn walk<M: MachHeader<Endian = Endianness>>(d: &'static [u8], at: u64) {
        let Ok(h) = M::parse(d, at) else { return };
        let Ok(e) = h.endian() else { return };
        let _ = (h.uuid(e, d, at), h.is_type_64(), h.flags(e));
        let Ok(mut it) = h.load_commands(e, d, at) else { return };
        let mut segs = Vec::new();
        let mut ind = None;
        let mut secs: Vec<&M::Section> = Vec::new();
        let wide = M::pointer_size();
        loop {
            let c = match it.next() {
                Ok(Some(c)) => c,
                Ok(None) => break,
                Err(_) => { ensure!(matches!(it.next(), Ok(None)), "iteration ends after an error"); break }
            };
            ensure!(inside(c.raw_data(), d), "command");
            let _ = (c.cmd(), c.offset());
            okb(c.string(e, macho::LcStr { offset: object::U32::new(e, value(8, 4, d, false) as u32) }), d);
            if let Ok(Some((s, x))) = M::Segment::from_command(c) {
                segs.push(s);
                let _ = (s.name(), s.maxprot(e), s.initprot(e), s.flags(e), s.cmdsize(e));
                okb(s.data(e, d).map_err(|_| ()), d);
                if let Ok(x) = s.sections(e, x) {
                    ensure!(inside(bytes_of_slice(x), d), "sections");
                    for y in s.section_offsets(e, x).take(300) { if let Ok((y, o)) = y {
                        okb(y.data(e, d, o), d);
                        let _ = (y.name(), y.segment_name(), y.file_range(e, o), y.symbol_stub_size(e));
                        if let Ok(r) = y.relocations(e, d) {
                            ensure!(inside(bytes_of_slice(r), d), "relocations");
                            for r in r.iter().take(500) {
                                let i = r.info(e);
                                let _ = (i, r.r_scattered(e, macho::CpuType(h.cputype(e).0)), r.scattered_info(e));
                            }
                        }
                        secs.push(y);
                    } }
                }
            }
            match c.variant() {
                Ok(LoadCommandVariant::Symtab(s)) => if let Ok(t) = s.symbols::<M, _>(e, d) {
                    ensure!(inside(bytes_of_slice(t.symbols()), d), "symbols");
                    for (_, y) in t.enumerate().take(500) { okb(y.name(e, t.strings()), d); okb(t.symbol_name(e, y), d); let _ = (y.is_stab(), y.is_undefined(), y.is_definition(), y.library_ordinal(e)); }
                    let _ = t.object_map(e);
                    let _ = t.map(|y| Some(object::read::SymbolMapName::new(y.n_value(e).into(), 0, "x"))).symbols().len();
                }
                Ok(LoadCommandVariant::Dysymtab(s)) => if let Ok(t) = s.indirect_symbols(e, d) { ensure!(inside(bytes_of_slice(t), d), "indirect symbols"); ind = Some(t); },
                Ok(LoadCommandVariant::Dylib(s)) => { okb(c.string(e, s.dylib.name), d); let _ = c.dylib_use_flags(e, s); }
                Ok(LoadCommandVariant::DyldInfo(s)) => {
                    all!(s.rebase_operations(e, d), 3000);
                    all!(s.bind_operations(e, d), 3000);
                    all!(s.weak_bind_operations(e, d), 3000);
                    all!(s.lazy_bind_operations(e, d), 3000);
                    for p in [wide, uni(256) as u8] {
                        all!(s.rebases(e, d, p), 3000);
                        all!(s.binds(e, d, p), 3000);
                        all!(s.weak_binds(e, d, p), 3000);
                        all!(s.lazy_binds(e, d, p), 3000);
                    }
                    if let Ok(it) = s.exports_trie(e, d) { exports(it, d) }
                }
                Ok(LoadCommandVariant::LinkeditData(s)) => {
                    okb(s.data(e, d), d);
                    all!(s.function_starts(e, d, value(0, 8, d, false)), 3000);
                    if let Ok(it) = s.exports_trie(e, d) { exports(it, d) }
                    if let Ok(x) = s.code_signature(e, d) { signature_walk(x, d) }
                    if let Ok(x) = s.chained_fixups(e, d) { fixups::<M>(e, x, d, &segs) }
                }
                Ok(LoadCommandVariant::BuildVersion(s, x)) => if let Ok(t) = s.tools(e, x) { ensure!(inside(bytes_of_slice(t), d), "tools") },
                _ => {}
            }
            let _ = (dcd(c.symtab()).is_some(), dcd(c.dysymtab()).is_some(), dcd(c.dylib()).is_some(), dcd(c.uuid()).is_some(), dcd(c.dyld_info()).is_some(), dcd(c.dyld_exports_trie()).is_some(),
                dcd(c.dyld_chained_fixups()).is_some(), dcd(c.entry_point()).is_some(), dcd(c.unix_thread()).is_some(), dcd(c.build_version(e)).is_some());
        }
        if let Some(t) = ind { for y in secs { if let Ok(r) = y.indirect_symbols(e, t) { ensure!(inside(bytes_of_slice(r), bytes_of_slice(t)), "indirect symbols") } let _ = y.reserved3(e); } }
        if let Ok(f) = MachOFile::<M>::parse(d) {
            let _ = (f.build_version().is_ok(), f.macho_load_commands().is_ok(), f.macho_symbol_table().len());
            use object::read::Object;
            for s in f.sections() { if let Ok(r) = s.macho_relocations() { ensure!(inside(bytes_of_slice(r), d), "relocations") } }
        }
    }
    pub fn run(obj: bool) {
        let (big, wide) = (uni(2) == 0, uni(2) == 0);
        let mut d = sample(big, wide, obj);
        damage_macho(&mut d, big);
        let d = settle(d);
        if wide { walk::<M64>(d, 0) } else { walk::<M32>(d, 0) }
        any_file(d);
    }
    /// Half of the damage goes to the commands, which are a small part of the file.
    fn damage_macho(d: &mut Vec<u8>, big: bool) {
        if uni(2) == 0 { return damage(d, big) }
        let n = d.len().min(MACHO_BODY);
        let mut e = 0;
        for i in (0..n).step_by(4) { if d[i..i + 4] != [0; 4] { e = i + 4 } }
        for _ in 0..1 + uni(3) {
            let n = [1, 2, 4, 4, 4, 8][uni(6) as usize];
            if e < n { return }
            let p = uni((e - n) as u64 + 1) as usize & !(n.min(4) - 1);
            let v = value(load(&d[p..p + n], big), n, d, big);
            store(&mut d[p..p + n], v, big);
        }
    }
    pub fn fat() {
        let big64 = uni(2) == 0;
        let mut w = W::new(true, big64);
        let inner = sample(false, true, uni(2) == 0);
        w.u32(if big64 { 0xcafebabf } else { 0xcafebabe }).u32(2);
        for i in 0..2 { w.u32(0x0100_0007).u32(i).word(0x1000).word(inner.len() as u64).u32(12); if big64 { w.u32(0); } }
        w.pad(0x1000);
        if uni(8) == 0 { w.bytes(&inner); }
        damage(&mut w.b, true);
        let d = settle(w.b);
        macro_rules! go { ($t:ty) => { if let Ok(f) = MachOFatFile::<$t>::parse(d) {
            ensure!(inside(bytes_of_slice(f.arches()), d), "entries");
            for a in f.arches().iter().take(100) { let _ = (a.architecture(), a.file_range(), a.align(), a.cputype(), a.cpusubtype()); okb(a.data(d), d); if let Ok(b) = a.data(d) { if b.len() > 100 && uni(4) == 0 { walk::<M64>(b, 0) } } }
        } } }
        go!(macho::FatArch32);
        go!(macho::FatArch64);
        let _ = object::read::FileKind::parse(d);
    }
    /// A shared cache with one image, and a subcache.
    pub fn cache() {
        let e = Endianness::Little;
        let v: u64 = [0x100, 0x150, 0x1c8, 0x1d0][uni(4) as usize];
        let mut img = sample(false, true, false);
        img.truncate(0x1000);
        let mut w = W::new(false, true);
        let nsub = if v >= 0x1c8 { 1u32 } else { 0 };
        w.bytes([b"dyld_v1  arm64e\0", b"dyld_v1  x86_64\0"][uni(2) as usize]).u32(v as u32).u32(1).u32(0x400).u32(1).u64(0x1000);
        w.pad(0x58).bytes(&[9; 16]);
        w.pad(0x138).u32(0x300).u32(2);
        w.pad(0x188).u32(0x500).u32(nsub).bytes(&if uni(2) == 0 { [7u8; 16] } else { [0; 16] });
        w.pad(0x1c0).u32(0x400).u32(1);
        w.pad(v.max(0x200) as usize);
        let sv = [2u32, 3, 5][uni(3) as usize];
        let one = |w: &mut W, a: u64, n: u64, o: u64, slide: bool, z: bool| { w.u64(a).u64(n).u64(o); if slide { w.u64(0x600).u64(if z { 0 } else { 0x100 }).u64(0); } w.u32(3).u32(1); };
        if v < 0x150 { w.pad(0x100); w.b.truncate(0x200); let mut m = W::new(false, true); one(&mut m, 0x1000, 0x3000, 0x1000, false, true); w.b[0x100..0x100 + m.b.len()].copy_from_slice(&m.b); }
        w.pad(0x300);
        one(&mut w, 0x1000, 0x1000, 0x1000, true, true);
        one(&mut w, 0x2000, 0x1000, 0x800, true, false);
        w.pad(0x400).u64([0x1000u64, 0x5000][uni(2) as usize]).u64(0).u64(0).u32(0x480).u32(0);
        w.pad(0x480).bytes(b"/usr/lib/x.dylib\0");
        w.pad(0x500).bytes(&[7; 16]).u64(0x5000).bytes(b".01\0").pad(0x540);
        w.pad(0x600);
        w.u32(sv).u32(0x1000);
        if sv == 2 { w.u32(40).u32(2).u32(48).u32(2).u64(0x00ff_ff00_0000_0000).u64(0x1_0000_0000).u16(0x8001).u16(0x10).u16(0).u16(0).u16(4).u16(0x8008); }
        else { w.u32(2).u32(0).u64(0x1_0000_0000).u16(8).u16(if uni(2) == 0 { 0xffff } else { 16 }); }
        w.pad(0x800);
        for i in 0..32u64 { w.u64(if i % 3 == 2 { i } else { (1 + i % 2) << [40, 51, 52][[2, 3, 5].iter().position(|x| *x == sv).unwrap()] | i | (i & 1) << 63 }); }
        w.pad(0x1000);
        w.bytes(&img);
        damage(&mut w.b, false);
        let mut sub = W::new(false, true);
        sub.bytes(b"dyld_v1  arm64e\0").u32(0x150).u32(0).u32(0).u32(0).u64(0);
        sub.pad(0x58).bytes(&[7; 16]);
        sub.pad(0x138).u32(0x300).u32(1);
        sub.pad(0x300);
        one(&mut sub, 0x5000, 0x1000, 0x1000, true, true);
        sub.pad(0x1000).bytes(&img);
        if uni(4) == 0 { damage(&mut sub.b, false); }
        let n = w.b.len().div_ceil(8) * 8;
        w.pad(n);
        let k = sub.b.len();
        w.bytes(&sub.b);
        let whole = settle(w.b);
        let (d, s) = (&whole[..n], &whole[n..n + k]);
        let _ = macho::DyldCacheHeader::<Endianness>::parse(d).map(|h| (h.subcaches(e, d).is_ok(), h.images(e, d).is_ok()));
        let _ = DyldCache::<Endianness>::subcache_suffixes(d);
        for subs in [&[][..], &[s], &[s, s]] {
            let Ok(c) = DyldCache::<Endianness>::parse(d, subs) else { continue };
            let _ = (c.architecture(), c.endianness(), c.is_little_endian(), c.data());
            for m in c.mappings().take(100) {
                let _ = (m.address(), m.size(), m.file_offset(), m.max_prot(), m.init_prot());
                okb(m.data(), whole);
                if let Ok(r) = m.relocations() { for r in r.take(3000) { if r.is_err() { break } } }
            }
            for i in c.images().take(20) {
                if let Ok(p) = i.path() { ensure!(inside(p.as_bytes(), d), "image path") }
                if let Ok((b, o)) = i.image_data_and_offset() { if uni(4) == 0 { walk::<M64>(b, o) } }
                if let Ok(f) = i.parse_object() { unified(&f, whole) }
            }
            let _ = c.data_and_offset_for_address(value(0x1000, 8, d, false));
        }
    }
}
natives! {
    /// Damaged relocatable objects with every section and command kind, every reader.
    fn objects() { low::run(true) }
    /// Damaged images with every segment and command kind.
    fn images() { low::run(false) }
    /// Damaged fat files.
    fn fat_files() { low::fat() }
    /// Damaged shared caches.
    fn caches() { low::cache() }
}
