//! File kind detection.
use crate::shim::*;
use object::read::{self, FileKind as K};
use object::{elf, macho, pe, xcoff, Endian, Endianness};

fn le32(d: &[u8], o: u64) -> u64 {
    let o = o as usize;
    u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]]) as u64
}
/// The optional header magic of a PE file: DOS header, NT headers, both whole.
fn pe_magic(d: &[u8]) -> Option<u16> {
    if d.len() < 64 || d[0] != b'M' || d[1] != b'Z' { return None; }
    let nt = le32(d, 60);
    if nt + 120 > d.len() as u64 || le32(d, nt) != 0x4550 { return None; }
    let o = nt as usize + 24;
    Some(u16::from_le_bytes([d[o], d[o + 1]]))
}
const CLS: [u8; 16] = [0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8];
/// The kind that the identification bytes denote.
fn spec(d: &[u8], off: u64) -> Option<K> {
    if off as u128 + 16 > d.len() as u128 { return None; }
    let m = &d[off as usize..off as usize + 16];
    let w = u32::from_be_bytes([m[0], m[1], m[2], m[3]]);
    let w2 = u32::from_be_bytes([m[4], m[5], m[6], m[7]]);
    let h = u16::from_le_bytes([m[0], m[1]]);
    match (w, w2) {
        (0x213c6172, 0x63683e0a) | (0x213c7468, 0x696e3e0a) => return Some(K::Archive),
        (0x64796c64, 0x5f763120) => return Some(K::DyldCache),
        (0x7f454c46, _) => return match m[4] { 1 => Some(K::Elf32), 2 => Some(K::Elf64), _ => None },
        (0xfeedface | 0xcefaedfe, _) => return Some(K::MachO32),
        (0xfeedfacf | 0xcffaedfe, _) => return Some(K::MachO64),
        (0xcafebabe, _) => return Some(K::MachOFat32),
        (0xcafebabf, _) => return Some(K::MachOFat64),
        (0x0061736d, w2) if w2 & 0xffff == 0 => return Some(K::Wasm),
        _ => {}
    }
    if h == 0x5a4d {
        if off != 0 { return None; }
        return match pe_magic(d) { Some(0x10b) => Some(K::Pe32), Some(0x20b) => Some(K::Pe64), _ => None };
    }
    match h {
        0x1c4 | 0xaa64 | 0xa641 | 0x1f0 | 0x1f1 | 0x1f2 | 0x14c | 0x8664 => return Some(K::Coff),
        0xdf01 => return Some(K::Xcoff32),
        0xf701 => return Some(K::Xcoff64),
        _ => {}
    }
    if w == 0xffff {
        if m[4] == 0 && m[5] == 0 { return Some(K::CoffImport); }
        if m[4] == 2 && m[5] == 0 && off == 0 && d.len() >= 32 {
            let mut i = 0;
            while i < 16 { if d[12 + i] != CLS[i] { return None; } i += 1; }
            return Some(K::CoffBig);
        }
    }
    None
}

fn ar_magic(d: &[u8], t: &[u8; 8]) -> bool {
    d.len() >= 8 && { let mut i = 0; let mut r = true; while i < 8 { r &= d[i] == t[i]; i += 1; } r }
}

macro_rules! elf_parse {
    ($t:ident, $k:ident, $class:literal, $len:literal) => {{
        use read::elf::FileHeader as _;
        let d = any_bytes::<72>();
        let whole = d.len() >= $len;
        let k = K::parse(d);
        match elf::$t::<Endianness>::parse(d) {
            Ok(h) => {
                ensure!(whole && is_at(object::pod::bytes_of(h), d, 0, $len), "the header is the file's first bytes");
                ensure!(k == Ok(K::$k), "parsing under a kind agrees with the detection");
                ensure!(d[5] == 1 || d[5] == 2, "byte order is one of the two");
                ensure!(d[6] == 1, "current version");
                match h.endian() { Ok(e) => { reach!(e.is_big_endian(), "big"); ensure!(e.is_big_endian() == (d[5] == 2), "byte order as identified") } Err(_) => ensure!(false, "byte order supported") }
            }
            Err(_) => ensure!(!(whole && k == Ok(K::$k) && (d[5] == 1 || d[5] == 2) && d[6] == 1), "a whole supported header is accepted"),
        }
        // a fixed byte order is only offered for files of that order
        match elf::$t::<object::BigEndian>::parse(d) {
            Ok(h) => match h.endian() { Ok(_) => ensure!(d[5] == 2, "fixed big endian"), Err(_) => ensure!(d[5] == 1, "little-endian file refused") },
            Err(_) => {}
        }
    }};
}
macro_rules! mach_parse {
    ($t:ident, $k:ident, $b:literal, $l:literal, $len:literal) => {{
        use read::macho::MachHeader as _;
        let d = any_bytes::<72>();
        let off = any::<u64>();
        let whole = read_spec(d, off, $len);
        let k = K::parse_at(d, off);
        match macho::$t::<Endianness>::parse(d, off) {
            Ok(h) => {
                ensure!(whole && is_at(object::pod::bytes_of(h), d, off as usize, $len), "the header is the file's bytes there");
                ensure!(k == Ok(K::$k), "parsing under a kind agrees with the detection");
                match h.endian() { Ok(e) => ensure!(e.is_big_endian() == (d[off as usize] == 0xfe), "byte order as identified"), Err(_) => ensure!(false, "byte order supported") }
            }
            Err(_) => ensure!(!(whole && k == Ok(K::$k)), "a whole supported header is accepted"),
        }
    }};
}
macro_rules! fat_parse {
    ($t:ident, $k:ident, $len:literal) => {{
        let d = any_bytes::<72>();
        let k = K::parse(d);
        match read::macho::$t::parse(d) {
            Ok(f) => {
                ensure!(d.len() < 16 || k == Ok(K::$k), "parsing under a kind agrees with the detection");
                let n = u32::from_be_bytes([d[4], d[5], d[6], d[7]]) as usize;
                let a = f.arches();
                reach!(n > 1, "arches");
                ensure!(a.len() == n && (n == 0 || is_at(object::pod::bytes_of_slice(a), d, 8, n * $len)), "every declared architecture");
            }
            Err(_) => ensure!(k != Ok(K::$k) || d.len() as u64 - 8 < $len * u32::from_be_bytes([d[4], d[5], d[6], d[7]]) as u64, "a whole header is accepted"),
        }
    }};
}
macro_rules! xcoff_parse {
    ($t:ident, $k:ident, $len:literal) => {{
        use read::xcoff::FileHeader as _;
        let d = any_bytes::<72>();
        let mut o = 0;
        let k = K::parse(d);
        match xcoff::$t::parse(d, &mut o) {
            Ok(h) => {
                ensure!(d.len() >= $len && is_at(object::pod::bytes_of(h), d, 0, $len) && o == $len, "the header is the file's first bytes");
                ensure!(k == Ok(K::$k), "parsing under a kind agrees with the detection");
            }
            Err(_) => ensure!(d.len() < $len || k != Ok(K::$k), "a whole supported header is accepted"),
        }
    }};
}
macro_rules! nt_parse {
    ($t:ident, $k:ident, $len:literal) => {{
        use read::pe::ImageNtHeaders as _;
        let d = any_bytes::<160>();
        assume(d.len() >= 64 && d[0] == b'M' && d[1] == b'Z');
        let o = le32(d, 60);
        let mut o1 = o;
        if let Ok((h, _)) = pe::$t::parse(d, &mut o1) {
            reach!(true, "accepted");
            ensure!(K::parse(d) == Ok(K::$k), "parsing under a kind agrees with the detection");
            ensure!(is_at(object::pod::bytes_of(h), d, o as usize, $len), "NT headers in place");
            ensure!(o1 == o + 24 + h.file_header().size_of_optional_header.get(object::LittleEndian) as u64, "the section table follows the optional header");
        }
    }};
}

harnesses! {
    fn kind_at_start() {
        let d = any_bytes::<140>();
        let k = K::parse(d);
        let s = spec(d, 0);
        reach!(s == Some(K::Pe64), "PE");
        reach!(s == Some(K::CoffBig), "big object");
        ensure!(k.ok() == s, "the detected kind is the one the identification denotes");
    }
    fn kind_at_offset() {
        let d = any_bytes::<140>();
        let o = any::<u64>();
        assume(o > 0);
        let k = K::parse_at(d, o);
        reach!(k == Ok(K::CoffImport), "an import object");
        ensure!(k.ok() == spec(d, o), "the detected kind is the one the identification denotes");
    }
    fn elf32() { elf_parse!(FileHeader32, Elf32, 1, 52) }
    fn elf64() { elf_parse!(FileHeader64, Elf64, 2, 64) }
    fn macho32() { mach_parse!(MachHeader32, MachO32, 0, 0, 28) }
    fn macho64() { mach_parse!(MachHeader64, MachO64, 0, 0, 32) }
    fn fat32() { fat_parse!(MachOFatFile32, MachOFat32, 20) }
    fn fat64() { fat_parse!(MachOFatFile64, MachOFat64, 32) }
    fn xcoff32() { xcoff_parse!(FileHeader32, Xcoff32, 20) }
    fn xcoff64() { xcoff_parse!(FileHeader64, Xcoff64, 24) }
    fn pe_headers() {
        let d = any_bytes::<160>();
        let dos = d.len() >= 64 && d[0] == b'M' && d[1] == b'Z';
        ensure!(pe::ImageDosHeader::parse(d).is_ok() == dos, "DOS header");
        match read::pe::optional_header_magic(d) {
            Ok(m) => ensure!(pe_magic(d) == Some(m), "optional header magic"),
            Err(_) => ensure!(pe_magic(d).is_none(), "optional header magic"),
        }
    }
    fn pe_headers32() { nt_parse!(ImageNtHeaders32, Pe32, 120) }
    fn pe_headers64() { nt_parse!(ImageNtHeaders64, Pe64, 136) }
    fn coff_headers() {
        use read::coff::CoffHeader as _;
        let d = any_bytes::<80>();
        let k = K::parse(d);
        let mut o = 0;
        match pe::AnonObjectHeaderBigobj::parse(d, &mut o) {
            Ok(h) => {
                ensure!(is_at(object::pod::bytes_of(h), d, 0, 56) && o == 56, "header in place");
                ensure!(k == Ok(K::CoffBig) || h.version.get(object::LittleEndian) > 2, "parsing under a kind agrees with the detection");
            }
            Err(_) => ensure!(k != Ok(K::CoffBig) || d.len() < 56, "a whole big-object header is accepted"),
        }
        let mut o = 0;
        match pe::ImageFileHeader::parse(d, &mut o) {
            Ok(h) => ensure!(is_at(object::pod::bytes_of(h), d, 0, 20) && o == 20 + u16::from_le_bytes([d[16], d[17]]) as u64, "header in place"),
            Err(_) => ensure!(d.len() < 20, "a whole header is accepted"),
        }
        let mut o = 0;
        match pe::ImportObjectHeader::parse(d, &mut o) {
            Ok(h) => ensure!(k == Ok(K::CoffImport) && o == 20 && is_at(object::pod::bytes_of(h), d, 0, 20), "parsing under a kind agrees with the detection"),
            Err(_) => ensure!(k != Ok(K::CoffImport) || d.len() < 20, "a whole import header is accepted"),
        }
    }
}

#[cfg(not(kani))]
use crate::craft::*;
#[cfg(not(kani))]
use object::{BinaryFormat as B, Object};
natives! {
    /// The unified reader: one file of every kind, its identification damaged in every
    /// single byte position of the first 32.
    fn unified() {
        let files: Vec<(K, Vec<u8>, B, bool, bool)> = vec![
            (K::Elf32, elf(false, false, 1, 3, &[], &[], &[], 0), B::Elf, false, false),
            (K::Elf32, elf(true, false, 1, 8, &[], &[], &[], 0), B::Elf, false, true),
            (K::Elf64, elf(false, true, 1, 62, &[], &[], &[], 0), B::Elf, true, false),
            (K::Elf64, elf(true, true, 1, 21, &[], &[], &[], 0), B::Elf, true, true),
            (K::MachO32, macho(false, false, 1, &[], 0, &[], &[]), B::MachO, false, false),
            (K::MachO32, macho(true, false, 1, &[], 0, &[], &[]), B::MachO, false, true),
            (K::MachO64, macho(false, true, 1, &[], 0, &[], &[]), B::MachO, true, false),
            (K::MachO64, macho(true, true, 1, &[], 0, &[], &[]), B::MachO, true, true),
            (K::Coff, coff(0x14c, &[], &[], 0, &[], &[], false), B::Coff, false, false),
            (K::Coff, coff(0x8664, &[], &[], 0, &[], &[], false), B::Coff, true, false),
            (K::CoffBig, coff(0x8664, &[], &[], 0, &[], &[], true), B::Coff, true, false),
            (K::Pe32, pe(false, &[], &[(0, 0); 16], &[]), B::Pe, false, false),
            (K::Pe64, pe(true, &[], &[(0, 0); 16], &[]), B::Pe, true, false),
            (K::Xcoff32, xcoff(false, &[], &[], 0, &[], &[]), B::Xcoff, false, true),
            (K::Xcoff64, xcoff(true, &[], &[], 0, &[], &[]), B::Xcoff, true, true),
        ];
        let (k, mut f, b, wide, big) = files[choose(files.len())].clone();
        let pos = choose(33);
        if pos < 32 { assume(pos < f.len()); f[pos] = [0, 1, 2, 0x5a, 0xfe, 0xce, 0xcf, 0xff][choose(8)]; }
        let got = K::parse(&f[..]).ok();
        ensure!(got == spec(&f, 0), "{got:?}");
        match object::File::parse(&f[..]) {
            Ok(o) => {
                let (b2, w2) = match got {
                    Some(K::Elf32) => (B::Elf, Some(false)), Some(K::Elf64) => (B::Elf, Some(true)),
                    Some(K::MachO32) => (B::MachO, Some(false)), Some(K::MachO64) => (B::MachO, Some(true)),
                    Some(K::Pe32) => (B::Pe, Some(false)), Some(K::Pe64) => (B::Pe, Some(true)),
                    Some(K::Coff | K::CoffBig) => (B::Coff, None),
                    Some(K::Xcoff32) => (B::Xcoff, Some(false)), Some(K::Xcoff64) => (B::Xcoff, Some(true)),
                    x => { ensure!(false, "{x:?}"); unreachable!() }
                };
                ensure!(o.format() == b2, "format of the detected kind");
                if let Some(w) = w2 { ensure!(o.is_64() == w, "class of the detected kind"); }
                let end = match b2 { B::Elf => f[5] == 2, B::MachO => f[0] == 0xfe, B::Xcoff => true, _ => false };
                ensure!((o.endianness() == Endianness::Big) == end, "byte order of the identification");
                if pos == 32 { ensure!(got == Some(k) && b == b2 && (b == B::Coff || o.is_64() == wide) && end == big, "as made"); }
            }
            Err(_) => ensure!(pos < 32, "a good file parses"),
        }
    }
    /// Identifications at any offset of a file that has one of its own.
    fn anywhere() {
        let ids: [&[u8]; 18] = [b"!<arch>\n", b"!<thin>\n", b"dyld_v1 ", b"\x7fELF\x01", b"\x7fELF\x02", b"\xfe\xed\xfa\xce", b"\xcf\xfa\xed\xfe",
            b"\xca\xfe\xba\xbe", b"\xca\xfe\xba\xbf", b"\0asm\x01\0\0\0", b"MZ", b"\x4c\x01", b"\x64\xaa", b"\x01\xdf", b"\x01\xf7", b"\0\0\xff\xff\0\0",
            b"\0\0\xff\xff\x02\0\0\0\0\0\0\0\xc7\xa1\xba\xd1\xee\xba\xa9\x4b\xaf\x20\xfa\xf6\x6a\xa4\xdc\xb8", b"<bigaf>\n"];
        let mut f = match uni(4) { 0 => pe(uni(2) == 0, &[], &[(0, 0); 16], &[]), 1 => coff(0x8664, &[], &[], 0, &[], &[], true), 2 => elf(false, true, 1, 62, &[], &[], &[], 0), _ => vec![0; uni(80) as usize] };
        if f.len() > 40 && uni(3) == 0 { let p = uni(160).min(f.len() as u64 - 1) as usize; f[p] = [0, 1, 2, 0x10, 0xff][uni(5) as usize]; }
        let o = if uni(4) == 0 { 0 } else { uni(f.len() as u64 + 20) as usize };
        let mut id = ids[uni(18) as usize].to_vec();
        if uni(3) == 0 { let p = uni(id.len() as u64) as usize; id[p] ^= 1 << uni(8); }
        if uni(4) != 0 {
            if f.len() < o + id.len() { f.resize(o + id.len() + uni(40) as usize, 0); }
            f[o..o + id.len()].copy_from_slice(&id);
        }
        if uni(3) == 0 { f.truncate(o + uni(40) as usize); }
        let at = if uni(16) == 0 { u64::MAX - uni(20) } else { o as u64 };
        let k = K::parse_at(&f[..], at);
        ensure!(k.ok() == spec(&f, at), "the detected kind is the one the identification denotes: {k:?}");
    }
}
