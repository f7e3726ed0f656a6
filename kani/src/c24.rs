//! Compressed sections.
use crate::shim::*;
use object::read::{self, CompressedData, CompressedFileRange, CompressionFormat as F};
use object::{elf, Endianness};

/// The repository's GNU compression header parser, extracted on every build.
#[cfg(x_gnu_compression)]
pub mod x {
    use object::{endian, CompressedFileRange, CompressionFormat, ReadRef, U32};
    include!(concat!(env!("OUT_DIR"), "/gnu_compression.rs"));
    pub fn parse(d: &'static [u8], o: u64, s: u64) -> Result<CompressedFileRange, ()> { compressed_file_range(d, o, s).map_err(|_| ()) }
}
#[cfg(x_gnu_compression)]
fn gnu() {
    let d = any_bytes::<48>();
    let (o, s) = (any::<u64>(), any::<u64>());
    // the header must be in the file, and inside the section
    let magic = read_spec(d, o, 12) && {
        let h = &d[o as usize..o as usize + 12];
        h[0] == b'Z' && h[1] == b'L' && h[2] == b'I' && h[3] == b'B' && h[4] == 0 && h[5] == 0 && h[6] == 0 && h[7] == 0
    };
    match x::parse(d, o, s) {
        Ok(c) => {
            reach!(c.compressed_size > 3, "payload");
            ensure!(magic && s >= 12, "accepted only with a whole header inside the section");
            let h = &d[o as usize..o as usize + 12];
            ensure!(c.format == F::Zlib, "format");
            ensure!(c.offset == o + 12 && c.compressed_size == s - 12, "payload is exactly the bytes after the header");
            ensure!(c.uncompressed_size == u32::from_be_bytes([h[8], h[9], h[10], h[11]]) as u64, "declared size, big-endian");
        }
        Err(()) => ensure!(!(magic && s >= 12), "fails only without a whole header"),
    }
}
#[cfg(not(x_gnu_compression))]
fn gnu() { reach!(false, "extraction lost; the native stand-in remains") }

macro_rules! chdr {
    ($s:ident, $len:literal) => {{
        use read::elf::{CompressionHeader as _, SectionHeader as _};
        let e = any_endian();
        let d = any_bytes::<96>();
        let h = any_pod!(elf::$s<Endianness>);
        let flagged = h.sh_flags(e).0 as u64 & 0x800 != 0;
        let nobits = h.sh_type(e).0 == 8;
        let (o, s) = (u64::from(h.sh_offset(e)), u64::from(h.sh_size(e)));
        match h.compression(e, d) {
            Ok(None) => ensure!(!flagged, "a flagged section is compressed"),
            Ok(Some((c, off, size))) => {
                reach!(size > 0 && o > 0, "payload");
                ensure!(flagged && !nobits, "only flagged sections with contents");
                ensure!(s >= $len && read_spec(d, o, $len), "whole header inside the section and the file");
                ensure!(off == o + $len && size == s - $len, "payload is exactly the bytes after the header");
                let b = object::pod::bytes_of(c);
                ensure!(is_at(b, d, o as usize, $len), "header is the section's first bytes");
                let word = |i: usize| {
                    let x = [b[i], b[i + 1], b[i + 2], b[i + 3]];
                    if e == Endianness::Big { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) }
                };
                ensure!(c.ch_type(e).0 == word(0), "algorithm");
                let want = if $len == 12 { word(4) as u64 } else {
                    let (a, b) = (word(8) as u64, word(12) as u64);
                    if e == Endianness::Big { a << 32 | b } else { b << 32 | a }
                };
                ensure!(u64::from(c.ch_size(e)) == want, "declared size");
                let al = if $len == 12 { word(8) as u64 } else {
                    let (a, b) = (word(16) as u64, word(20) as u64);
                    if e == Endianness::Big { a << 32 | b } else { b << 32 | a }
                };
                ensure!(u64::from(c.ch_addralign(e)) == al, "declared alignment");
            }
            Err(_) => ensure!(flagged && (nobits || s < $len || !read_spec(d, o, $len)), "fails only without a whole header"),
        }
    }};
}

harnesses! {
    fn gnu_header() { gnu() }
    fn elf_header32() { chdr!(SectionHeader32, 12) }
    fn elf_header64() { chdr!(SectionHeader64, 24) }
    fn plain_range() {
        let some = any_bool();
        let (o, s) = (any::<u64>(), any::<u64>());
        let r = CompressedFileRange::none(if some { Some((o, s)) } else { None });
        let (o, s) = if some { (o, s) } else { (0, 0) };
        ensure!(r.format == F::None && r.offset == o && r.compressed_size == s && r.uncompressed_size == s, "an uncompressed range is itself");
        let f = any_bytes::<32>();
        let mut c = r;
        c.format = match any_below(4) { 0 => F::None, 1 => F::Unknown, 2 => F::Zlib, _ => F::Zstandard };
        c.uncompressed_size = any();
        match c.data(f) {
            Ok(d) => {
                reach!(s > 1, "data");
                ensure!(read_spec(f, o, s) && is_read(d.data, f, o, s), "exactly the range's bytes");
                ensure!(d.format == c.format && d.uncompressed_size == c.uncompressed_size, "format and size carried over");
            }
            Err(_) => ensure!(!read_spec(f, o, s), "fails only when outside the file"),
        }
    }
    fn plain_data() {
        let b = any_bytes::<32>();
        let d = CompressedData::none(b);
        ensure!(d.format == F::None && d.uncompressed_size == b.len() as u64 && is_at(d.data, b, 0, b.len()), "uncompressed data is itself");
        let c = CompressedData { format: F::None, data: b, uncompressed_size: any() };
        match c.decompress() {
            Ok(std::borrow::Cow::Borrowed(x)) => ensure!(is_at(x, b, 0, b.len()), "returned unchanged, in place"),
            _ => ensure!(false, "uncompressed data never fails and is never copied"),
        }
        let c = CompressedData { format: F::Unknown, data: b, uncompressed_size: any() };
        ensure!(c.decompress().is_err(), "an unknown format is an error");
    }
}

#[cfg(not(kani))]
use crate::craft::*;
#[cfg(not(kani))]
use object::{Object, ObjectSection};

natives! {
    /// Every combination of name, flag, header and size, through the unified section API.
    fn elf_sections() {
        let (big, wide) = (choose(2) == 1, choose(2) == 1);
        let names = [".text", ".zdebug_info", ".debug_info", ".zdebug", ".xzdebug_"];
        let name = names[choose(names.len())];
        let flagged = choose(2) == 1;
        let nobits = choose(2) == 1;
        let typ = [1u32, 2, 3, 0, 0x6000_0000][choose(5)];
        let magic: &[u8] = [&b"ZLIB\0\0\0\0"[..], b"ZLIB\0\0\0\x01", b"ZLIC\0\0\0\0"][choose(3)];
        let size = [0u64, 4, 11, 12, 13, 23, 24, 25, 40, 4000][choose(10)];
        let mut w = W::new(big, wide);
        w.bytes(b"abcd");
        let at = w.pos();
        if flagged {
            w.u32(typ);
            if wide { w.u32(7); }
            w.word(1000).word(8);
        } else {
            w.bytes(magic).bytes(&1000u32.to_be_bytes());
        }
        w.bytes(&[7; 40]);
        let stroff = w.pos();
        w.bytes(b"\0").bytes(name.as_bytes()).bytes(b"\0");
        let base = elf_body_off(wide, 0);
        let sh = [
            Sh::default(),
            Sh { name: 1, typ: if nobits { 8 } else { 1 }, flags: if flagged { 0x800 } else { 0 }, off: base + at, size, ..Sh::default() },
            Sh { name: 0, typ: 3, off: base + stroff, size: name.len() as u64 + 2, ..Sh::default() },
        ];
        let file = elf(big, wide, 1, 62, &w.b, &[], &sh, 2);
        let f = object::File::parse(&file[..]).unwrap();
        let s = f.section_by_index(object::SectionIndex(1)).unwrap();
        let r = s.compressed_file_range();
        let hl = if wide { 24 } else { 12 };
        let off = base + at;
        let want = if flagged {
            let fmt = match typ { 1 => Some(F::Zlib), 2 => Some(F::Zstandard), _ => None };
            if nobits || size < hl { None } else { fmt.map(|f| (f, off + hl, size - hl, 1000)) }
        } else if name.starts_with(".zdebug_") {
            if nobits || size < 12 || magic != b"ZLIB\0\0\0\0" { None } else { Some((F::Zlib, off + 12, size - 12, 1000)) }
        } else if nobits { Some((F::None, 0, 0, 0)) } else { Some((F::None, off, size, size)) };
        match (r, want) {
            (Ok(r), Some(w)) => ensure!((r.format, r.offset, r.compressed_size, r.uncompressed_size) == w, "{r:?} {w:?}"),
            (Ok(r), None) => ensure!(r.format == F::Unknown, "a bad header is an error or the unknown format"),
            (Err(_), w) => ensure!(w.is_none(), "a good header is accepted"),
        }
        match (s.compressed_data(), want) {
            (Ok(c), Some(w)) => {
                ensure!(c.format == w.0 && c.uncompressed_size == w.3, "format and size");
                ensure!(c.data == if w.2 == 0 { &[][..] } else { &file[w.1 as usize..(w.1 + w.2) as usize] }, "payload");
                if w.0 == F::None { ensure!(&*s.uncompressed_data().unwrap() == s.data().unwrap(), "plain contents unchanged"); }
            }
            (Ok(_), None) => ensure!(false, "bad header"),
            (Err(_), Some(w)) => ensure!(w.1 + w.2 > file.len() as u64, "fails only outside the file"),
            (Err(_), None) => {}
        }
    }
    fn macho_sections() {
        let (big, wide) = (choose(2) == 1, choose(2) == 1);
        let names = ["__text", "__zdebug_info", "__debug_info", "__zdebug", ".zdebug_x"];
        let name = names[choose(names.len())];
        let zero = choose(2) == 1;
        let magic: &[u8] = [&b"ZLIB\0\0\0\0"[..], b"ZLIB\0\0\0\x01", b"ZLIC\0\0\0\0"][choose(3)];
        let size = [0u64, 4, 11, 12, 13, 40, 4000][choose(7)];
        let mut body = b"abcd".to_vec();
        body.extend_from_slice(magic);
        body.extend_from_slice(&1000u32.to_be_bytes());
        body.extend_from_slice(&[7; 40]);
        let off = MACHO_BODY as u64 + 4;
        let segs = [Mg { name: name16("__DWARF"), vmaddr: 0, vmsize: 64, off: MACHO_BODY as u64, size: 64, sections: vec![
            Ms { sect: name16(name), seg: name16("__DWARF"), addr: 0, size, off: off as u32, flags: zero as u32, ..Ms::default() }] }];
        let file = macho(big, wide, 1, &segs, 0, &[], &body);
        let f = object::File::parse(&file[..]).unwrap();
        let s = f.sections().next().unwrap();
        let want = if name.starts_with("__zdebug_") {
            if zero || size < 12 || magic != b"ZLIB\0\0\0\0" { None } else { Some((F::Zlib, off + 12, size - 12, 1000)) }
        } else if zero { Some((F::None, 0, 0, 0)) } else { Some((F::None, off, size, size)) };
        match (s.compressed_file_range(), want) {
            (Ok(r), Some(w)) => ensure!((r.format, r.offset, r.compressed_size, r.uncompressed_size) == w, "{r:?} {w:?}"),
            (Ok(r), None) => ensure!(r.format == F::Unknown, "a bad header is an error or the unknown format"),
            (Err(_), w) => ensure!(w.is_none(), "a good header is accepted"),
        }
        match (s.compressed_data(), want) {
            (Ok(c), Some(w)) => {
                ensure!(c.format == w.0 && c.uncompressed_size == w.3, "format and size");
                ensure!(c.data == if w.2 == 0 { &[][..] } else { &file[w.1 as usize..(w.1 + w.2) as usize] }, "payload");
            }
            (Ok(_), None) => ensure!(false, "bad header"),
            (Err(_), Some(w)) => ensure!(w.1 + w.2 > file.len() as u64, "fails only outside the file"),
            (Err(_), None) => {}
        }
    }
    /// COFF, PE and XCOFF have no compressed sections.
    fn other_sections() {
        let name = [".zdebug_", ".text"][choose(2)];
        let body = b"ZLIB\0\0\0\0\0\0\0\x20abcdefgh".to_vec();
        let n = body.len() as u32;
        let file = match choose(6) {
            0 | 1 => { let b = choose(2) == 1; coff(0x8664, &[Cs { name: name8(name), rsize: n, roff: coff_hdr_len(1, b) as u32, ..Cs::default() }], &body, 0, &[], &[], b) }
            2 => pe(false, &[Cs { name: name8(name), vsize: n, va: 0x1000, rsize: n, roff: pe_body_off(false, 1) as u32, ..Cs::default() }], &[(0, 0); 16], &body),
            3 => pe(true, &[Cs { name: name8(name), vsize: n, va: 0x1000, rsize: n, roff: pe_body_off(true, 1) as u32, ..Cs::default() }], &[(0, 0); 16], &body),
            i => { let w = i == 4; xcoff(w, &[Xs { name: name8(name), size: n as u64, off: xcoff_hdr_len(w, 1) as u64, flags: 0x20, ..Xs::default() }], &body, 0, &[], &[]) }
        };
        let f = object::File::parse(&file[..]).unwrap();
        let s = f.sections().next().unwrap();
        let r = s.compressed_file_range().unwrap();
        ensure!(r.format == F::None && Some((r.offset, r.compressed_size)) == s.file_range() && r.uncompressed_size == n as u64, "plain");
        ensure!(s.compressed_data().unwrap().data == &body[..], "plain contents");
        ensure!(&*s.uncompressed_data().unwrap() == &body[..], "plain contents unchanged");
    }
}
