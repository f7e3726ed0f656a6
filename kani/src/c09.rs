//! Section and segment contents and address lookups.
use crate::shim::*;
use object::read::{self, ReadRef};
use object::{elf, macho, pe, xcoff, BigEndian as BE, Endianness, LittleEndian as LE};

/// The contents a header describes: none, or file bytes.
fn contents<Er>(r: Result<&[u8], Er>, d: &[u8], want: Option<(u64, u64)>) {
    match (r, want) {
        (Ok(b), None) => ensure!(b.is_empty(), "no file space: empty contents"),
        (Ok(b), Some((o, s))) => {
            reach!(s > 0 && o > 0, "contents read");
            ensure!(read_spec(d, o, s), "contents inside the file");
            ensure!(is_read(b, d, o, s), "contents are exactly the described bytes");
        }
        (Err(_), w) => ensure!(match w { Some((o, s)) => !read_spec(d, o, s), None => false }, "fails only when the range leaves the file"),
    }
}
/// Address lookup in contents `d[o..o+s]` starting at address `base`.
fn lookup(r: Option<&[u8]>, d: &[u8], o: u64, s: u64, base: u64, a: u64, n: u64) {
    let inside = a >= base && (a - base) as u128 + n as u128 <= s as u128;
    match r {
        Some(b) => {
            ensure!(inside, "lookup stays inside the contents");
            ensure!(b.len() as u64 == n, "lookup returns the size asked for");
            ensure!(n == 0 || is_at(b, d, (o + (a - base)) as usize, n as usize), "lookup returns the bytes at that distance");
        }
        None => ensure!(!inside, "lookup finds every range inside the contents"),
    }
}

macro_rules! elf_section {
    ($t:ident) => {{
        use read::elf::SectionHeader as _;
        let e = any_endian();
        let d = any_bytes::<96>();
        let h = any_pod!(elf::$t<Endianness>);
        let want = if h.sh_type(e) == elf::SHT_NOBITS { None } else { Some((u64::from(h.sh_offset(e)), u64::from(h.sh_size(e)))) };
        ensure!(h.file_range(e) == want, "file_range is sh_offset and sh_size, none for SHT_NOBITS");
        contents(h.data(e, d), d, want);
        match h.data_as_array::<elf::Rela64<Endianness>, _>(e, d) {
            Ok(a) => {
                let bytes = object::pod::bytes_of_slice(a);
                let (o, s) = want.unwrap_or((0, 0));
                ensure!(read_spec(d, o, s), "array inside the file");
                ensure!(a.len() as u64 == s / 24, "array has every whole entry");
                ensure!(bytes.is_empty() || is_at(bytes, d, o as usize, a.len() * 24), "array is the section's bytes");
            }
            Err(_) => {
                reach!(want.is_some_and(|(o, s)| !read_spec(d, o, s)), "array outside the file");
                ensure!(want.is_some_and(|(o, s)| !read_spec(d, o, s) || s % 24 != 0), "array fails only when the range leaves the file or has a partial entry")
            }
        }
    }};
}
macro_rules! elf_segment {
    ($t:ident) => {{
        use read::elf::ProgramHeader as _;
        let e = any_endian();
        let d = any_bytes::<96>();
        let h = any_pod!(elf::$t<Endianness>);
        let (o, s) = (u64::from(h.p_offset(e)), u64::from(h.p_filesz(e)));
        ensure!(h.file_range(e) == (o, s), "file_range is p_offset and p_filesz");
        contents(h.data(e, d), d, Some((o, s)));
        let (a, n) = (any::<u64>(), any::<u64>());
        match h.data_range(e, d, a, n) {
            Ok(r) => {
                reach!(r.is_some() && n > 0 && a > u64::from(h.p_vaddr(e)), "lookup succeeds");
                ensure!(read_spec(d, o, s), "lookup needs readable contents");
                lookup(r, d, o, s, u64::from(h.p_vaddr(e)), a, n);
            }
            Err(_) => ensure!(!read_spec(d, o, s), "fails only when the range leaves the file"),
        }
    }};
}
macro_rules! mach_section {
    ($t:ident) => {{
        use read::macho::Section as _;
        let e = any_endian();
        let d = any_bytes::<96>();
        let h = any_pod!(macho::$t<Endianness>);
        let off = any::<u64>();
        let t = h.flags(e).0 & 0xff;
        // S_ZEROFILL, S_GB_ZEROFILL, S_THREAD_LOCAL_ZEROFILL
        let none = t == 1 || t == 0xc || t == 0x12;
        let want = if none { None } else { Some((off, u64::from(h.size(e)))) };
        ensure!(h.file_size(e) == want.map(|x| x.1), "file_size");
        ensure!(h.file_range(e, off) == want, "file_range");
        contents(h.data(e, d, off), d, want);
    }};
}
macro_rules! mach_segment {
    ($t:ident, $s:ident, $n:literal) => {{
        use read::macho::Segment as _;
        let e = any_endian();
        let d = any_bytes::<160>();
        let h = any_pod!(macho::$t<Endianness>);
        let (o, s) = (u64::from(h.fileoff(e)), u64::from(h.filesize(e)));
        ensure!(h.file_range(e) == (o, s), "file_range");
        contents(h.data(e, d), d, Some((o, s)));
        let n = h.nsects(e) as u64;
        match h.sections(e, d) {
            Ok(v) => {
                let b = object::pod::bytes_of_slice(v);
                ensure!(v.len() as u64 == n, "every declared section");
                ensure!(n == 0 || is_at(b, d, 0, n as usize * $n), "sections follow the segment command");
            }
            Err(_) => ensure!(n * $n > d.len() as u64, "fails only when too short"),
        }
    }};
}
macro_rules! x_section {
    ($t:ident) => {{
        use read::xcoff::SectionHeader as _;
        let d = any_bytes::<96>();
        let h = any_pod!(xcoff::$t);
        // STYP_BSS, STYP_TBSS
        let t = h.s_flags().0 & 0xffff;
        let want = if t & 0x880 != 0 { None } else { Some((u64::from(h.s_scnptr()), u64::from(h.s_size()))) };
        ensure!(h.file_range() == want, "file_range is s_scnptr and s_size, none for uninitialized data");
        contents(h.data(d), d, want);
    }};
}

/// Address of the `i`th section's file offset by the documented large-file rule.
fn mach_offsets<const N: usize>() {
    use read::macho::Segment as _;
    let e = LE;
    let seg = any_pod!(macho::SegmentCommand64<LE>);
    let s: [macho::Section64<LE>; N] = core::array::from_fn(|_| any_pod!(macho::Section64<LE>));
    let (fo, fs) = (seg.fileoff.get(e), seg.filesize.get(e));
    assume(fo < 1 << 62 && fs < 1 << 62);
    // Sizes of real sections; the sums below are mathematical.
    let large = fo + fs > u32::MAX as u64;
    let mut it = seg.section_offsets(e, &s);
    let mut prev = fo as u128;
    let mut i = 0;
    while i < N {
        let off = s[i].offset.get(e) as u128;
        let t = s[i].flags.get(e).0 & 0xff;
        let none = t == 1 || t == 0xc || t == 0x12;
        let size = s[i].size.get(e) as u128;
        assume(size < 1 << 62);
        let r = it.next();
        if !large || none {
            ensure!(matches!(r, Some(Ok((h, o))) if core::ptr::eq(h, &s[i]) && o as u128 == off), "small file or no contents: the header's offset");
        } else {
            // The least offset not below the previous section's end that the header's 32 bits allow.
            let mut want = (prev & !0xffff_ffff) + off;
            if want < prev { want += 1 << 32; }
            if want + size > (fo + fs) as u128 {
                ensure!(matches!(r, Some(Err(_))), "section past the segment's end is an error");
                ensure!(it.next().is_none(), "iteration stops after an error");
                return;
            }
            reach!(off != want, "reconstructed offset");
            ensure!(matches!(r, Some(Ok((h, o))) if core::ptr::eq(h, &s[i]) && o as u128 == want), "reconstructed offset");
            prev = want + size;
        }
        i += 1;
    }
    ensure!(it.next().is_none(), "one entry for each section");
}

harnesses! {
    fn elf_section32() { elf_section!(SectionHeader32) }
    fn elf_section64() { elf_section!(SectionHeader64) }
    fn elf_segment32() { elf_segment!(ProgramHeader32) }
    fn elf_segment64() { elf_segment!(ProgramHeader64) }
    fn macho_section32() { mach_section!(Section32) }
    fn macho_section64() { mach_section!(Section64) }
    fn macho_segment32() { mach_segment!(SegmentCommand32, Section32, 68) }
    fn macho_segment64() { mach_segment!(SegmentCommand64, Section64, 80) }
    fn xcoff_section32() { x_section!(SectionHeader32) }
    fn xcoff_section64() { x_section!(SectionHeader64) }
    /// Bounded: two consecutive sections.
    [kani::unwind(4)]
    fn b_macho_section_offsets() { mach_offsets::<2>() }
    fn macho_section_offset_step() { mach_offsets::<1>() }
    fn coff_section() {
        let d = any_bytes::<96>();
        let h = any_pod!(pe::ImageSectionHeader);
        let (o, s) = (h.pointer_to_raw_data.get(LE), h.size_of_raw_data.get(LE));
        let want = if h.characteristics.get(LE).0 & 0x80 != 0 { None } else { Some((o, s)) };
        ensure!(h.coff_file_range() == want, "file_range, none for uninitialized data");
        contents(h.coff_data(d), d, want.map(|(o, s)| (o as u64, s as u64)));
        // IMAGE_SCN_ALIGN_nBYTES is log2(n) + 1 in bits 20..24; 16 is the default.
        let a = h.characteristics.get(LE).0 >> 20 & 15;
        ensure!(h.coff_alignment() == if a == 0 || a == 15 { 16 } else { 1 << (a - 1) }, "alignment");
    }
    fn pe_section() {
        let d = any_bytes::<96>();
        let h = any_pod!(pe::ImageSectionHeader);
        let (o, rs, vs, va) = (h.pointer_to_raw_data.get(LE), h.size_of_raw_data.get(LE), h.virtual_size.get(LE), h.virtual_address.get(LE));
        let s = if vs < rs { vs } else { rs };
        ensure!(h.pe_file_range() == (o, s), "file_range is limited by the virtual and the raw size");
        ensure!(h.pe_address_range() == (va, vs), "address range");
        contents(h.pe_data(d), d, Some((o as u64, s as u64)));
        let a = any::<u32>();
        ensure!(h.contains_rva(a) == (a >= va && a - va < vs), "contains_rva");
        let inside = a >= va && a - va < s;
        match h.pe_file_range_at(a) {
            Some((fo, fs)) => {
                reach!(a > va, "address inside");
                ensure!(inside, "address is inside the mapped file data");
                ensure!(fo as u64 == o as u64 + (a - va) as u64 && fs == s - (a - va), "offset at that distance, size up to the section's end");
            }
            None => ensure!(!inside || o as u64 + (a - va) as u64 > u32::MAX as u64, "every mapped address is found"),
        }
        match h.pe_data_at(d, a) {
            Some(b) => ensure!(inside && is_at(b, d, (o + (a - va)) as usize, (s - (a - va)) as usize), "bytes from that distance to the section's end"),
            None => ensure!(!inside || !read_spec(d, o as u64 , s as u64) || o as u64 + (a - va) as u64 > u32::MAX as u64, "data found when readable"),
        }
        match h.pe_data_containing(d, a) {
            Some((b, v)) => ensure!(inside && v == va && is_at(b, d, o as usize, s as usize), "whole section's bytes and address"),
            None => ensure!(!inside || !read_spec(d, o as u64, s as u64), "data found when readable"),
        }
    }
}

#[cfg(not(kani))]
use crate::craft::*;
#[cfg(not(kani))]
use object::{Object, ObjectSection, ObjectSegment};

/// Section and segment views of the unified reader against (file range, address) pairs.
#[cfg(not(kani))]
fn views(file: &[u8], secs: &[(u64, Option<(u64, u64)>)], segs: &[(u64, (u64, u64))]) {
    let f = object::File::parse(file).unwrap();
    let d = file;
    let n = f.sections().count();
    ensure!(n == secs.len(), "every section is reported");
    let probes = |base: u64, s: u64| {
        let mut v = vec![];
        for a in [0, 1, 2, s.wrapping_sub(1), s, s + 1, u64::MAX] {
            for l in [0, 1, 2, s.wrapping_sub(1), s, s + 1, u64::MAX, (u64::MAX).wrapping_sub(base), 1 << 32] {
                v.push((base.wrapping_add(a), l));
            }
        }
        v.push((0, 1));
        v.push((base.wrapping_add(1 << 32), 1));
        v
    };
    for (s, (addr, want)) in f.sections().zip(secs) {
        ensure!(s.address() == *addr, "section address");
        let want0 = want.filter(|w| w.1 > 0 || !matches!(f, object::File::Pe32(_) | object::File::Pe64(_)));
        ensure!(s.file_range() == want0, "section file range");
        contents(s.data(), d, *want);
        if s.data().is_ok() {
            let (o, l) = want.unwrap_or((0, 0));
            for (a, n) in probes(*addr, l) {
                lookup(s.data_range(a, n).unwrap(), d, o, l, *addr, a, n);
            }
        } else {
            ensure!(s.data_range(*addr, 0).is_err(), "lookup in unreadable contents is an error");
        }
        if s.data().is_ok() {
            ensure!(s.uncompressed_data().unwrap()[..] == *s.data().unwrap(), "plain section contents");
        }
    }
    ensure!(f.segments().count() == segs.len(), "every segment is reported");
    for (s, (addr, (o, l))) in f.segments().zip(segs) {
        ensure!(s.address() == *addr, "segment address");
        ensure!(s.file_range() == (*o, *l), "segment file range");
        contents(s.data(), d, Some((*o, *l)));
        if s.data().is_ok() {
            for (a, n) in probes(*addr, *l) {
                lookup(s.data_range(a, n).unwrap(), d, *o, *l, *addr, a, n);
            }
        }
    }
}
#[cfg(not(kani))]
const NB: usize = 24;
#[cfg(not(kani))]
fn body() -> Vec<u8> { (0..NB as u8).map(|i| 0xa0 + i).collect() }
/// (offset from body start, size)
#[cfg(not(kani))]
fn pick() -> (u64, u64) { [(0, 5), (3, 21), (4, 0), (23, 4000), (5, 1)][choose(5)] }
#[cfg(not(kani))]
fn addr(wide: bool) -> u64 { [0, 0x1001, if wide { u64::MAX - 3 } else { 0xffff_fffc }][choose(3)] }

natives! {
    fn elf_views() {
        let (big, wide) = (choose(2) == 1, choose(2) == 1);
        let b0 = elf_body_off(wide, 2);
        let (o1, s1) = pick();
        let a1 = addr(wide);
        let t1 = [1u32, 8, 14, 7][choose(4)];
        let (o2, s2) = (b0 + 2, 9);
        let sh = [
            Sh::default(),
            Sh { typ: t1, off: b0 + o1, size: s1, addr: a1, ..Sh::default() },
            Sh { typ: 3, off: o2, size: s2, addr: 7, ..Sh::default() },
        ];
        let ph = [
            Ph { typ: 1, off: b0 + o1, filesz: s1, memsz: s1 + 3, vaddr: a1, paddr: 1, ..Ph::default() },
            Ph { typ: 1, off: o2, filesz: s2, memsz: 1, vaddr: 0x2000, paddr: 2, ..Ph::default() },
        ];
        let f = elf(big, wide, 2, if wide { 62 } else { 3 }, &body(), &ph, &sh, 2);
        let w1 = if t1 == 8 { None } else { Some((b0 + o1, s1)) };
        views(&f, &[(a1, w1), (7, Some((o2, s2)))], &[(a1, (b0 + o1, s1)), (0x2000, (o2, s2))]);
    }
    fn coff_views() {
        let big = choose(2) == 1;
        let b0 = coff_hdr_len(2, big) as u64;
        let (o1, s1) = pick();
        let a1 = addr(false);
        let fl = [0x20u32, 0x80, 0x40, 0xa0][choose(4)];
        let secs = [
            Cs { name: name8(".text"), vsize: 1, va: a1 as u32, rsize: s1 as u32, roff: (b0 + o1) as u32, flags: fl, ..Cs::default() },
            Cs { name: name8("b"), vsize: 100, va: 5, rsize: 4, roff: b0 as u32 + 1, flags: 0x40, ..Cs::default() },
        ];
        let f = coff(0x8664, &secs, &body(), 0, &[], &[], big);
        let w1 = if fl & 0x80 != 0 { None } else { Some((b0 + o1, s1)) };
        views(&f, &[(a1, w1), (5, Some((b0 + 1, 4)))], &[(a1, w1.unwrap_or((0, 0))), (5, (b0 + 1, 4))]);
    }
    fn pe_views() {
        let wide = choose(2) == 1;
        let b0 = pe_body_off(wide, 2) as u64;
        let (o1, s1) = pick();
        let vs = [0, 3, s1, 5000][choose(4)];
        let a1 = [0x1000u32, 0, 0xffff_fffc][choose(3)];
        let secs = [
            Cs { name: name8(".text"), vsize: vs as u32, va: a1, rsize: s1 as u32, roff: (b0 + o1) as u32, flags: 0x20, ..Cs::default() },
            Cs { name: name8("b"), vsize: 100, va: 0x3000, rsize: 4, roff: b0 as u32 + 1, flags: 0x40, ..Cs::default() },
        ];
        let f = pe(wide, &secs, &[(0, 0); 16], &body());
        let base = 0x40_0000u64;
        let (x, y) = ((b0 + o1, s1.min(vs)), (b0 + 1, 4));
        views(&f, &[(a1 as u64 + base, Some(x)), (0x3000 + base, Some(y))], &[(a1 as u64 + base, x), (0x3000 + base, y)]);
    }
    fn macho_views() {
        let (big, wide) = (choose(2) == 1, choose(2) == 1);
        let b0 = MACHO_BODY as u64;
        let (o1, s1) = pick();
        let a1 = addr(wide);
        let t1 = [0u32, 1, 0xc, 0x12, 0x11, 2][choose(6)];
        let segs = [
            Mg { name: name16("__TEXT"), vmaddr: a1, vmsize: 1, off: b0 + o1, size: s1, sections: vec![
                Ms { sect: name16("__text"), seg: name16("__TEXT"), addr: a1, size: s1, off: (b0 + o1) as u32, flags: t1, ..Ms::default() },
                Ms { sect: name16("__b"), seg: name16("__TEXT"), addr: 3, size: 4, off: b0 as u32 + 1, ..Ms::default() },
            ] },
            Mg { name: name16("__DATA"), vmaddr: 0x5000, vmsize: 1, off: b0 + 2, size: 9, sections: vec![] },
        ];
        let f = macho(big, wide, 1, &segs, 0, &[], &body());
        let w1 = if matches!(t1, 1 | 0xc | 0x12) { None } else { Some((b0 + o1, s1)) };
        views(&f, &[(a1, w1), (3, Some((b0 + 1, 4)))], &[(a1, (b0 + o1, s1)), (0x5000, (b0 + 2, 9))]);
    }
    fn xcoff_views() {
        let wide = choose(2) == 1;
        let b0 = xcoff_hdr_len(wide, 2) as u64;
        let (o1, s1) = pick();
        let a1 = addr(wide);
        let fl = [0x20u32, 0x40, 0x80, 0x800, 0x400, 0x10][choose(6)];
        let zero = fl & 0x880 != 0;
        let secs = [
            Xs { name: name8(".text"), paddr: a1, vaddr: 9, size: s1, off: if zero { 0 } else { b0 + o1 }, flags: fl, ..Xs::default() },
            Xs { name: name8("b"), paddr: 5, vaddr: 8, size: 4, off: b0 + 1, flags: 0x40, ..Xs::default() },
        ];
        let f = xcoff(wide, &secs, &body(), 0, &[], &[]);
        let w1 = if zero { None } else { Some((b0 + o1, s1)) };
        views(&f, &[(a1, w1), (5, Some((b0 + 1, 4)))], &[]);
    }
    /// The section table's lookups are those of its first section that has the address.
    fn pe_table() {
        let b0 = pe_body_off(false, 3) as u32;
        let rs = [0u32, 4, 8];
        let mut secs = vec![];
        for i in 0..3u32 {
            let (va, vs) = [(0x1000, 6), (0x1004, 4), (0x1002, 0), (0xffff_fffe, 9)][choose(4)];
            let r = rs[choose(3)];
            secs.push(Cs { name: name8("x"), va, vsize: vs, rsize: r, roff: if r == 4 && i == 1 { 0x10_0000 } else { b0 + i }, ..Cs::default() });
        }
        let f = pe(false, &secs, &[(0, 0); 16], &body());
        let p = read::pe::PeFile32::parse(&*f).unwrap();
        let t = p.section_table();
        for a in [0u32, 0xfff, 0x1000, 0x1003, 0x1004, 0x1005, 0x1007, 0x1008, 0xffff_fffe, 0xffff_ffff] {
            let map = |s: &Cs| { let n = s.vsize.min(s.rsize); if a >= s.va && a - s.va < n { Some((s.roff.checked_add(a - s.va)?, n - (a - s.va))) } else { None } };
            ensure!(t.pe_file_range_at(a) == secs.iter().find_map(map), "file range of the first section mapping the address");
            let want = secs.iter().find_map(|s| { let (o, n) = map(s)?; f.get(o as usize..)?.get(..n as usize) });
            ensure!(t.pe_data_at(&*f, a) == want, "data of the first readable section mapping the address");
            let want = secs.iter().find_map(|s| { map(s)?; Some((f.get(s.roff as usize..)?.get(..s.vsize.min(s.rsize) as usize)?, s.va)) });
            ensure!(t.pe_data_containing(&*f, a) == want, "whole section mapping the address");
            let want = secs.iter().position(|s| a >= s.va && a - s.va < s.vsize);
            let got = t.section_containing(a).map(|h| (h as *const _ as usize - t.iter().as_slice().as_ptr() as usize) / 40);
            ensure!(got == want, "first section containing the address");
        }
    }
}
