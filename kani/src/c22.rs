//! Packed bit-fields: every getter returns exactly its bits, every setter changes only them.
use crate::ptrs::*;
use crate::shim::*;
use object::{elf, macho, pe, xcoff, BigEndian as BE, Endian, LittleEndian as LE};

/// `with_$f` / `$f` on a word newtype whose field value has the same representation as the word.
macro_rules! masked {
    ($t:expr, $i:ty, $get:ident, $with:ident, $mask:expr, $mk:expr, $name:literal) => {{
        let (w, v) = (any::<$i>(), any::<$i>());
        let x = $t(w);
        ensure!(x.$get() == $mk(w & $mask), concat!($name, " reads exactly its bits"));
        let y = x.$with($mk(v));
        ensure!(y.0 & $mask == v & $mask, concat!($name, " set value is stored"));
        ensure!(y.0 & !$mask == w & !$mask, concat!($name, " other fields unchanged"));
        ensure!(y.$get() == $mk(v & $mask), concat!($name, " reads back"));
    }};
}
macro_rules! flag_ops {
    ($t:path, $i:ty) => {{
        let (a, b) = (any::<$i>(), any::<$i>());
        let (x, y) = ($t(a), $t(b));
        ensure!(x.contains(y) == (a & b == b), "contains");
        ensure!(x.intersects(y) == (a & b != 0), "intersects");
        ensure!(x.with(y).0 == (a | b) && x.without(y).0 == (a & !b), "with/without");
        let mut z = x;
        z.insert(y);
        ensure!(z.0 == (a | b), "insert");
        let mut z = x;
        z.remove(y);
        ensure!(z.0 == (a & !b), "remove");
        ensure!((x & y).0 == a & b && (x | y).0 == a | b && (x ^ y).0 == a ^ b, "bit operators");
        let mut z = x; z &= y; ensure!(z.0 == a & b, "and-assign");
        let mut z = x; z |= y; ensure!(z.0 == a | b, "or-assign");
        let mut z = x; z ^= y; ensure!(z.0 == a ^ b, "xor-assign");
    }};
}

fn mach_reloc<E: Endian>(e: E) {
    use macho::{RelocationInfo, RelocationType, ScatteredRelocationInfo};
    let i = RelocationInfo {
        r_address: any(), r_symbolnum: any(), r_pcrel: any_bool(), r_length: any(),
        r_extern: any_bool(), r_type: RelocationType(any()),
    };
    assume(i.r_symbolnum < 1 << 24 && i.r_length < 4 && i.r_type.0 < 16);
    let r = i.relocation(e);
    reach!(i.r_symbolnum > 256, "plain relocation");
    let w = r.r_word1.get(e);
    let want = if e.is_little_endian() {
        i.r_symbolnum | (i.r_pcrel as u32) << 24 | (i.r_length as u32) << 25 | (i.r_extern as u32) << 27 | (i.r_type.0 as u32) << 28
    } else {
        i.r_symbolnum << 8 | (i.r_pcrel as u32) << 7 | (i.r_length as u32) << 5 | (i.r_extern as u32) << 4 | i.r_type.0 as u32
    };
    ensure!(w == want, "plain relocation: packed word is the one the format defines");
    let j = r.info(e);
    ensure!(j.r_address == i.r_address, "r_address round trip");
    ensure!(j.r_symbolnum == i.r_symbolnum, "r_symbolnum round trip");
    ensure!(j.r_pcrel == i.r_pcrel && j.r_length == i.r_length, "r_pcrel/r_length round trip");
    ensure!(j.r_extern == i.r_extern && j.r_type == i.r_type, "r_extern/r_type round trip");

    let s = ScatteredRelocationInfo {
        r_address: any(), r_type: RelocationType(any()), r_length: any(), r_pcrel: any_bool(), r_value: any(),
    };
    assume(s.r_address < 1 << 24 && s.r_length < 4 && s.r_type.0 < 16);
    let r = s.relocation(e);
    let w = r.r_word0.get(e);
    ensure!(w == s.r_address | (s.r_type.0 as u32) << 24 | (s.r_length as u32) << 28 | (s.r_pcrel as u32) << 30 | 1 << 31,
        "scattered relocation: packed word is the one the format defines");
    let j = r.scattered_info(e);
    ensure!(j.r_address == s.r_address && j.r_type == s.r_type && j.r_length == s.r_length
        && j.r_pcrel == s.r_pcrel && j.r_value == s.r_value, "scattered relocation round trip");
    let c = macho::CpuType(any());
    ensure!(r.r_scattered(e, c) == (c != macho::CPU_TYPE_X86_64), "a scattered relocation is recognised, except on x86-64");
    let q = macho::Relocation { r_word0: object::U32::new(e, any()), r_word1: object::U32::new(e, any()) };
    ensure!(q.r_scattered(e, c) == (c != macho::CPU_TYPE_X86_64 && q.r_word0.get(e) >> 31 == 1), "scattered flag is the top bit");
}

harnesses! {
    fn elf_file_flags() {
        use elf::FileFlags as F;
        masked!(F, u32, mips_abi, with_mips_abi, 0x0000_f000u32, F, "EF_MIPS_ABI");
        masked!(F, u32, mips_arch, with_mips_arch, 0xf000_0000u32, F, "EF_MIPS_ARCH");
        masked!(F, u32, parisc_arch, with_parisc_arch, 0x0000_ffffu32, F, "EF_PARISC_ARCH");
        masked!(F, u32, ppc64_abi, with_ppc64_abi, 3u32, |v: u32| v, "EF_PPC64_ABI");
        masked!(F, u32, arm_eabi, with_arm_eabi, 0xff00_0000u32, F, "EF_ARM_EABIMASK");
        masked!(F, u32, avr_arch, with_avr_arch, 0x7fu32, F, "EF_AVR_ARCH");
        masked!(F, u32, sh_mach, with_sh_mach, 0x1fu32, F, "EF_SH_MACH_MASK");
        masked!(F, u32, riscv_float_abi, with_riscv_float_abi, 6u32, F, "EF_RISCV_FLOAT_ABI");
        masked!(F, u32, larch_abi_modifier, with_larch_abi_modifier, 7u32, F, "EF_LARCH_ABI_MODIFIER");
        flag_ops!(F, u32);
        reach!(true, "end");
    }
    fn elf_symbol_fields() {
        use elf::*;
        let w: u8 = any();
        let s = SymbolInfo(w);
        ensure!(s.st_bind().0 == w >> 4 && s.st_type().0 == w & 15, "st_info splits into bind and type");
        let (b, t): (u8, u8) = (any(), any());
        assume(b < 16 && t < 16);
        let n = SymbolInfo::new(SymbolBind(b), SymbolType(t));
        ensure!(n.0 == b << 4 | t && n.st_bind().0 == b && n.st_type().0 == t, "st_info packs bind and type");
        ensure!(SymbolInfo::new(s.st_bind(), s.st_type()).0 == w, "split then pack is the identity");
        let t2: u8 = any();
        ensure!(SymbolInfo::new(SymbolBind(b), SymbolType(t2)).st_bind().0 == b, "type never spills into bind");
        macro_rules! sym { ($s:ty, $z:expr) => {{
            let mut y: $s = $z;
            y.st_info = SymbolInfo(w);
            y.st_other = SymbolOther(w);
            ensure!(y.st_bind().0 == w >> 4 && y.st_type().0 == w & 15 && y.st_visibility().0 == w & 3, "symbol accessors");
            y.set_st_info(SymbolBind(b), SymbolType(t));
            ensure!(y.st_bind().0 == b && y.st_type().0 == t && y.st_other.0 == w, "set_st_info sets bind and type only");
        }} }
        sym!(Sym32<LE>, Sym32 { st_name: Default::default(), st_value: Default::default(), st_size: Default::default(), st_info: SymbolInfo(0), st_other: SymbolOther(0), st_shndx: Default::default() });
        sym!(Sym64<BE>, Sym64 { st_name: Default::default(), st_value: Default::default(), st_size: Default::default(), st_info: SymbolInfo(0), st_other: SymbolOther(0), st_shndx: Default::default() });
        masked!(SymbolOther, u8, visibility, with_visibility, 3u8, SymbolVisibility, "STV");
        let (o, l): (u8, u8) = (any(), any());
        ensure!(SymbolOther(o).ppc64_local() == o >> 5, "STO_PPC64_LOCAL reads exactly its bits");
        assume(l < 8);
        let q = SymbolOther(o).ppc64_with_local(l);
        ensure!(q.0 == o & 0x1f | l << 5 && q.ppc64_local() == l, "STO_PPC64_LOCAL set value, other fields unchanged");
        flag_ops!(elf::SymbolOther, u8);
        reach!(true, "end");
    }
    fn elf_indices() {
        use elf::*;
        let w: u16 = any();
        let s = SymbolSection(w);
        ensure!(s.is_reserved() == (w >= 0xff00), "reserved section index range");
        ensure!(s.is_special() == (w == 0 || w >= 0xff00), "special section indices");
        ensure!(s.index() == if w == 0 || w >= 0xff00 { None } else { Some(w) }, "section index");
        ensure!(s.is_proc() == (w >= 0xff00 && w <= 0xff1f) && s.is_os() == (w >= 0xff20 && w <= 0xff3f), "section index ranges");
        let i: u32 = any();
        let n = SymbolSection::new(i);
        ensure!(n.0 as u32 == if i < 0xff00 { i } else { 0xffff }, "section index constructor");
        ensure!(i == 0 || i >= 0xff00 || n.index() == Some(i as u16), "constructed index reads back");
        ensure!(i < 0xff00 || n == SHN_XINDEX, "large indices use the escape");
        let v = VersymIndex(w);
        ensure!(v.index().0 == w & 0x7fff && v.is_hidden() == (w >> 15 == 1), "version symbol splits");
        ensure!(v.is_local() == (w & 0x7fff == 0) && v.is_global() == (w & 0x7fff == 1), "local/global version");
        let (x, h): (u16, bool) = (any(), any_bool());
        assume(x < 0x8000);
        let y = VersionIndex(x).versym(h);
        ensure!(y.index().0 == x && y.is_hidden() == h, "version symbol packs");
        ensure!(v.index().versym(v.is_hidden()).0 == w, "split then pack is the identity");
        let d: u16 = any();
        match VersionIndex(x).checked_offset(d) {
            Some(z) => {
                ensure!(z.0 as u32 == x as u32 + d as u32 && z.0 < 0x8000, "checked_offset value");
                ensure!(VersionIndex(x).offset(d) == z, "offset value");
                ensure!(z.checked_offset_from(VersionIndex(x)) == Some(d) && z.offset_from(VersionIndex(x)) == d, "offset_from inverts offset");
            }
            None => ensure!(x as u32 + d as u32 >= 0x8000, "checked_offset rejects only overflow"),
        }
        ensure!(VersionIndex(x).is_special() == (x <= 1), "special versions");
        ensure!(SyminfoBoundto(w).is_reserved() == (w >= 0xff00), "syminfo reserved range");
        ensure!(SyminfoBoundto(w).index() == if w >= 0xff00 { None } else { Some(w) }, "syminfo index");
        let f: u64 = any();
        ensure!(SectionFlags(f).os_bits().0 == f & 0x0ff0_0000 && SectionFlags(f).proc_bits().0 == f & 0xf000_0000, "section flag groups");
        flag_ops!(elf::SectionFlags, u64);
        flag_ops!(elf::ProgramFlags, u32);
        flag_ops!(elf::VersymIndex, u16);
        reach!(true, "end");
    }
    fn macho_relocation_le() { mach_reloc(LE); }
    fn macho_relocation_be() { mach_reloc(BE); }
    fn macho_relocation_runtime() { mach_reloc(if any_bool() { object::Endianness::Big } else { object::Endianness::Little }); }
    fn macho_fields() {
        use macho::*;
        let w: u32 = any();
        let c = CpuSubtype(w);
        let v: u32 = any();
        assume(v < 1 << 24);
        ensure!(c.id().0 == w & 0x00ff_ffff, "cpu subtype id");
        let d = c.with_id(CpuSubtypeId(v));
        ensure!(d.id().0 == v && d.0 >> 24 == w >> 24, "cpu subtype id set, capability bits unchanged");
        let f = SectionFlags(w);
        let t: u8 = any();
        ensure!(f.typ().0 == w as u8, "section type");
        let g = f.with_type(SectionType(t));
        ensure!(g.typ().0 == t && g.0 >> 8 == w >> 8, "section type set, attributes unchanged");
        ensure!(SectionType(t).to_flags().0 == t as u32 && SectionFlags::from(SectionType(t)).0 == t as u32 && SectionType::from(f).0 == w as u8, "section type conversions");
        let i = IndirectSymbol(w);
        ensure!(i.is_local() == (w >> 31 == 1) && i.is_abs() == (w >> 30 & 1 == 1), "indirect symbol flags");
        ensure!(i.index() == if w >> 30 == 0 { Some(w) } else { None }, "indirect symbol index");
        let (ma, mi, up): (u16, u8, u8) = (any(), any(), any());
        let x = Version::new(ma, mi, up);
        ensure!(x.major() == ma && x.minor() == mi && x.update() == up && x.0 == (ma as u32) << 16 | (mi as u32) << 8 | up as u32, "version packs and splits");
        ensure!(Version::new(Version(w).major(), Version(w).minor(), Version(w).update()).0 == w, "version split then pack");
        let b: u8 = any();
        let s = SymbolFlags(b);
        ensure!(s.is_stab() == (b & 0xe0 != 0), "stab flag");
        ensure!(s.stab().map(|x| x.0) == if b & 0xe0 != 0 { Some(b) } else { None }, "stab value");
        ensure!(s.typ().0 == b & 0x0e && s.is_ext() == (b & 1 == 1) && s.is_pext() == (b & 0x11 == 0x11), "n_type fields");
        let z = s.with_type(SymbolType(t));
        ensure!(z.0 & 0x0e == t & 0x0e && z.0 & !0x0e == b & !0x0e, "n_type type set, others unchanged");
        let k: u16 = any();
        let n = SymbolDesc(k);
        ensure!(n.reference().0 as u16 == k & 7 && n.library().0 as u16 == k >> 8 && n.common_alignment() as u16 == k >> 8 & 15, "n_desc fields");
        assume(t < 8);
        let y = n.with_reference(SymbolReference(t));
        ensure!(y.reference().0 == t && y.0 & !7 == k & !7, "n_desc reference set, others unchanged");
        let y = n.with_library(SymbolLibrary(b));
        ensure!(y.library().0 == b && y.0 & 0xff == k & 0xff, "n_desc library set, others unchanged");
        let y = n.with_common_alignment(b & 15);
        ensure!(y.common_alignment() == b & 15 && y.0 & 0xf0ff == k & 0xf0ff, "n_desc alignment set, others unchanged");
        let l = SymbolLibrary(b);
        ensure!(l.is_reserved() == (b == 0 || b > 0xfd) && l.index() == if b == 0 || b > 0xfd { None } else { Some(b) }, "library ordinal");
        let q: u64 = any();
        let e = ExportSymbolFlags(q);
        ensure!(e.kind().0 as u64 == q & 3 && e.has_unknown_bits() == (q >> 6 != 0), "export flags");
        let y = e.with_kind(ExportSymbolKind(t & 3));
        ensure!(y.kind().0 == t & 3 && y.0 & !3 == q & !3, "export kind set, others unchanged");
        let o: i32 = any();
        ensure!(BindDylib(o).is_special() == (o <= 0) && BindDylib(o).index() == if o <= 0 { None } else { Some(o as u32) }, "bind dylib ordinal");
        reach!(true, "end");
    }
    fn macho_slide_pointers() { slide_pointers(); }
    fn macho_chained_pointers() { chained_pointers(); }
    fn pe_fields() {
        use pe::*;
        masked!(SectionFlags, u32, align, with_align, 0x00f0_0000u32, SectionFlags, "IMAGE_SCN_ALIGN");
        flag_ops!(pe::SectionFlags, u32);
        let o: i32 = any();
        ensure!(SymbolSection(o).is_reserved() == (o <= 0) && SymbolSection(o).index() == if o > 0 { Some(o as u32) } else { None }, "section number");
        let w: u16 = any();
        ensure!(SymbolType(w).base_type().0 == w & 15 && SymbolType(w).derived_type().0 == w >> 4 & 3, "symbol type splits");
        let (b, d): (u16, u16) = (any(), any());
        assume(b < 16 && d < 4);
        let t = SymbolType::new(SymbolBaseType(b), SymbolDerivedType(d));
        ensure!(t.0 == b | d << 4 && t.base_type().0 == b && t.derived_type().0 == d, "symbol type packs");
        ensure!(SymbolType::from(SymbolBaseType(b)).0 == b && SymbolType::from(SymbolDerivedType(d)).0 == d << 4, "symbol type conversions");
        ensure!(SymbolBaseType::from(SymbolType(w)).0 == w & 15 && SymbolDerivedType::from(SymbolType(w)).0 == w >> 4 & 3, "symbol type conversions back");
        ensure!(RelocationType(w).ppc_type().0 == w & 0xff && RelocationType(w).sh_type().0 == w & 0x7fff, "relocation type subfields");
        let (x, n): (u16, u16) = (any(), any());
        assume(x < 4 && n < 8);
        let f = ImportObjectFlags::new(ImportObjectType(x), ImportObjectNameType(n));
        ensure!(f.0 == x | n << 2 && f.import_type().0 == x && f.name_type().0 == n, "import object flags pack");
        ensure!(ImportObjectFlags(w).import_type().0 == w & 3 && ImportObjectFlags(w).name_type().0 == w >> 2 & 7, "import object flags split");
        ensure!(ImportObjectType::from(ImportObjectFlags(w)).0 == w & 3 && ImportObjectNameType::from(ImportObjectFlags(w)).0 == w >> 2 & 7, "import object flags conversions");
        let g: [u8; 16] = any_array();
        let u = Guid(g);
        ensure!(u.data1().get(LE) == u32::from_le_bytes([g[0], g[1], g[2], g[3]]) && u.data2().get(LE) == u16::from_le_bytes([g[4], g[5]])
            && u.data3().get(LE) == u16::from_le_bytes([g[6], g[7]]), "guid fields");
        let k = any_below(8);
        ensure!(u.data4()[k] == g[8 + k], "guid tail");
        reach!(true, "end");
    }
    fn xcoff_fields() {
        use xcoff::*;
        let w: u32 = any();
        let t: u16 = any();
        let f = SectionFlags(w);
        ensure!(f.typ().0 == w as u16 && f.subtype().0 == w & 0xffff_0000, "section flags split");
        let g = f.with_type(SectionType(t));
        ensure!(g.typ().0 == t && g.0 >> 16 == w >> 16, "section type set, subtype unchanged");
        let v: u32 = any();
        let g = f.with_subtype(SectionFlags(v));
        ensure!(g.subtype().0 == v & 0xffff_0000 && g.0 as u16 == w as u16, "section subtype set, type unchanged");
        let i: i16 = any();
        ensure!(SymbolSection(i).is_reserved() == (i <= 0) && SymbolSection(i).index() == if i > 0 { Some(i as u16) } else { None }, "section number");
        ensure!(SymbolType(t).visibility().0 == t & 0xf000 && SymbolType(t).is_function() == (t & 0x20 != 0), "symbol type fields");
        let b: u8 = any();
        ensure!(CsectAuxSmtyp(b).alignment() == b >> 3 && CsectAuxSmtyp(b).typ().0 == b & 7, "csect type splits");
        let (c, a): (u8, u8) = (any(), any());
        assume(c < 8 && a < 32);
        let s = CsectAuxSmtyp::new(CsectAuxType(c), a);
        ensure!(s.0 == c | a << 3 && s.typ().0 == c && s.alignment() == a, "csect type packs");
        reach!(true, "end");
    }
}

natives! {}
