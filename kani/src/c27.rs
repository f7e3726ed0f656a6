//! The editable ELF file: what it holds, and what becomes of it when it is written and read.
use crate::shim::*;
#[allow(unused_imports)]
use object::{build::elf as b, build::Item as _, elf as x, Endianness};

#[allow(dead_code)]
fn any_endian2() -> Endianness { if any_bool() { Endianness::Little } else { Endianness::Big } }

harnesses! {
    /// What a segment contains, for any segment and position.
    fn segment_contains() {
        let mut s = b::Builder::new(any_endian2(), any_bool());
        let g = s.segments.add();
        g.p_offset = any(); g.p_filesz = any(); g.p_vaddr = any(); g.p_memsz = any();
        let (o, n, a, m) = (g.p_offset as u128, g.p_filesz as u128, g.p_vaddr as u128, g.p_memsz as u128);
        let at: u64 = any();
        ensure!(g.contains_offset(at) == (at as u128 >= o && (at as u128) < o + n), "a segment contains its file range");
        ensure!(g.contains_address(at) == (at as u128 >= a && (at as u128) < a + m), "a segment contains its address range");
        ensure!(g.address_from_offset(at) == (a as u64).wrapping_add(at.wrapping_sub(o as u64)), "positions and addresses differ by the same amount");
        ensure!(g.is_load() == (g.p_type == x::PT_LOAD), "a segment is loaded by its type");
        reach!(g.contains_offset(at) && !g.contains_address(at), "both answers");
    }
}
natives! {
    /// Random files through the builder, the reader, and the builder again, with and without edits.
    fn rebuild() { low::rebuild() }
    /// Segments of random sections in any order, built by appending and by recalculating.
    fn ranges() { low::ranges() }
    /// A file without sections.
    fn bare() { low::bare() }
    /// A damaged file is refused, or all that it names is there.
    fn damaged() { low::damaged() }
    /// A little-endian 64-bit MIPS file with relocations without addends.
    fn mips_rel() { low::mips_rel() }
}
#[cfg(not(kani))]
mod low {
    use super::*;
    use object::read::elf::{FileHeader, SectionHeader as _};
    use std::collections::BTreeMap;
    use b::{Dynamic, SectionData as D, VersionData};

    fn word(n: u64) -> Vec<u8> { (0..n).map(|_| b'a' + uni(6) as u8).collect() }
    fn fresh(seen: &mut Vec<Vec<u8>>) -> Vec<u8> { loop { let n = word(1 + uni(7)); if !seen.contains(&n) { seen.push(n.clone()); return n } } }
    fn bytes(n: u64) -> Vec<u8> { (0..n).map(|_| any()).collect() }
    fn t(v: &[u8]) -> String { String::from_utf8_lossy(v).into_owned() }
    fn fit(is64: bool) -> u64 { let v = any::<u64>() >> uni(64); if is64 { v } else { v & 0xffff_ffff } }

    /// Everything in a file, by name: section, segment, symbol, relocation, dynamic entry, version.
    type View = BTreeMap<String, String>;
    fn view(f: &b::Builder<'_>) -> View {
        let mut v = View::new();
        let mut put = |k: String, s: String| { let mut k = k; while v.contains_key(&k) { k.push('\'') } v.insert(k, s); };
        put("header".into(), format!("{:?} {} {:?} {:?} {:?} {} {} {:x} {:?}", f.header.os_abi, f.header.abi_version, f.header.e_type, f.header.e_machine, f.endian, f.is_64, f.header.e_phoff * (f.segments.count() as u64).min(1), f.header.e_entry, f.header.e_flags));
        let sec = |id: b::SectionId| t(&f.sections.get(id).name);
        let ver = |id: b::VersionId| if id.is_special() { format!("{id:?}") } else { match &f.versions.get(id).data { VersionData::Def(d) => format!("def {}", d.names.first().map_or(String::new(), |n| t(n))), VersionData::Need(n) => format!("need {} {}", t(&f.version_files.get(n.file).name), t(&n.name)) } };
        for s in &f.sections {
            let auto = !matches!(s.data, D::Data(_) | D::UninitializedData(_) | D::Relocation(_) | D::DynamicRelocation(_) | D::Note(_) | D::Dynamic(_) | D::Attributes(_));
            let own = if auto { String::new() } else { format!("{:x} link {:?} info {:?} {:x} align {:x} ent {:x}", s.sh_flags.0, s.sh_link_section.map(sec), s.sh_info_section.map(sec), if s.sh_info_section.is_some() { 0 } else { s.sh_info }, s.sh_addralign, s.sh_entsize) };
            let place = if s.is_alloc() { format!("{:x} {}", s.sh_addr, if f.segments.count() == 0 { 0 } else { s.sh_offset }) } else { String::new() };
            let data = match &s.data {
                D::Data(d) => format!("data {:?}", d.as_slice()),
                D::UninitializedData(n) => format!("bss {n}"),
                D::Note(d) => format!("note {:?}", d.as_slice()),
                D::Relocation(l) => { for (i, r) in l.iter().enumerate() { put(format!("rel {} {} {i:04}", t(&s.name), r.symbol.map_or(String::new(), |q| t(&f.symbols.get(q).name))), format!("{:x} {} {}", r.r_offset, r.r_type.0, r.r_addend)) } "rel".into() }
                D::DynamicRelocation(l) => { for (i, r) in l.iter().enumerate() { put(format!("drel {} {} {i:04}", t(&s.name), r.symbol.map_or(String::new(), |q| t(&f.dynamic_symbols.get(q).name))), format!("{:x} {} {}", r.r_offset, r.r_type.0, r.r_addend)) } "drel".into() }
                D::Dynamic(l) => format!("dynamic {:?}", l.iter().map(|d| match d { Dynamic::Auto { tag } => format!("auto {}", tag.0), Dynamic::Integer { tag, val } => format!("{} {val}", tag.0), Dynamic::String { tag, val } => format!("{} {}", tag.0, t(val)), _ => String::new() }).collect::<Vec<_>>()),
                D::Attributes(a) => format!("attributes {:?}", a.subsections.iter().map(|q| (t(&q.vendor), q.subsubsections.iter().map(|p| (match &p.scope { b::AttributeScope::File => String::new(), b::AttributeScope::Section(l) => format!("sections {:?}", l.iter().map(|i| sec(*i)).collect::<Vec<_>>()), b::AttributeScope::Symbol(l) => format!("symbols {:?}", l.iter().map(|i| t(&f.symbols.get(*i).name)).collect::<Vec<_>>()), _ => String::new() }, p.data.as_slice().to_vec())).collect::<Vec<_>>())).collect::<Vec<_>>()),
                D::SectionString => "shstrtab".into(), D::Symbol => "symtab".into(), D::SymbolSectionIndex => "shndx".into(), D::String => "strtab".into(),
                D::DynamicSymbol => "dynsym".into(), D::DynamicString => "dynstr".into(),
                D::Hash => format!("hash {}", f.hash_bucket_count),
                D::GnuHash => format!("gnu {} {} {}", f.gnu_hash_bloom_shift, f.gnu_hash_bloom_count, f.gnu_hash_bucket_count),
                D::GnuVersym => "versym".into(), D::GnuVerdef => "verdef".into(), D::GnuVerneed => "verneed".into(),
                _ => "other".into(),
            };
            put(format!("section {}", t(&s.name)), format!("{:?} {own} {place} {data}", s.sh_type));
        }
        for (i, g) in f.segments.iter().enumerate() {
            put(format!("segment {i}"), format!("{:?} {:?} {:x} {:x} {:x} {:x} {:x} {:x} {:?}", g.p_type, g.p_flags, g.p_offset, g.p_vaddr, g.p_paddr, g.p_filesz, g.p_memsz, g.p_align, { let mut l: Vec<_> = g.sections.iter().filter(|i| f.sections.get(**i).sh_size != 0).map(|i| sec(*i)).collect(); l.sort(); l }));
        }
        for s in &f.symbols { put(format!("symbol {}", t(&s.name)), format!("{:?} {:?} {:?} {:?} {:x} {:x}", s.section.map(sec), s.st_info, s.st_other, if s.section.is_some() { x::SHN_UNDEF } else { s.st_shndx }, s.st_value, s.st_size)) }
        for s in &f.dynamic_symbols { put(format!("dynsym {}", t(&s.name)), format!("{:?} {:?} {:?} {:?} {:x} {:x} {} {}", s.section.map(sec), s.st_info, s.st_other, if s.section.is_some() { x::SHN_UNDEF } else { s.st_shndx }, s.st_value, s.st_size, ver(s.version), s.version_hidden)) }
        if let Some(n) = &f.version_base { put("base".into(), t(n)) }
        for q in &f.versions { match &q.data { VersionData::Def(d) => put(format!("version {}", ver(q.id())), format!("{:?} {:?}", d.flags, d.names.iter().map(|n| t(n)).collect::<Vec<_>>())), VersionData::Need(n) => put(format!("version {}", ver(q.id())), format!("{:?}", n.flags)) } }
        v
    }
    fn same(a: &View, c: &View, why: &str) -> bool {
        for (k, v) in a { if c.get(k) != Some(v) { eprintln!("{why}: {k}: {v} became {:?}", c.get(k)); return false } }
        for k in c.keys() { if !a.contains_key(k) { eprintln!("{why}: {k} appeared: {}", c[k]); return false } }
        true
    }

    struct Made { f: b::Builder<'static>, unused: Vec<String>, gone: bool }
    fn make() -> Made {
        let is64 = uni(2) == 0;
        let e = if uni(2) == 0 { Endianness::Little } else { Endianness::Big };
        let mut f = b::Builder::new(e, is64);
        let word_size = if is64 { 8 } else { 4 };
        f.header.os_abi = x::OsAbi(any()); f.header.abi_version = any();
        f.header.e_machine = [x::EM_X86_64, x::EM_386, x::EM_ARM, x::EM_AARCH64, x::EM_MIPS, x::EM_RISCV][uni(6) as usize];
        f.header.e_flags = x::FileFlags(any()); f.header.e_entry = fit(is64);
        let dynamic = uni(2) == 0;
        // Relocations without addends of little-endian 64-bit MIPS are the subject of `mips_rel`.
        let swapped = is64 && matches!(e, Endianness::Little) && f.header.e_machine == x::EM_MIPS;
        f.header.e_type = if dynamic { x::ET_DYN } else { x::ET_REL };
        let mut names: Vec<Vec<u8>> = vec![];
        let mut sections: Vec<(b::SectionId, u64)> = vec![];
        // Plain sections.
        for _ in 0..1 + uni(4) {
            let mut n = fresh(&mut names); n.insert(0, b'.');
            let (size, kind) = (1 + uni(60), uni(4));
            let s = f.sections.add();
            s.name = n.into();
            s.sh_addralign = if uni(6) == 0 { 0 } else { 1 << uni(6) }; s.sh_entsize = fit(is64); s.sh_info = any();
            s.sh_flags = x::SectionFlags(if dynamic { 2 | uni(2) * 4 | uni(2) } else { uni(8) });
            match kind {
                0 if !dynamic => { s.sh_type = x::SHT_NOBITS; s.data = D::UninitializedData(size); }
                1 => { s.sh_type = x::SHT_NOTE; s.data = D::Note(bytes(size).into()); }
                2 => { s.sh_type = x::SHT_INIT_ARRAY; s.data = D::Data(bytes(size).into()); }
                _ => { s.sh_type = x::SHT_PROGBITS; s.data = D::Data(bytes(size).into()); }
            }
            if !dynamic { s.sh_addr = if s.is_alloc() { fit(is64) } else { 0 }; }
            sections.push((s.id(), size));
        }
        let plain: Vec<b::SectionId> = sections.iter().map(|s| s.0).collect();
        let add = |f: &mut b::Builder<'static>, n: &'static [u8], ty: x::SectionType, flags: u64, align: u64, data: D<'static>| { let s = f.sections.add(); s.name = n.into(); s.sh_type = ty; s.sh_flags = x::SectionFlags(flags); s.sh_addralign = align; s.data = data; s.id() };
        // Symbols.
        let mut syms: Vec<b::SymbolId> = vec![];
        let mut seen: Vec<Vec<u8>> = vec![];
        let symtab = uni(4) > 0;
        let mut symtab_id = None;
        if symtab {
            let strtab = add(&mut f, b".strtab", x::SHT_STRTAB, 0, 1, D::String);
            let st = add(&mut f, b".symtab", x::SHT_SYMTAB, 0, word_size, D::Symbol);
            f.sections.get_mut(st).sh_link_section = Some(strtab);
            if uni(4) == 0 { add(&mut f, b".symtab_shndx", x::SHT_SYMTAB_SHNDX, 0, 4, D::SymbolSectionIndex); }
            symtab_id = Some(st);
            for _ in 0..uni(7) {
                let n = fresh(&mut seen);
                let s = f.symbols.add();
                s.name = n.into(); s.st_info = x::SymbolInfo(any()); s.st_other = x::SymbolOther(any()); s.st_value = fit(is64); s.st_size = fit(is64);
                if uni(3) > 0 { s.section = Some(plain[uni(plain.len() as u64) as usize]); } else { s.st_shndx = [x::SHN_UNDEF, x::SHN_ABS, x::SHN_COMMON][uni(3) as usize]; }
                syms.push(s.id());
            }
            if !dynamic {
                for _ in 0..uni(3) {
                    let rela = swapped || uni(2) == 0;
                    let target = plain[uni(plain.len() as u64) as usize];
                    let list: Vec<b::Relocation> = (0..uni(6)).map(|_| b::Relocation { r_offset: fit(is64), symbol: if syms.is_empty() || uni(4) == 0 { None } else { Some(syms[uni(syms.len() as u64) as usize]) }, r_type: x::RelocationType(any::<u8>() as u32), r_addend: if !rela { 0 } else if is64 { any() } else { any::<i32>() as i64 } }).collect();
                    let mut n = fresh(&mut names); n.splice(0..0, *b".rel");
                    let s = f.sections.add();
                    s.name = n.into(); s.sh_type = if rela { x::SHT_RELA } else { x::SHT_REL }; s.sh_link_section = Some(st); s.sh_addralign = word_size;
                    if uni(2) == 0 { s.sh_info_section = Some(target); s.sh_flags = x::SectionFlags(x::SHF_INFO_LINK.0 as u64 | if uni(2) == 0 { (1 + uni(0x7f)) << 20 } else { 0 }); }
                    s.sh_entsize = match (rela, is64) { (true, true) => 24, (true, false) => 12, (false, true) => 16, _ => 8 };
                    s.data = D::Relocation(list);
                }
            }
        }
        if !dynamic && uni(3) == 0 {
            let list = (0..1 + uni(3)).map(|_| b::AttributesSubsection { vendor: word(1 + uni(4)).into(), subsubsections: (0..uni(3)).map(|_| b::AttributesSubsubsection { scope: match uni(3) { 0 => b::AttributeScope::File, 1 => b::AttributeScope::Section(plain.iter().copied().filter(|_| uni(2) == 0).collect()), _ => b::AttributeScope::Symbol(syms.iter().copied().filter(|_| uni(2) == 0).collect()) }, data: bytes(uni(9)).into() }).collect() }).collect();
            add(&mut f, b".gnu.attributes", x::SHT_GNU_ATTRIBUTES, 0, 1, D::Attributes(b::AttributesSection { subsections: list }));
        }
        let _ = symtab_id;
        add(&mut f, b".shstrtab", x::SHT_STRTAB, 0, 1, D::SectionString);
        let mut unused = vec![];
        if dynamic {
            let mut alloc = plain.clone();
            let dynstr = add(&mut f, b".dynstr", x::SHT_STRTAB, 2, 1, D::DynamicString);
            let dynsym = add(&mut f, b".dynsym", x::SHT_DYNSYM, 2, word_size, D::DynamicSymbol);
            alloc.extend([dynstr, dynsym]);
            let mut tags: Vec<Dynamic<'static>> = vec![];
            if uni(2) == 0 { f.hash_bucket_count = 1 + uni(5) as u32; alloc.push(add(&mut f, b".hash", x::SHT_HASH, 2, 4, D::Hash)); tags.push(Dynamic::Auto { tag: x::DT_HASH }); }
            if uni(2) == 0 { f.gnu_hash_bloom_count = 1 << uni(3); f.gnu_hash_bloom_shift = uni(32) as u32; f.gnu_hash_bucket_count = 1 + uni(5) as u32; alloc.push(add(&mut f, b".gnu.hash", x::SHT_GNU_HASH, 2, word_size, D::GnuHash)); tags.push(Dynamic::Auto { tag: x::DT_GNU_HASH }); }
            // Versions.
            let mut versions: Vec<(b::VersionId, String)> = vec![];
            let mut vn: Vec<Vec<u8>> = vec![];
            if uni(2) == 0 {
                alloc.push(add(&mut f, b".gnu.version", x::SHT_GNU_VERSYM, 2, 2, D::GnuVersym)); tags.push(Dynamic::Auto { tag: x::DT_VERSYM });
                if uni(3) > 0 {
                    f.version_base = Some(fresh(&mut vn).into());
                    alloc.push(add(&mut f, b".gnu.version_d", x::SHT_GNU_VERDEF, 2, 4, D::GnuVerdef)); tags.push(Dynamic::Auto { tag: x::DT_VERDEF }); tags.push(Dynamic::Auto { tag: x::DT_VERDEFNUM });
                    for k in 0..uni(4) {
                        let names: Vec<Vec<u8>> = (0..1 + uni(3)).map(|_| fresh(&mut vn)).collect();
                        let n = format!("def {}", t(&names[0]));
                        let _ = k;
                        let id = f.versions.add(VersionData::Def(b::VersionDef { names: names.into_iter().map(|n| n.into()).collect(), flags: x::VersionFlags(uni(4) as u16 * 2) }));
                        versions.push((id, n));
                    }
                }
                if uni(3) > 0 {
                    alloc.push(add(&mut f, b".gnu.version_r", x::SHT_GNU_VERNEED, 2, 4, D::GnuVerneed)); tags.push(Dynamic::Auto { tag: x::DT_VERNEED }); tags.push(Dynamic::Auto { tag: x::DT_VERNEEDNUM });
                    // An empty section is in no segment.
                    for _ in 0..1 + uni(2) {
                        let file = fresh(&mut vn);
                        let fid = f.version_files.add(file.clone().into());
                        for _ in 0..1 + uni(3) {
                            let n = fresh(&mut vn);
                            let k = format!("need {} {}", t(&file), t(&n));
                            let id = f.versions.add(VersionData::Need(b::VersionNeed { file: fid, name: n.into(), flags: x::VersionFlags(uni(4) as u16 * 2) }));
                            versions.push((id, k));
                        }
                    }
                }
            }
            let mut used: Vec<b::VersionId> = vec![];
            let mut dsyms = vec![];
            for _ in 0..uni(9) {
                let n = fresh(&mut seen);
                let v = if f.sections.iter().any(|s| matches!(s.data, D::GnuVersym)) { match uni(3) { 0 => b::VersionId::global(), _ if !versions.is_empty() => versions[uni(versions.len() as u64) as usize].0, _ => b::VersionId::local() } } else { b::VersionId::local() };
                used.push(v);
                let hidden = v != b::VersionId::local() && uni(3) == 0;
                let s = f.dynamic_symbols.add();
                s.name = n.into(); s.st_other = x::SymbolOther(any()); s.st_value = fit(is64); s.st_size = fit(is64);
                s.st_info = x::SymbolInfo(any::<u8>() & 15 | [0u8, 16, 16, 32][uni(4) as usize]);
                s.version = v; s.version_hidden = hidden;
                if uni(3) > 0 { s.section = Some(plain[uni(plain.len() as u64) as usize]); } else { s.st_shndx = [x::SHN_UNDEF, x::SHN_ABS][uni(2) as usize]; }
                dsyms.push(s.id());
            }
            for (id, n) in &versions { if !used.contains(id) { unused.push(format!("version {n}")) } }
            if uni(2) == 0 {
                let rela = swapped || uni(2) == 0;
                let list: Vec<b::DynamicRelocation> = (0..1 + uni(6)).map(|_| b::DynamicRelocation { r_offset: fit(is64), symbol: if dsyms.is_empty() || uni(4) == 0 { None } else { Some(dsyms[uni(dsyms.len() as u64) as usize]) }, r_type: x::RelocationType(any::<u8>() as u32), r_addend: if !rela { 0 } else if is64 { any() } else { any::<i32>() as i64 } }).collect();
                let id = add(&mut f, b".rel.dyn", if rela { x::SHT_RELA } else { x::SHT_REL }, 2, word_size, D::DynamicRelocation(list));
                f.sections.get_mut(id).sh_link_section = Some(dynsym);
                f.sections.get_mut(id).sh_entsize = match (rela, is64) { (true, true) => 24, (true, false) => 12, (false, true) => 16, _ => 8 };
                alloc.push(id);
            }
            tags.extend([Dynamic::Auto { tag: x::DT_STRTAB }, Dynamic::Auto { tag: x::DT_SYMTAB }, Dynamic::Auto { tag: x::DT_STRSZ }]);
            for _ in 0..uni(4) { tags.push(match uni(3) { 0 => Dynamic::String { tag: x::DT_NEEDED, val: word(1 + uni(7)).into() }, 1 => Dynamic::String { tag: x::DT_SONAME, val: word(1 + uni(7)).into() }, _ => Dynamic::Integer { tag: x::DT_FLAGS, val: fit(is64) } }) }
            let mut dynid = None;
            if uni(3) > 0 {
                let id = add(&mut f, b".dynamic", x::SHT_DYNAMIC, 3, word_size, D::Dynamic(tags));
                f.sections.get_mut(id).sh_link_section = Some(dynstr);
                f.sections.get_mut(id).sh_entsize = 2 * word_size;
                alloc.push(id); dynid = Some(id);
            }
            let bss = if uni(2) == 0 { let n = 1 + uni(5000); let id = add(&mut f, b".bss", x::SHT_NOBITS, 3, 1 << uni(6), D::UninitializedData(n)); Some(id) } else { None };
            // The layout.
            for i in (1..alloc.len()).rev() { alloc.swap(i, uni(i as u64 + 1) as usize) }
            alloc.extend(bss);
            f.delete_unused_versions();
            f.set_section_sizes();
            f.header.e_phoff = if is64 { 64 } else { 52 };
            let s = f.segments.add();
            s.p_type = x::PT_LOAD; s.p_flags = x::ProgramFlags(any()); s.p_filesz = 0x1000; s.p_memsz = 0x1000; s.p_align = 0x1000;
            let base = uni(16) * 0x1000;
            s.p_vaddr = base; s.p_paddr = base;
            for id in &alloc { s.append_section(f.sections.get_mut(*id)); }
            if let Some(id) = dynid { let s = f.segments.add(); s.p_type = x::PT_DYNAMIC; s.p_flags = x::ProgramFlags(any()); s.p_align = word_size; s.append_section(f.sections.get_mut(id)); }
            if uni(3) == 0 { let s = f.segments.add(); s.p_type = x::PT_GNU_STACK; s.p_flags = x::ProgramFlags(any()); s.p_align = fit(is64); s.p_paddr = fit(is64); }
        }
        let gone = uni(3) == 0;
        Made { f, unused, gone }
    }
    fn emit(f: b::Builder<'_>) -> Option<&'static [u8]> {
        let mut out = vec![];
        match f.write(&mut out) { Ok(()) => Some(crate::fuzz::settle(out)), Err(e) => { eprintln!("{e}"); None } }
    }
    /// What readers say that the builder does not: hash tables, versions and positions that are computed.
    fn check<H: FileHeader<Endian = Endianness>>(d: &'static [u8], f: &b::Builder<'_>) {
        let h = H::parse(d).unwrap();
        let e = h.endian().unwrap();
        let secs = match h.sections(e, d) { Ok(s) => s, Err(_) => { ensure!(false, "written sections are read"); return } };
        for (i, s) in secs.enumerate() {
            let n = secs.section_name(e, s).unwrap();
            let Some(m) = f.sections.iter().find(|m| m.name.as_slice() == n) else { ensure!(i.0 == 0, "a written section is one of the builder's"); continue };
            match &m.data {
                D::Data(v) | D::Note(v) => ensure!(s.data(e, d) == Ok(v.as_slice()), "a section's data is written"),
                D::UninitializedData(v) => ensure!(s.sh_size(e).into() == *v, "an uninitialized section's size is written"),
                _ => {}
            }
            if s.sh_flags(e).contains(x::SHF_ALLOC) { ensure!(s.sh_addr(e).into() == m.sh_addr, "a section's address is written") }
            if s.sh_flags(e).contains(x::SHF_ALLOC) && f.segments.count() != 0 { ensure!(s.sh_offset(e).into() == m.sh_offset && s.sh_size(e).into() == m.sh_size, "a loaded section stays where it is") }
        }
        let ds = match secs.symbols(e, d, x::SHT_DYNSYM) { Ok(s) => s, Err(_) => { ensure!(false, "written dynamic symbols are read"); return } };
        let versions = match secs.versions(e, d) { Ok(v) => v, Err(_) => { ensure!(false, "written versions are read"); return } };
        let gnu = secs.gnu_hash(e, d).unwrap();
        let sysv = secs.hash(e, d).unwrap();
        for (i, y) in ds.enumerate().skip(1) {
            let n = ds.symbol_name(e, y).unwrap();
            let Some(m) = f.dynamic_symbols.iter().find(|m| m.name.as_slice() == n) else { ensure!(false, "a written symbol is one of the builder's"); return };
            let found = |ix: Option<object::SymbolIndex>| ix == Some(i);
            let undefined = y.st_shndx(e) == x::SHN_UNDEF;
            use object::read::elf::Sym as _;
            if let Some((g, _)) = &gnu { if !undefined && m.st_bind() != x::STB_LOCAL { ensure!(found(g.find(e, n, x::gnu_hash(n), None, &ds, &object::read::elf::VersionTable::default()).map(|q| q.0)), "a defined symbol is in the GNU hash table") } }
            if let Some((g, _)) = &sysv { if !undefined { ensure!(found(g.find(e, n, x::hash(n), None, &ds, &object::read::elf::VersionTable::default()).map(|q| q.0)), "a defined symbol is in the hash table") } }
            if let Some(vt) = &versions {
                let vi = vt.version_index(e, i);
                ensure!(vi.is_hidden() == m.version_hidden, "a symbol's version is hidden as it was");
                let got = vt.version(vi.index()).ok().flatten().map(|q| (q.name().to_vec(), q.file().map(|z| z.to_vec())));
                let want = if m.version.is_special() { None } else { match &f.versions.get(m.version).data { VersionData::Def(q) => Some((q.names[0].as_slice().to_vec(), None)), VersionData::Need(q) => Some((q.name.as_slice().to_vec(), Some(f.version_files.get(q.file).name.as_slice().to_vec()))) } };
                // The base version is reported by its name.
                if want.is_some() || m.version == b::VersionId::local() { ensure!(got == want, "a symbol's version is read back") }
            }
        }
        for s in secs.iter() {
            if let Ok(Some(dt)) = s.dynamic_table(e, d, &secs) {
                for q in &dt {
                    let by = |k: fn(&D<'_>) -> bool| f.sections.iter().find(|s| k(&s.data)).map(|s| (s.sh_addr, s.sh_size));
                    let want = match q.tag {
                        x::DT_SYMTAB => by(|k| matches!(k, D::DynamicSymbol)).map(|v| v.0), x::DT_STRTAB => by(|k| matches!(k, D::DynamicString)).map(|v| v.0), x::DT_STRSZ => by(|k| matches!(k, D::DynamicString)).map(|v| v.1),
                        x::DT_HASH => by(|k| matches!(k, D::Hash)).map(|v| v.0), x::DT_GNU_HASH => by(|k| matches!(k, D::GnuHash)).map(|v| v.0),
                        x::DT_VERSYM => by(|k| matches!(k, D::GnuVersym)).map(|v| v.0), x::DT_VERDEF => by(|k| matches!(k, D::GnuVerdef)).map(|v| v.0), x::DT_VERNEED => by(|k| matches!(k, D::GnuVerneed)).map(|v| v.0),
                        x::DT_VERDEFNUM => Some(f.version_base.is_some() as u64 + f.versions.iter().filter(|v| matches!(v.data, VersionData::Def(_))).count() as u64),
                        x::DT_VERNEEDNUM => Some(f.version_files.count() as u64),
                        _ => Some(q.val),
                    };
                    ensure!(want == Some(q.val), "a computed dynamic entry has its value");
                }
            }
        }
    }
    pub(super) fn rebuild() {
        let Made { f, unused, gone } = make();
        let mut want = view(&f);
        for n in &unused { want.remove(n); }
        let is64 = f.is_64;
        let Some(first) = emit(f) else { ensure!(false, "a consistent file is written"); return };
        let r = match b::Builder::read(first) { Ok(r) => r, Err(e) => { eprintln!("{e}"); ensure!(false, "a written file is read"); return } };
        let seen = view(&r);
        ensure!(same(&want, &seen, "writing"), "a written file reads back as it was built");
        if is64 { check::<x::FileHeader64<Endianness>>(first, &r) } else { check::<x::FileHeader32<Endianness>>(first, &r) }
        let Some(second) = emit(r) else { ensure!(false, "a file that was read is written"); return };
        let r2 = match b::Builder::read(second) { Ok(r) => r, Err(_) => { ensure!(false, "a rewritten file is read"); return } };
        ensure!(same(&seen, &view(&r2), "rewriting"), "a file that is not edited reads back the same");
        if is64 { check::<x::FileHeader64<Endianness>>(second, &r2) } else { check::<x::FileHeader32<Endianness>>(second, &r2) }
        // An edit.
        let mut r = r2;
        let mut want = seen;
        match uni(5) {
            0 => { r.header.e_entry ^= 1; let v = view(&r); want.insert("header".into(), v["header"].clone()); }
            1 => {
                let ids: Vec<_> = r.symbols.iter().map(|s| s.id()).collect();
                if ids.is_empty() { return }
                let id = ids[uni(ids.len() as u64) as usize];
                forget(second, &mut want, None, &[id]);
                let y = r.symbols.get_mut(id);
                y.delete = true;
                let n = t(&y.name);
                want.remove(&format!("symbol {n}"));
                let mid = format!(" {n} ");
                want = want.into_iter().filter(|(k, _)| !(k.starts_with("rel ") && k.contains(&mid))).collect();
                return again(r, renumber(want), is64);
            }
            2 => {
                let ids: Vec<_> = r.symbols.iter().map(|s| s.id()).collect();
                if ids.is_empty() { return }
                let id = ids[uni(ids.len() as u64) as usize];
                let y = r.symbols.get_mut(id);
                if y.section.is_some() && uni(2) == 0 { y.st_value = y.st_value.wrapping_add(1) & if is64 { !0 } else { 0xffff_ffff } } else { y.st_size ^= 1 }
                let k = format!("symbol {}", t(&y.name));
                want.insert(k.clone(), view(&r)[&k].clone());
            }
            3 => {
                let Some(s) = r.sections.iter_mut().find(|s| matches!(s.data, D::Data(_)) && s.sh_type == x::SHT_PROGBITS) else { return };
                let D::Data(v) = &mut s.data else { return };
                v.to_mut()[0] ^= 0x55;
                let k = format!("section {}", t(&s.name));
                want.insert(k.clone(), view(&r)[&k].clone());
            }
            _ => {
                if !gone || r.segments.count() != 0 { return }
                // A section that nothing but its symbols names.
                let Some(s) = r.sections.iter().find(|s| matches!(s.data, D::Data(_) | D::Note(_) | D::UninitializedData(_)) && !r.sections.iter().any(|q| q.sh_info_section == Some(s.id()) || q.sh_link_section == Some(s.id()))) else { return };
                let (id, n) = (s.id(), t(&s.name));
                want.remove(&format!("section {n}"));
                let dead: Vec<String> = r.symbols.iter().filter(|y| y.section == Some(id)).map(|y| t(&y.name)).collect();
                for y in &dead { want.remove(&format!("symbol {y}")); let mid = format!(" {y} "); want = want.into_iter().filter(|(k, _)| !(k.starts_with("rel ") && k.contains(&mid))).collect(); }
                forget(second, &mut want, Some(id), &r.symbols.iter().filter(|y| y.section == Some(id)).map(|y| y.id()).collect::<Vec<_>>());
                r.sections.get_mut(id).delete = true;
                return again(r, renumber(want), is64);
            }
        }
        again(r, want, is64)
    }
    /// The attributes of a file without those that name a section or symbols.
    fn forget(d: &'static [u8], want: &mut View, section: Option<b::SectionId>, symbols: &[b::SymbolId]) {
        let Ok(mut q) = b::Builder::read(d) else { return };
        for s in q.sections.iter_mut() {
            if let D::Attributes(a) = &mut s.data {
                for u in a.subsections.iter_mut().flat_map(|u| u.subsubsections.iter_mut()) {
                    match &mut u.scope {
                        b::AttributeScope::Section(l) => l.retain(|i| Some(*i) != section),
                        b::AttributeScope::Symbol(l) => l.retain(|i| !symbols.contains(i)),
                        _ => {}
                    }
                }
            }
        }
        let v = view(&q);
        for s in q.sections.iter() {
            let k = format!("section {}", t(&s.name));
            if let (D::Attributes(_), Some(x)) = (&s.data, v.get(&k)) { want.insert(k, x.clone()); }
        }
    }
    pub(super) fn bare() {
        let is64 = any_bool();
        let mut f = b::Builder::new(any_endian2(), is64);
        f.header.os_abi = x::OsAbi(any()); f.header.abi_version = any(); f.header.e_type = x::FileType(any()); f.header.e_machine = x::Machine(any()); f.header.e_entry = fit(is64); f.header.e_flags = x::FileFlags(any());
        f.header.e_phoff = if is64 { 64 } else { 52 };
        for _ in 0..uni(3) {
            let g = f.segments.add();
            g.p_type = x::ProgramType(any()); g.p_flags = x::ProgramFlags(any()); g.p_offset = fit(is64); g.p_vaddr = fit(is64); g.p_paddr = fit(is64); g.p_filesz = 0; g.p_memsz = fit(is64); g.p_align = fit(is64);
        }
        let want = view(&f);
        let Some(d) = emit(f) else { ensure!(false, "a file without sections is written"); return };
        let r = match b::Builder::read(d) { Ok(r) => r, Err(e) => { eprintln!("{e}"); ensure!(false, "a file without sections is read"); return } };
        ensure!(same(&want, &view(&r), "bare"), "a file without sections reads back as it was built");
        again(r, want, is64)
    }
    pub(super) fn damaged() {
        let Made { f, .. } = make();
        let Some(first) = emit(f) else { return };
        let mut d = first.to_vec();
        let n = d.len() as u64;
        for _ in 0..1 + uni(4) {
            let at = match uni(3) { 0 => uni(64), 1 => n - 1 - uni(n.min(700)), _ => uni(n) } as usize;
            if at >= d.len() { continue }
            d[at] = match uni(4) { 0 => any(), 1 => d[at].wrapping_add(1), 2 => d[at].wrapping_sub(1), _ => [0, 1, 2, 0x7f, 0x80, 0xff][uni(6) as usize] };
        }
        if uni(8) == 0 { d.truncate(uni(n) as usize) }
        let d: &'static [u8] = crate::fuzz::settle(d);
        let Ok(r) = b::Builder::read(d) else { return };
        // Everything that is named is there.
        let _ = view(&r);
        reach!(true, "the case is reached");
    }
    pub(super) fn ranges() {
        let mut f = b::Builder::new(any_endian2(), any_bool());
        let n = uni(6) as usize;
        let ids: Vec<_> = (0..n).map(|_| {
            let c = f.sections.add();
            c.sh_type = if uni(3) == 0 { x::SHT_NOBITS } else { x::SHT_PROGBITS };
            c.sh_offset = any::<u64>() >> (4 + uni(60)); c.sh_addr = any::<u64>() >> (4 + uni(60)); c.sh_size = any::<u64>() >> (4 + uni(60)); c.sh_addralign = 1 << uni(20);
            c.id()
        }).collect();
        let bits = |c: &b::Section<'_>| if c.sh_type == x::SHT_NOBITS { 0 } else { c.sh_size };
        let has = |g: &b::Segment<'_>, c: &b::Section<'_>| c.sh_size == 0 || ((bits(c) == 0 || g.p_offset <= c.sh_offset && c.sh_offset + bits(c) <= g.p_offset + g.p_filesz) && g.p_vaddr <= c.sh_addr && c.sh_addr + c.sh_size <= g.p_vaddr + g.p_memsz);
        let load = uni(2) == 0;
        if load {
            // Placed by the segment: one after the other.
            let g = f.segments.add();
            g.p_type = x::PT_LOAD; g.p_offset = uni(1 << 40); g.p_vaddr = uni(1 << 40); g.p_paddr = g.p_vaddr;
            g.p_filesz = 1 + uni(1 << 20); g.p_memsz = g.p_filesz;
            for id in &ids {
                let c = f.sections.get_mut(*id);
                c.sh_type = x::SHT_PROGBITS; c.sh_size >>= 8;
                let before = (g.p_offset + g.p_filesz, g.p_paddr + g.p_memsz, c.sh_size, c.sh_addralign);
                // Both ranges have to be padded alike.
                if (g.p_offset ^ g.p_paddr) & (c.sh_addralign - 1) != 0 { c.sh_addralign = 1 }
                let a = c.sh_addralign;
                g.append_section(c);
                ensure!(c.sh_offset % a == 0 && c.sh_offset >= before.0 && c.sh_offset - before.0 < a, "a section is at the next aligned position");
                ensure!(c.sh_addr % a == 0 && c.sh_addr >= before.1 && c.sh_addr - before.1 < a, "a section is at the next aligned address");
                ensure!(c.sh_size == before.2, "a placed section keeps its size");
                ensure!(g.p_offset + g.p_filesz == c.sh_offset + c.sh_size && g.p_vaddr + g.p_memsz == c.sh_addr + c.sh_size, "a segment ends with its last section");
            }
            ensure!(g.sections == ids, "a segment has its sections in order");
        } else {
            let g = f.segments.add();
            g.p_offset = any(); g.p_filesz = any(); g.p_vaddr = any(); g.p_memsz = any();
            g.sections = ids.clone();
            g.recalculate_ranges(&f.sections);
            ensure!(g.sections == ids, "recalculating keeps the sections");
            let live: Vec<_> = ids.iter().map(|i| f.sections.get(*i)).filter(|c| c.sh_size != 0).collect();
            let data: Vec<_> = live.iter().filter(|c| bits(c) != 0).collect();
            if n == 0 { ensure!(g.p_memsz == 0 && g.p_filesz == 0, "a segment without sections is empty") }
            if live.len() == n && n > 0 {
                ensure!(g.p_vaddr == live.iter().map(|c| c.sh_addr).min().unwrap() && g.p_vaddr + g.p_memsz == live.iter().map(|c| c.sh_addr + c.sh_size).max().unwrap(), "a segment is as long as its sections");
                ensure!(g.p_offset == live.iter().map(|c| c.sh_offset).min().unwrap(), "a segment starts with its first section");
                if data.len() == n { ensure!(g.p_offset + g.p_filesz == live.iter().map(|c| c.sh_offset + c.sh_size).max().unwrap(), "a segment's data is as long as its sections") }
            }
        }
        let c = f.sections.add();
        c.sh_flags = x::SectionFlags(any());
        let v = c.sh_flags.0;
        ensure!(c.is_alloc() == (v & 2 != 0), "a section is allocated by its flag");
        ensure!(c.p_flags().0 == 4 | if v & 1 != 0 { 2 } else { 0 } | if v & 4 != 0 { 1 } else { 0 }, "segment flags follow section flags");
        let g = f.segments.iter().next().unwrap();
        for id in &ids { ensure!(has(g, f.sections.get(*id)), "a segment has all of its sections") }
        let at: u64 = if uni(2) == 0 { any() } else { [g.p_offset, g.p_vaddr][uni(2) as usize].wrapping_add([0, g.p_filesz, g.p_memsz][uni(3) as usize]).wrapping_add(uni(3)).wrapping_sub(1) };
        ensure!(g.contains_offset(at) == (at as u128 >= g.p_offset as u128 && (at as u128) < g.p_offset as u128 + g.p_filesz as u128), "a segment contains its file range");
        ensure!(g.contains_address(at) == (at as u128 >= g.p_vaddr as u128 && (at as u128) < g.p_vaddr as u128 + g.p_memsz as u128), "a segment contains its address range");
        ensure!(g.address_from_offset(at) == g.p_vaddr.wrapping_add(at.wrapping_sub(g.p_offset)), "positions and addresses differ by the same amount");
        ensure!(f.segments.find_load_segment_from_offset(at).is_some() == (load && g.contains_offset(at)), "a loaded segment is found by its range");
        let end = (g.p_offset.wrapping_add(g.p_filesz), g.p_vaddr.wrapping_add(g.p_memsz));
        let align = 1u64 << uni(16);
        let g = f.segments.add_load_segment(x::PF_R, align);
        ensure!(g.p_offset == end.0 && g.p_vaddr >= end.1 && (g.p_vaddr ^ g.p_offset) & (align - 1) == 0 && g.p_paddr == g.p_vaddr && g.p_align == align && g.p_type == x::PT_LOAD && g.p_vaddr - end.1 < 2 * align, "a new segment follows the others");
    }
    pub(super) fn mips_rel() {
        let mut f = b::Builder::new(Endianness::Little, true);
        f.header.e_machine = x::EM_MIPS; f.header.e_type = x::ET_REL;
        let s = f.sections.add();
        s.name = b".strtab"[..].into(); s.sh_type = x::SHT_STRTAB; s.data = D::String;
        let strtab = s.id();
        let s = f.sections.add();
        s.name = b".symtab"[..].into(); s.sh_type = x::SHT_SYMTAB; s.sh_addralign = 8; s.sh_link_section = Some(strtab); s.data = D::Symbol;
        let symtab = s.id();
        let s = f.symbols.add();
        s.name = b"a"[..].into();
        let sym = s.id();
        let s = f.sections.add();
        s.name = b".rel"[..].into(); s.sh_type = x::SHT_REL; s.sh_link_section = Some(symtab); s.sh_addralign = 8; s.sh_entsize = 16;
        s.data = D::Relocation(vec![b::Relocation { r_offset: 8, symbol: Some(sym), r_type: x::RelocationType(1 + uni(200) as u32), r_addend: 0 }]);
        let s = f.sections.add();
        s.name = b".shstrtab"[..].into(); s.sh_type = x::SHT_STRTAB; s.data = D::SectionString;
        let want = view(&f);
        let Some(d) = emit(f) else { ensure!(false, "a file with relocations is written"); return };
        let r = b::Builder::read(d);
        ensure!(r.is_ok() && same(&want, &view(&r.unwrap()), "writing"), "relocations without addends of little-endian 64-bit MIPS read back as they were built");
    }
    /// Relocations that are left keep their order and close the gaps.
    fn renumber(v: View) -> View {
        let mut lists: BTreeMap<String, Vec<(String, String, String)>> = BTreeMap::new();
        let mut out = View::new();
        for (k, s) in v {
            if k.starts_with("rel ") { let p: Vec<&str> = k.split(' ').collect(); lists.entry(p[1].into()).or_default().push((p[3].into(), p[2].into(), s)); } else { out.insert(k, s); }
        }
        for (n, mut l) in lists { l.sort(); for (i, (_, y, s)) in l.into_iter().enumerate() { out.insert(format!("rel {n} {y} {i:04}"), s); } }
        out
    }
    fn again(r: b::Builder<'static>, want: View, is64: bool) {
        let Some(d) = emit(r) else { ensure!(false, "an edited file is written"); return };
        let r = match b::Builder::read(d) { Ok(r) => r, Err(_) => { ensure!(false, "an edited file is read"); return } };
        ensure!(same(&want, &view(&r), "editing"), "an edit changes what it names and nothing else");
        if is64 { check::<x::FileHeader64<Endianness>>(d, &r) } else { check::<x::FileHeader32<Endianness>>(d, &r) }
    }
}
