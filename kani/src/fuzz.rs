//! Damaged object files, and a reader that asks everything (native stand-ins).
#![cfg(not(kani))]
use crate::shim::*;
use object::read::*;

#[track_caller]
pub fn okb<E>(r: core::result::Result<&[u8], E>, d: &[u8]) {
    if let Ok(b) = r { ensure!(inside(b, d), "the result is made of bytes of the file") }
}
#[track_caller]
pub fn oko<E>(r: core::result::Result<Option<&[u8]>, E>, d: &[u8]) {
    if let Ok(Some(b)) = r { ensure!(inside(b, d), "the result is made of bytes of the file") }
}
/// A value of the kind that breaks readers.
pub fn value(cur: u64, n: usize, d: &[u8], big: bool) -> u64 {
    match uni(14) {
        0 | 1 => uni(10),
        2 => cur.wrapping_add(1 + uni(8)),
        3 => cur.wrapping_sub(1 + uni(8)),
        4 => (d.len() as u64).wrapping_sub(uni(24)),
        5 => d.len() as u64 + uni(8),
        6 => 1u64 << uni(8 * n as u64),
        7 => (1u64 << uni(8 * n as u64)).wrapping_sub(1 + uni(4)),
        8 => u64::MAX - uni(9),
        9 => (u64::MAX >> (64 - 8 * n as u32)).wrapping_sub(uni(1 + d.len() as u64)),
        10 => uni(d.len() as u64 + 1),
        11 => cur ^ 1 << uni(8 * n as u64),
        12 => uni(u64::MAX),
        _ => {
            // a word from elsewhere in the file
            if d.len() < n { return 0 }
            let p = uni((d.len() - n) as u64 / 2 + 1) as usize * 2;
            load(&d[p..p + n], big)
        }
    }
}
pub fn load(b: &[u8], big: bool) -> u64 {
    let mut v = 0;
    for i in 0..b.len() { v = v << 8 | b[if big { i } else { b.len() - 1 - i }] as u64; }
    v
}
pub fn store(b: &mut [u8], v: u64, big: bool) {
    let n = b.len();
    for i in 0..n { b[if big { n - 1 - i } else { i }] = (v >> (8 * i)) as u8; }
}
/// Overwrite a few fields, or cut the file.
pub fn damage(d: &mut Vec<u8>, big: bool) {
    let k = match uni(8) { 0 => return, 1..=3 => 1, 4 | 5 => 2, 6 => 3, _ => 1 + uni(8) };
    for _ in 0..k {
        if d.is_empty() { return }
        if uni(24) == 0 { let n = uni(d.len() as u64 + 1) as usize; d.truncate(n); continue }
        let n = [1, 2, 2, 4, 4, 4, 4, 8][uni(8) as usize].min(d.len());
        let mut p = uni((d.len() - n) as u64 + 1) as usize;
        if uni(8) != 0 { p &= !(n.min(4) - 1); }
        if n == 1 && uni(4) == 0 { d[p] ^= 1 << uni(8); continue }
        let v = value(load(&d[p..p + n], big), n, d, big);
        store(&mut d[p..p + n], v, big);
    }
}
/// The file in memory of its own, 8-aligned, so that nothing follows its last byte by accident.
pub fn settle(d: Vec<u8>) -> &'static [u8] {
    thread_local!(static ARENA: core::cell::RefCell<Vec<u64>> = const { core::cell::RefCell::new(Vec::new()) });
    // reused between runs: a run does not keep its file
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        let n = d.len().div_ceil(8) + 1;
        if a.len() < n { a.resize(n.max(1 << 14), 0) }
        let p = a.as_mut_ptr() as *mut u8;
        unsafe {
            core::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
            core::slice::from_raw_parts(p, d.len())
        }
    })
}

fn symbol<'d, S: ObjectSymbol<'d>>(s: &S, d: &[u8]) {
    okb(s.name_bytes(), d);
    if let Ok(n) = s.name() { ensure!(inside(n.as_bytes(), d), "the name is made of bytes of the file") }
    let _ = (s.index(), s.address(), s.size(), s.kind(), s.section(), s.section_index(), s.is_undefined(), s.is_definition(),
        s.is_common(), s.is_weak(), s.scope(), s.is_global(), s.is_local());
    let _ = s.flags();
}
fn relocation(r: &Relocation) {
    let _ = (r.kind(), r.encoding(), r.size(), r.target(), r.addend(), r.has_implicit_addend(), r.flags());
}
/// Ask everything the unified interface offers.
pub fn unified<'d, O: Object<'d>>(o: &O, d: &'d [u8]) {
    let _ = (o.architecture(), o.sub_architecture(), o.endianness(), o.is_little_endian(), o.is_64(), o.kind(), o.entry(), o.relative_address_base(), o.has_debug_symbols());
    let _ = (o.flags(), o.mach_uuid());
    oko(o.build_id(), d);
    if let Ok(Some((n, _))) = o.gnu_debuglink() { ensure!(inside(n, d), "debug link") }
    if let Ok(Some((n, i))) = o.gnu_debugaltlink() { ensure!(inside(n, d) && inside(i, d), "alternate debug link") }
    if let Ok(Some(c)) = o.pdb_info() { ensure!(inside(c.path(), d), "PDB path"); let _ = (c.guid(), c.age()); }
    for s in o.segments().take(2000) {
        let (a, n) = (s.address(), s.size());
        let _ = (s.align(), s.file_range(), s.flags(), s.permissions(), s.name());
        okb(s.data(), d);
        oko(s.data_range(a, n), d);
        oko(s.data_range(a.wrapping_add(1), n.wrapping_sub(1)), d);
        oko(s.data_range(value(a, 8, d, false), value(n, 8, d, false)), d);
        if let Ok(Some(n)) = s.name_bytes() { ensure!(inside(n, d), "segment name") }
    }
    let mut nsec = 0;
    for s in o.sections().take(2000) {
        nsec += 1;
        let (a, n) = (s.address(), s.size());
        let _ = (s.align(), s.file_range(), s.kind(), s.flags(), s.name(), s.segment_name());
        okb(s.data(), d);
        oko(s.data_range(a, n), d);
        oko(s.data_range(value(a, 8, d, false), value(n, 8, d, false)), d);
        okb(s.name_bytes(), d);
        if let Ok(Some(n)) = s.segment_name_bytes() { ensure!(inside(n, d), "segment name") }
        let _ = s.compressed_file_range();
        if let Ok(c) = s.compressed_data() { ensure!(inside(c.data, d), "compressed data"); if c.uncompressed_size < 1 << 20 { let _ = c.decompress(); } }
        for (_, r) in s.relocations().take(3000) { relocation(&r) }
        if nsec < 50 { if let Ok(m) = s.relocation_map() { let _ = m.relocate(a, 1); } }
        let i = s.index();
        if let Ok(t) = o.section_by_index(i) { let _ = (t.address(), t.index()); }
        if nsec < 8 { if let Ok(n) = s.name_bytes() { let _ = o.section_by_name_bytes(n).map(|s| s.index()); } }
    }
    let _ = o.section_by_name(".debug_info").map(|s| s.index());
    let _ = o.section_by_name(".debug_loc").map(|s| s.index());
    for i in [0, 1, nsec, nsec + 1, usize::MAX, value(nsec as u64, 4, d, false) as usize] {
        if let Ok(s) = o.section_by_index(SectionIndex(i)) { let _ = (s.name_bytes(), s.file_range()); }
    }
    for c in o.comdats().take(2000) {
        let _ = (c.kind(), c.symbol(), c.name());
        okb(c.name_bytes(), d);
        let _ = c.sections().take(3000).count();
    }
    let mut nsym = 0;
    for s in o.symbols().take(3000) { nsym += 1; symbol(&s, d); }
    for s in o.dynamic_symbols().take(3000) { symbol(&s, d); }
    for t in [o.symbol_table(), o.dynamic_symbol_table()].into_iter().flatten() {
        for i in [0, nsym, nsym + 1, usize::MAX, value(nsym as u64, 4, d, false) as usize] {
            if let Ok(s) = t.symbol_by_index(SymbolIndex(i)) { symbol(&s, d) }
        }
        let _ = t.symbols().take(3000).count();
    }
    for i in [0, 1, nsym, nsym + 1, usize::MAX, value(nsym as u64, 4, d, false) as usize] {
        if let Ok(s) = o.symbol_by_index(SymbolIndex(i)) { symbol(&s, d) }
    }
    let _ = o.symbol_by_name("nothing").map(|s| s.index());
    if let Some(it) = o.dynamic_relocations() { for (_, r) in it.take(3000) { relocation(&r) } }
    let m = o.symbol_map();
    for e in m.symbols().iter().take(20) { let _ = m.containing(e.address()).map(|s| s.name()); }
    let m = o.object_map();
    for e in m.symbols().iter().take(20) { let _ = (e.object(&m), m.get(e.address()).map(|s| s.size())); }
    if let Ok(it) = o.import_libraries() { for l in it.take(3000) { if let Ok(l) = l { ensure!(inside(l.name(), d), "library name") } } }
    if let Ok(it) = o.imports() { for i in it.take(3000) { if let Ok(i) = i {
        ensure!(inside(i.library(), d), "library name");
        if let NameOrOrdinal::Name(n) = i.name() { ensure!(inside(n, d), "import name") }
    } } }
    if let Ok(it) = o.exports() { for e in it.take(3000) { if let Ok(e) = e {
        if let NameOrOrdinal::Name(std::borrow::Cow::Borrowed(n)) = e.clone().into_name() { ensure!(inside(n, d), "export name") }
        let _ = e.target();
    } } }
}
/// The same through `File`, whatever kind the bytes claim to be.
pub fn any_file(d: &[u8]) {
    let _ = FileKind::parse(d);
    if let Ok(f) = File::parse(d) { unified(&f, d) }
}
