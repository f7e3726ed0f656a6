//! Archive members and symbols: the exact content.
use crate::shim::*;
use object::archive;
use object::pod::bytes_of;
use object::read::archive::*;

harnesses! {
    /// The layout that the contracts of the Verus job assume for a header that is read.
    [kani::unwind(61)]
    fn header_layout() {
        let h = any_pod!(archive::Header);
        let b = bytes_of(&h);
        ensure!(b.len() == 60, "the size");
        ensure!(b[..16] == h.name && b[16..28] == h.date && b[28..34] == h.uid && b[34..40] == h.gid && b[40..48] == h.mode && b[48..58] == h.size && b[58..] == h.terminator, "the fields of a member header");
    }
    [kani::unwind(113)]
    fn aix_header_layout() {
        let h = any_pod!(archive::AixHeader);
        let b = bytes_of(&h);
        ensure!(b.len() == 112, "the size");
        ensure!(b[..20] == h.size && b[20..40] == h.nxtmem && b[40..60] == h.prvmem && b[60..72] == h.date && b[72..84] == h.uid && b[84..96] == h.gid && b[96..108] == h.mode && b[108..] == h.namlen, "the fields of an AIX member header");
        let o = any_pod!(archive::AixMemberOffset);
        ensure!(bytes_of(&o).len() == 20 && o.0 == *bytes_of(&o), "an entry of the member table");
    }
    [kani::unwind(129)]
    fn aix_file_header_layout() {
        let h = any_pod!(archive::AixFileHeader);
        let b = bytes_of(&h);
        ensure!(b.len() == 128, "the size");
        ensure!(b[..8] == h.magic && b[8..28] == h.memoff && b[28..48] == h.gstoff && b[48..68] == h.gst64off && b[68..88] == h.fstmoff && b[88..108] == h.lstmoff && b[108..] == h.freeoff, "the fields of the AIX file header");
    }
}

#[cfg(not(kani))]
mod low {
    use super::*;
    use crate::craft::*;
    use crate::fuzz::*;
    struct Mem { name: Vec<u8>, data: Vec<u8>, nums: [Option<u64>; 4], at: u64, data_at: u64 }
    fn field(v: Option<u64>, n: usize, radix: u32, ebcdic: bool) -> Vec<u8> {
        let mut s = match v { None => String::new(), Some(v) if radix == 8 => format!("{v:o}"), Some(v) => format!("{v}") }.into_bytes();
        assert!(s.len() <= n);
        s.resize(n, b' ');
        if ebcdic { for c in &mut s { *c = if *c == b' ' { 0x40 } else { *c - b'0' + 0xf0 } } }
        s
    }
    fn number(digits: u32, radix: u64) -> Option<u64> {
        if uni(8) == 0 { return None }
        let max = radix.pow(digits) - 1;
        Some(match uni(3) { 0 => max, 1 => uni(max + 1), _ => uni(10) })
    }
    fn head(w: &mut W, name: &[u8], nums: &[Option<u64>; 4], size: u64, ebcdic: bool) {
        let mut n = name.to_vec();
        assert!(n.len() <= 16);
        n.resize(16, if ebcdic { 0x40 } else { b' ' });
        w.bytes(&n);
        w.bytes(&field(nums[0], 12, 10, ebcdic)).bytes(&field(nums[1], 6, 10, ebcdic)).bytes(&field(nums[2], 6, 10, ebcdic)).bytes(&field(nums[3], 8, 8, ebcdic));
        w.bytes(&field(Some(size), 10, 10, ebcdic));
        w.bytes(if ebcdic { &[0x79, 0x15] } else { b"`\n" });
    }
    fn pad(w: &mut W) { if w.b.len() & 1 == 1 { w.u8(b'\n'); } }
    fn name(max: u64, slash: bool) -> Vec<u8> {
        let n = 1 + uni(max) as usize;
        (0..n).map(|i| loop {
            let c = match uni(4) { 0 => uni(256) as u8, 1 => b'0' + uni(10) as u8, _ => b'a' + uni(26) as u8 };
            // a name does not end a field, and does not look like another kind of name
            if c == 0 || c == b'\n' || c == b' ' || c == 0x40 || (c == b'/' && (!slash || i == 0 || i + 1 == n)) || (i == 0 && (c == b'#' || c == b'_' || c == 0x7b || c == 0x6d)) { continue }
            return c;
        }).collect()
    }
    /// As above, for a call in a closure.
    fn content() -> Vec<u8> { (0..uni(20)).map(|_| match uni(4) { 0 => b'\n', 1 => b'`', _ => uni(256) as u8 }).collect() }
    fn check(d: &'static [u8], kind: ArchiveKind, thin: bool, ms: &[Mem], syms: Option<&[(Vec<u8>, usize)]>) {
        let a = match ArchiveFile::parse(d) { Ok(a) => a, Err(_) => { ensure!(false, "a well-formed archive is accepted"); return } };
        ensure!(a.kind() == kind && a.is_thin() == thin, "the kind");
        let same = |m: &ArchiveMember, x: &Mem| {
            ensure!(m.name() == &x.name[..], "the name");
            ensure!([m.date(), m.uid(), m.gid(), m.mode()] == x.nums, "the fields");
            ensure!(m.size() == x.data.len() as u64, "the size");
            ensure!(m.is_thin() == thin, "thin");
            let r = m.data(d);
            ensure!(r.is_ok(), "data");
            if thin { ensure!(m.file_range() == (0, x.data.len() as u64) && r.unwrap().is_empty(), "no data") }
            else { ensure!(m.file_range() == (x.data_at, x.data.len() as u64) && r.unwrap() == &x.data[..], "the data") }
            match kind { ArchiveKind::AixBig => ensure!(m.aix_header().is_some() && m.header().is_none(), "the header"), ArchiveKind::Zos => ensure!(m.aix_header().is_none() && m.header().is_none(), "the header"), _ => ensure!(m.header().is_some_and(|h| is_at(bytes_of(h), d, x.at as usize, 60)), "the header") }
        };
        let mut it = a.members();
        for x in ms {
            match it.next() { Some(Ok(m)) => same(&m, x), _ => ensure!(false, "every member") }
            match a.member(ArchiveOffset(x.at)) { Ok(m) => same(&m, x), _ => ensure!(false, "the member at an offset") }
        }
        ensure!(it.next().is_none(), "the end");
        if kind != ArchiveKind::AixBig {
            ensure!(a.member(ArchiveOffset(0)).is_err() && a.member(ArchiveOffset(d.len() as u64)).is_err(), "no member there");
            ensure!(a.member(ArchiveOffset(8)).is_err() == ms.first().map_or(true, |m| m.at != 8), "special members are not members");
        }
        match (a.symbols(), syms) {
            (Ok(None), None) => {}
            (Ok(Some(s)), Some(l)) => {
                let l = if kind == ArchiveKind::AixBig || kind == ArchiveKind::Zos { &[] } else { l };
                ensure!(s.size_hint() == if l.is_empty() && s.size_hint().1.is_none() { (0, None) } else { (l.len(), Some(l.len())) }, "the number of symbols");
                let v: Vec<_> = s.collect();
                ensure!(v.len() == l.len(), "the number of symbols");
                for (g, x) in v.iter().zip(l) {
                    match g { Ok(g) => ensure!(x.1 < ms.len() && g.name() == &x.0[..] && g.offset().0 == ms[x.1].at, "the symbol"), Err(_) => ensure!(x.1 >= ms.len(), "the symbol") }
                }
            }
            _ => ensure!(false, "whether there are symbols"),
        }
    }
    fn symbols(n: usize, any: bool) -> Vec<(Vec<u8>, usize)> {
        if n == 0 { return vec![] }
        (0..uni(if any { 5 } else { 1 })).map(|_| (name(12, true), uni(n as u64) as usize)).collect()
    }
    fn members(names: impl Fn() -> Vec<u8>) -> Vec<Mem> {
        (0..uni(5)).map(|_| Mem { name: names(), data: content(), nums: [number(12, 10), number(6, 10), number(6, 10), number(8, 8)], at: 0, data_at: 0 }).collect()
    }
    /// GNU, GNU 64-bit, COFF, with names in a table; thin.
    fn gnu() {
        let kind = uni(4);
        let thin = kind != 2 && uni(3) == 0;
        let mut ms = members(|| if uni(2) == 0 { name(15, false) } else { name(40, true) });
        let table = ms.iter().any(|m| m.name.len() > 15 || m.name.contains(&b'/')) || uni(3) == 0;
        let with_syms = kind != 3;
        let mut syms = symbols(ms.len(), true);
        // a member index that is none
        if kind == 2 { for s in &mut syms { if uni(8) == 0 { s.1 = if uni(2) == 0 { 0xffff } else { ms.len() } } } }
        // names table: a long name or a short one
        let mut names = W::new(false, false);
        let mut fields = vec![];
        if table && uni(2) == 0 { names.bytes(if kind == 2 { b"x\0" } else { b"unused/\n" }); }
        for m in &ms {
            if table && (m.name.len() > 15 || m.name.contains(&b'/') || uni(3) == 0) {
                fields.push(format!("/{}", names.b.len()).into_bytes());
                names.bytes(&m.name);
                names.bytes(if kind == 2 { b"\0" } else { b"/\n" });
            } else {
                let mut n = m.name.clone();
                if n.len() < 16 { n.push(b'/'); }
                fields.push(n);
            }
        }
        let blank = [None; 4];
        let ec = kind == 2 && uni(2) == 0;
        let mut at = vec![0u64; ms.len()];
        let mut out = vec![];
        // the offsets in the symbol table do not change its size
        for round in 0..2 {
            let mut w = W::new(true, false);
            w.bytes(if thin { &archive::THIN_MAGIC } else { &archive::MAGIC });
            if with_syms {
                let mut t = W::new(true, false);
                if kind == 1 { t.u64(syms.len() as u64); for s in &syms { t.u64(at[s.1]); } } else { t.u32(syms.len() as u32); for s in &syms { t.u32(at.get(s.1).map_or(0, |x| *x as u32)); } }
                for s in &syms { t.bytes(&s.0).u8(0); }
                head(&mut w, if kind == 1 { b"/SYM64/" } else { b"/" }, &blank, t.b.len() as u64, false);
                w.bytes(&t.b); pad(&mut w);
                if kind == 2 {
                    let mut t = W::new(false, false);
                    t.u32(ms.len() as u32);
                    for a in &at { t.u32(*a as u32); }
                    t.u32(syms.len() as u32);
                    for s in &syms { t.u16((s.1 as u16).wrapping_add(1)); }
                    for s in &syms { t.bytes(&s.0).u8(0); }
                    head(&mut w, b"/", &blank, t.b.len() as u64, false);
                    w.bytes(&t.b); pad(&mut w);
                }
            }
            if table { head(&mut w, b"//", &blank, names.b.len() as u64, false); w.bytes(&names.b); pad(&mut w); }
            if ec { head(&mut w, b"/<ECSYMBOLS>/", &blank, 5, false); w.bytes(b"\0\0\0\0x"); pad(&mut w); }
            for (i, m) in ms.iter_mut().enumerate() {
                m.at = w.b.len() as u64; at[i] = m.at;
                head(&mut w, &fields[i], &m.nums, m.data.len() as u64, false);
                m.data_at = w.b.len() as u64;
                if !thin { w.bytes(&m.data); pad(&mut w); }
            }
            if round == 1 { out = w.b; }
        }
        let k = match kind { 0 => ArchiveKind::Gnu, 1 => ArchiveKind::Gnu64, 2 => ArchiveKind::Coff, _ => if table { ArchiveKind::Gnu } else { ArchiveKind::Unknown } };
        check(settle(out), k, thin, &ms, if with_syms { Some(&syms) } else { None });
    }
    /// BSD and BSD 64-bit, with names in front of the contents.
    fn bsd() {
        let kind = uni(3);
        let mut ms = members(|| if uni(2) == 0 { name(16, false) } else { name(40, true) });
        let syms = symbols(ms.len(), true);
        let long: Vec<Option<usize>> = ms.iter().map(|m| if m.name.len() > 16 || m.name.contains(&b'/') || uni(3) == 0 { Some(m.name.len() + uni(4) as usize) } else { None }).collect();
        let symdef: &[u8] = match (kind, uni(2)) { (0, 0) => b"__.SYMDEF", (0, _) => b"__.SYMDEF SORTED", (_, 0) => b"__.SYMDEF_64", _ => b"__.SYMDEF_64 SORTED" };
        let inline = symdef.len() > 9 && (symdef.len() > 12 || uni(2) == 0) || uni(2) == 0;
        let slack = uni(3) as u32;
        let order: Vec<usize> = { let mut v: Vec<usize> = (0..syms.len()).collect(); if uni(2) == 0 { v.reverse(); } v };
        let mut at = vec![0u64; ms.len()];
        let mut out = vec![];
        for round in 0..2 {
            let mut w = W::new(false, false);
            w.bytes(&archive::MAGIC);
            if kind != 2 {
                let mut names = W::new(false, false);
                let mut pos = vec![0; syms.len()];
                for &i in &order { pos[i] = names.b.len() as u64; names.bytes(&syms[i].0).u8(0); }
                for _ in 0..slack { names.u8(0); }
                let mut t = W::new(false, false);
                if kind == 0 {
                    t.u32(8 * syms.len() as u32);
                    for (i, s) in syms.iter().enumerate() { t.u32(pos[i] as u32).u32(at[s.1] as u32); }
                    t.u32(names.b.len() as u32);
                } else {
                    t.u64(16 * syms.len() as u64);
                    for (i, s) in syms.iter().enumerate() { t.u64(pos[i]).u64(at[s.1]); }
                    t.u64(names.b.len() as u64);
                }
                t.bytes(&names.b);
                if inline { head(&mut w, format!("#1/{}", symdef.len() + 4).as_bytes(), &[None; 4], t.b.len() as u64 + symdef.len() as u64 + 4, false); w.bytes(symdef).u32(0); }
                else { head(&mut w, symdef, &[None; 4], t.b.len() as u64, false); }
                w.bytes(&t.b); pad(&mut w);
            }
            for (i, m) in ms.iter_mut().enumerate() {
                m.at = w.b.len() as u64; at[i] = m.at;
                match long[i] {
                    None => head(&mut w, &m.name, &m.nums, m.data.len() as u64, false),
                    Some(n) => { head(&mut w, format!("#1/{n}").as_bytes(), &m.nums, (m.data.len() + n) as u64, false); w.bytes(&m.name); for _ in m.name.len()..n { w.u8(0); } }
                }
                m.data_at = w.b.len() as u64;
                w.bytes(&m.data); pad(&mut w);
            }
            if round == 1 { out = w.b; }
        }
        check(settle(out), match kind { 0 => ArchiveKind::Bsd, 1 => ArchiveKind::Bsd64, _ => ArchiveKind::Unknown }, false, &ms, if kind < 2 { Some(&syms) } else { None });
    }
    fn zos() {
        let mut ms = members(|| name(16, false));
        let long: Vec<Option<usize>> = ms.iter().map(|m| if uni(3) == 0 { Some(m.name.len() + uni(4) as usize) } else { None }).collect();
        let mut w = W::new(true, false);
        w.bytes(&archive::ZOS_MAGIC);
        let syms = uni(2) == 0;
        if syms { let c = [content(), vec![1]].concat(); head(&mut w, &[0x6D, 0x6D, 0x4B, 0xE2, 0xE8, 0xD4, 0xC4, 0xC5, 0xC6], &[None; 4], c.len() as u64, true); w.bytes(&c); pad(&mut w); }
        for (i, m) in ms.iter_mut().enumerate() {
            m.at = w.b.len() as u64;
            match long[i] {
                None => head(&mut w, &m.name, &m.nums, m.data.len() as u64, true),
                Some(n) => {
                    let f = [&[0x7b, 0xf1, 0x61][..], &field(Some(n as u64), 4, 10, true)].concat();
                    head(&mut w, &f, &m.nums, (m.data.len() + n) as u64, true); w.bytes(&m.name); for _ in m.name.len()..n { w.u8(0); }
                }
            }
            m.data_at = w.b.len() as u64;
            w.bytes(&m.data); pad(&mut w);
        }
        check(settle(w.b), ArchiveKind::Zos, false, &ms, if syms { Some(&[]) } else { None });
    }
    fn aix() {
        let mut ms = members(|| name(30, true));
        for m in &mut ms { m.nums = [number(12, 10), number(12, 10), number(12, 10), number(12, 8)]; if uni(8) == 0 { m.name.clear(); } }
        let (mut memoff, mut gst, mut gst64) = (0u64, 0u64, 0u64);
        let mut w = W::new(true, false);
        for _ in 0..128 { w.u8(0); }
        fn put(w: &mut W, name: &[u8], nums: &[Option<u64>; 4], data: &[u8]) -> (u64, u64) {
            for _ in 0..2 * uni(3) { w.u8(0); }
            let at = w.b.len() as u64;
            w.bytes(&field(Some(data.len() as u64), 20, 10, false)).bytes(&field(Some(uni(100)), 20, 10, false)).bytes(&field(Some(0), 20, 10, false));
            w.bytes(&field(nums[0], 12, 10, false)).bytes(&field(nums[1], 12, 10, false)).bytes(&field(nums[2], 12, 10, false)).bytes(&field(nums[3], 12, 8, false));
            w.bytes(&field(Some(name.len() as u64), 4, 10, false)).bytes(name);
            if w.b.len() & 1 == 1 { w.u8(0); }
            w.bytes(b"`\n");
            let x = w.b.len() as u64;
            w.bytes(data); pad(w);
            (at, x)
        }
        // members are where the table says, in any order
        let mut order: Vec<usize> = (0..ms.len()).collect();
        if uni(2) == 0 { order.reverse(); }
        for i in order { let (a, x) = put(&mut w, &ms[i].name, &ms[i].nums, &ms[i].data); ms[i].at = a; ms[i].data_at = x; }
        if !ms.is_empty() || uni(2) == 0 {
            let mut t = field(Some(ms.len() as u64), 20, 10, false);
            for m in &ms { t.extend(field(Some(m.at), 20, 10, false)); }
            for m in &ms { t.extend(&m.name); t.push(0); }
            memoff = put(&mut w, b"", &[Some(0); 4], &t).0;
        }
        if uni(2) == 0 { gst = put(&mut w, b"", &[Some(0); 4], b"symbols").0; }
        if uni(2) == 0 { gst64 = put(&mut w, b"", &[Some(0); 4], b"symbols").0; }
        let mut h = W::new(true, false);
        h.bytes(&archive::AIX_BIG_MAGIC);
        for v in [memoff, gst, gst64, 0, 0, 0] { h.bytes(&field(Some(v), 20, 10, false)); }
        w.b[..128].copy_from_slice(&h.b);
        check(settle(w.b), ArchiveKind::AixBig, false, &ms, if gst != 0 || gst64 != 0 { Some(&[]) } else { None });
    }
    pub fn exact() { match uni(6) { 0..=1 => gnu(), 2..=3 => bsd(), 4 => zos(), _ => aix() } }
}
natives! {
    /// Archives of every kind with random members; the exact names, fields, bytes and symbols.
    fn exact() { low::exact() }
}
