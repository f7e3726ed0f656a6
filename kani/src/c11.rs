//! ELF symbol hashes and hash tables.
use crate::shim::*;
use object::elf;
use object::read::elf::{GnuHashTable, HashTable};
use object::Endianness;

fn val(b: &[u8], at: usize, e: Endianness) -> u32 {
    let a = [b[at], b[at + 1], b[at + 2], b[at + 3]];
    if e == Endianness::Big { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) }
}
type F32 = elf::FileHeader32<Endianness>;
type F64 = elf::FileHeader64<Endianness>;

macro_rules! sysv { ($t:ty) => {{
    let d = any_bytes::<96>();
    let e = any_endian();
    let r = HashTable::<$t>::parse(e, d);
    let fits = d.len() >= 8 && 8 + 4 * (val(d, 0, e) as u64 + val(d, 4, e) as u64) <= d.len() as u64;
    ensure!(r.is_ok() == fits, "a table parses exactly when buckets and chains fit");
    if let Ok(t) = r {
        reach!(val(d, 4, e) > 1000, "long chains");
        ensure!(t.symbol_table_length() == val(d, 4, e), "one chain entry per symbol");
    }
}}}
macro_rules! gnu { ($t:ty, $w:expr) => {{
    let d = any_bytes::<96>();
    let e = any_endian();
    let r = GnuHashTable::<$t>::parse(e, d);
    let fits = d.len() >= 16 && 16 + $w * val(d, 8, e) as u64 + 4 * val(d, 0, e) as u64 <= d.len() as u64;
    ensure!(r.is_ok() == fits, "a table parses exactly when filter and buckets fit");
    if let Ok(t) = r {
        reach!(val(d, 8, e) > 1000, "a large filter");
        ensure!(t.symbol_base() == val(d, 4, e), "the first hashed symbol");
    }
}}}

harnesses! {
    /// Every byte string of any length, both byte orders.
    fn sysv_parse32() { sysv!(F32) }
    fn sysv_parse64() { sysv!(F64) }
    fn gnu_parse32() { gnu!(F32, 4) }
    fn gnu_parse64() { gnu!(F64, 8) }
}

#[cfg(not(kani))]
mod tab {
    use super::*;
    use crate::craft::*;
    use object::read::elf::{FileHeader, Sym, Version, VersionTable};
    use object::read::SymbolIndex;

    /// The hash functions as the ABI prints them.
    pub fn abi_sysv(n: &[u8]) -> u32 {
        let mut h: u32 = 0;
        for &c in n {
            h = (h << 4).wrapping_add(c as u32);
            let g = h & 0xf000_0000;
            if g != 0 { h ^= g >> 24; }
            h &= !g;
        }
        h
    }
    pub fn abi_gnu(n: &[u8]) -> u32 {
        let mut h: u32 = 5381;
        for &c in n { h = h.wrapping_shl(5).wrapping_add(h).wrapping_add(c as u32); }
        h
    }
    pub struct Case {
        pub big: bool, pub wide: bool,
        pub names: Vec<Vec<u8>>,   // symbol 0 is empty
        pub vers: Vec<u16>,        // version of each symbol, with the hidden bit
        pub nver: u16,             // versions 2..2+nver are defined
        pub undef: u16,            // first this many symbols after 0 are not in the GNU table
    }
    /// Version names; those of three of the first four have the same hash.
    pub fn vname(i: u16) -> Vec<u8> {
        match i { 0 => b"AQ".to_vec(), 1 => b"BA".to_vec(), 3 => b"C1".to_vec(), _ => format!("V{i}").into_bytes() }
    }
    pub fn random_case() -> Case {
        let n = rnd(9) as usize + 1;
        let letters = 1 + rnd(3);
        let nver = rnd(4) as u16;
        let mut names = vec![vec![]];
        let mut vers = vec![0];
        for _ in 1..n {
            let k = rnd(4);
            names.push(if rnd(3) == 0 { names[rnd(names.len() as u64) as usize].clone() } else { (0..k).map(|_| 97 + rnd(letters) as u8).collect() });
            vers.push(rnd(nver as u64 + 3) as u16 | if rnd(3) == 0 { 0x8000 } else { 0 });
        }
        let undef = if n == 1 { 0 } else { rnd(n as u64) as u16 };
        Case { big: rnd(2) == 0, wide: rnd(2) == 0, names, vers, nver, undef }
    }
    pub struct Built { pub file: Vec<u8>, pub hash: (usize, usize), pub gnu: (usize, usize), pub order: Vec<usize> }
    /// A file with the symbols, both tables and the version sections.
    pub fn build(c: &mut Case, nb: u32, nbg: u32, nbloom: u32, shift: u32) -> Built {
        let n = c.names.len();
        let base = 1 + c.undef as usize;
        // the GNU table wants its symbols grouped by bucket
        let mut order: Vec<usize> = (0..n).collect();
        if base < n && nbg > 0 { order[base..].sort_by_key(|&i| abi_gnu(&c.names[i]) % nbg); }
        c.names = order.iter().map(|&i| c.names[i].clone()).collect();
        c.vers = order.iter().map(|&i| c.vers[i]).collect();
        let boff = elf_body_off(c.wide, 0);
        let mut strtab = W::new(c.big, c.wide);
        strtab.u8(0);
        let soff: Vec<u32> = c.names.iter().map(|s| if s.is_empty() { 0 } else { let p = strtab.pos() as u32; strtab.bytes(s).u8(0); p }).collect();
        let voff: Vec<u32> = (0..c.nver).map(|i| { let p = strtab.pos() as u32; strtab.bytes(&vname(i)).u8(0); p }).collect();
        let lib = strtab.pos() as u32;
        strtab.bytes(b"lib.so\0");
        let mut w = W::new(c.big, c.wide);
        let mut sh = vec![Sh::default()];
        let mut put = |w: &mut W, typ: u32, link: u32, info: u32, ent: u64, f: &mut dyn FnMut(&mut W)| -> (usize, usize) {
            w.align(8);
            let at = w.pos();
            f(w);
            let size = w.pos() - at;
            sh.push(Sh { typ, off: boff + at, size, link, info, align: 8, ent, ..Sh::default() });
            ((boff + at) as usize, size as usize)
        };
        // 1 dynsym, 2 dynstr, 3 hash, 4 gnu_hash, 5 versym, 6 verdef, 7 verneed
        put(&mut w, 11, 2, 1, if c.wide { 24 } else { 16 }, &mut |w| for i in 0..n {
            let d = i >= base;
            if c.wide { w.u32(soff[i]).u8(if i == 0 { 0 } else { 0x12 }).u8(0).u16(if d { 1 } else { 0 }).u64(i as u64).u64(0); }
            else { w.u32(soff[i]).u32(i as u32).u32(0).u8(if i == 0 { 0 } else { 0x12 }).u8(0).u16(if d { 1 } else { 0 }); }
        });
        put(&mut w, 3, 0, 0, 0, &mut |w| { w.bytes(&strtab.b); });
        let hash = put(&mut w, 5, 1, 0, 4, &mut |w| {
            let mut b = vec![0u32; nb as usize];
            let mut ch = vec![0u32; n];
            if nb > 0 { for i in 1..n { let k = (abi_sysv(&c.names[i]) % nb) as usize; ch[i] = b[k]; b[k] = i as u32; } }
            w.u32(nb).u32(n as u32);
            for x in b.iter().chain(ch.iter()) { w.u32(*x); }
        });
        let gnu = put(&mut w, 0x6fff_fff6, 1, 0, 0, &mut |w| {
            let bits = if c.wide { 64 } else { 32 };
            let mut bl = vec![0u64; nbloom as usize];
            let mut b = vec![0u32; nbg as usize];
            let mut v = Vec::new();
            for i in base..n {
                let h = abi_gnu(&c.names[i]);
                if nbloom > 0 { bl[((h / bits) & (nbloom - 1)) as usize] |= 1u64 << (h % bits) | 1u64 << ((h >> shift) % bits); }
                if nbg > 0 {
                    let k = h % nbg;
                    if b[k as usize] == 0 { b[k as usize] = i as u32; }
                    let last = i + 1 == n || abi_gnu(&c.names[i + 1]) % nbg != k;
                    v.push(h & !1 | last as u32);
                }
            }
            w.u32(nbg).u32(base as u32).u32(nbloom).u32(shift);
            for x in bl { w.word(x); }
            for x in b.iter().chain(v.iter()) { w.u32(*x); }
        });
        put(&mut w, 0x6fff_ffff, 1, 0, 2, &mut |w| for i in 0..n { w.u16(c.vers[i]); });
        // even versions are definitions, odd ones requirements
        let nd = (c.nver as usize).div_ceil(2);
        put(&mut w, 0x6fff_fffd, 2, nd as u32, 0, &mut |w| for (j, i) in (0..c.nver).step_by(2).enumerate() {
            w.u16(1).u16(0).u16(2 + i).u16(1).u32(abi_sysv(&vname(i))).u32(20).u32(if j + 1 == nd { 0 } else { 28 });
            w.u32(voff[i as usize]).u32(0);
        });
        let nn = c.nver as usize / 2;
        put(&mut w, 0x6fff_fffe, 2, (nn > 0) as u32, 0, &mut |w| if nn > 0 {
            w.u16(1).u16(nn as u16).u32(lib).u32(16).u32(0);
            for (j, i) in (1..c.nver).step_by(2).enumerate() {
                w.u32(abi_sysv(&vname(i))).u16(0).u16(2 + i).u32(voff[i as usize]).u32(if j + 1 == nn { 0 } else { 16 });
            }
        });
        let file = elf(c.big, c.wide, 3, if c.wide { 62 } else { 3 }, &w.b, &[], &sh, 2);
        Built { file, hash, gnu, order }
    }
    /// Symbol i satisfies the request.
    pub fn ok(c: &Case, i: usize, name: &[u8], ver: Option<u16>) -> bool {
        let v = c.vers[i] & 0x7fff;
        c.names[i] == name && match ver {
            None => if v < 2 { true } else { v < 2 + c.nver && c.vers[i] & 0x8000 == 0 },
            Some(k) => v == 2 + k,
        }
    }
    pub fn with<H: FileHeader<Endian = Endianness>>(d: &[u8], f: &mut dyn FnMut(&H, Endianness, &object::read::elf::SymbolTable<H>, Option<HashTable<H>>, Option<GnuHashTable<H>>, &VersionTable<H>)) {
        let h = H::parse(d).unwrap();
        let e = h.endian().unwrap();
        let s = h.sections(e, d).unwrap();
        let syms = s.symbols(e, d, elf::SHT_DYNSYM).unwrap();
        let ver = s.versions(e, d).unwrap().unwrap_or_default();
        f(h, e, &syms, s.hash(e, d).ok().flatten().map(|x| x.0), s.gnu_hash(e, d).ok().flatten().map(|x| x.0), &ver);
    }
    fn look<H: FileHeader<Endian = Endianness>>(c: &Case, d: &[u8], well_formed: bool, nb: u32, nbg: u32, nbloom: u32) {
        with::<H>(d, &mut |_, e, syms, sv, gn, ver| {
            if well_formed {
                ensure!(sv.is_some() && gn.is_some(), "the tables are found");
                ensure!(sv.as_ref().unwrap().symbol_table_length() as usize == c.names.len(), "table length");
                let defined = c.names.len() > 1 + c.undef as usize && nbg > 0;
                ensure!(gn.as_ref().unwrap().symbol_table_length(e) == if defined { Some(c.names.len() as u32) } else { None }, "table length from the last chain");
            }
            let mut asks: Vec<Vec<u8>> = c.names.clone();
            asks.push(b"zz".to_vec());
            asks.push(vec![97; 9]);
            for name in &asks {
                for k in 0..=c.nver + 1 {
                    let want = if k == 0 { None } else { Some(k - 1) };
                    let v: Option<Version> = match want {
                        None => None,
                        Some(k) => match ver.version(elf::VersionIndex(2 + k)) { Ok(Some(v)) => {
                            ensure!(v.name() == &vname(k)[..] && v.hash() == abi_sysv(&vname(k)), "version name");
                            ensure!(v.file() == if k % 2 == 0 { None } else { Some(&b"lib.so"[..]) }, "version file");
                            Some(*v)
                        }, Ok(None) => { ensure!(false, "version"); return }, Err(_) => {
                            ensure!(k >= c.nver, "every version is in the table"); continue } },
                    };
                    ensure!(elf::hash(name) == abi_sysv(name) && elf::gnu_hash(name) == abi_gnu(name), "hash values");
                    for g in [false, true] {
                        let r = if g { gn.as_ref().and_then(|t| t.find(e, name, elf::gnu_hash(name), v.as_ref(), syms, ver)) }
                            else { sv.as_ref().and_then(|t| t.find(e, name, elf::hash(name), v.as_ref(), syms, ver)) };
                        if let Some((i, s)) = r {
                            ensure!(i.0 < c.names.len() && ok(c, i.0, name, want), "a symbol found is the one asked for");
                            ensure!(core::ptr::eq(s, syms.symbol(i).unwrap()) && s.name(e, syms.strings()) == Ok(&name[..]), "the entry of that index");
                        } else if well_formed && (if g { nbg > 0 && nbloom > 0 } else { nb > 0 }) {
                            let from = if g { 1 + c.undef as usize } else { 1 };
                            ensure!(!(from..c.names.len()).any(|i| ok(c, i, name, want)), "a symbol on the chain is found");
                        }
                    }
                }
            }
            for (i, v) in c.vers.iter().enumerate() {
                ensure!(ver.version_index(e, SymbolIndex(i)).0 == *v, "version index of a symbol");
            }
        })
    }
    pub fn run(damage: bool) {
        let mut c = random_case();
        let nb = rnd(4) as u32;
        let nbg = rnd(4) as u32;
        let nbloom = [0u32, 1, 1, 2, 4][rnd(5) as usize];
        let shift = match rnd(4) { 0 => 0, 1 => 31, _ => rnd(32) as u32 };
        let b = build(&mut c, nb, nbg, nbloom, shift);
        let mut d = b.file;
        if damage {
            for _ in 0..1 + rnd(3) {
                let (at, len) = if rnd(2) == 0 { b.hash } else { b.gnu };
                let p = at + rnd(len as u64) as usize / 4 * 4;
                let v = match rnd(4) { 0 => rnd(12) as u32, 1 => 1u32 << rnd(32), 2 => u32::MAX - rnd(3) as u32, _ => any::<u32>() };
                d[p..p + 4].copy_from_slice(&if c.big { v.to_be_bytes() } else { v.to_le_bytes() });
            }
        }
        if c.wide { look::<F64>(&c, &d, !damage, nb, nbg, nbloom) } else { look::<F32>(&c, &d, !damage, nb, nbg, nbloom) }
    }
}

natives! {
    /// Well-formed tables with versions: lookups are exact.
    fn lookups() { tab::run(false) }
    /// The same with table words overwritten: what is found still matches.
    fn damaged() { tab::run(true) }
    /// Every name of up to three bytes from a set of edge bytes.
    fn hashes() {
        let n = choose(6);
        let name: Vec<u8> = (0..n).map(|_| [0u8, 1, 0x0f, 0x7f, 0x80, 0xf0, 0xff][choose(7)]).collect();
        ensure!(elf::hash(&name) == tab::abi_sysv(&name), "System V hash");
        ensure!(elf::gnu_hash(&name) == tab::abi_gnu(&name), "GNU hash");
    }
    fn long_hashes() {
        let n = rnd(40);
        let name: Vec<u8> = (0..n).map(|_| any::<u8>()).collect();
        ensure!(elf::hash(&name) == tab::abi_sysv(&name), "System V hash");
        ensure!(elf::gnu_hash(&name) == tab::abi_gnu(&name), "GNU hash");
    }
}
