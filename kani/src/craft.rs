//! Hand-made object files for the native stand-ins: bytes laid out from the format
//! definitions, without the code under test.
#![cfg(not(kani))]

#[derive(Clone)]
pub struct W {
    pub b: Vec<u8>,
    pub big: bool,
    pub wide: bool,
}
impl W {
    pub fn new(big: bool, wide: bool) -> W {
        W { b: Vec::new(), big, wide }
    }
    pub fn u8(&mut self, v: u8) -> &mut W { self.b.push(v); self }
    pub fn bytes(&mut self, v: &[u8]) -> &mut W { self.b.extend_from_slice(v); self }
    pub fn u16(&mut self, v: u16) -> &mut W {
        let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.bytes(&x)
    }
    pub fn u32(&mut self, v: u32) -> &mut W {
        let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.bytes(&x)
    }
    pub fn u64(&mut self, v: u64) -> &mut W {
        let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.bytes(&x)
    }
    /// Address-sized.
    pub fn word(&mut self, v: u64) -> &mut W {
        if self.wide { self.u64(v) } else { self.u32(v as u32) }
    }
    pub fn pad(&mut self, n: usize) -> &mut W {
        while self.b.len() < n { self.b.push(0); }
        self
    }
    pub fn fixed(&mut self, s: &[u8], n: usize) -> &mut W {
        let mut v = s.to_vec();
        v.resize(n, 0);
        self.bytes(&v[..n])
    }
    pub fn align(&mut self, n: usize) -> &mut W {
        while self.b.len() % n != 0 { self.b.push(0); }
        self
    }
    pub fn pos(&self) -> u64 { self.b.len() as u64 }
    pub fn set_u32(&mut self, at: usize, v: u32) {
        let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b[at..at + 4].copy_from_slice(&x);
    }
    pub fn set_word(&mut self, at: usize, v: u64) {
        if self.wide {
            let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
            self.b[at..at + 8].copy_from_slice(&x);
        } else {
            self.set_u32(at, v as u32);
        }
    }
}

/// An ELF section header.
#[derive(Clone, Copy, Default, Debug)]
pub struct Sh {
    pub name: u32, pub typ: u32, pub flags: u64, pub addr: u64, pub off: u64, pub size: u64,
    pub link: u32, pub info: u32, pub align: u64, pub ent: u64,
}
/// An ELF program header.
#[derive(Clone, Copy, Default, Debug)]
pub struct Ph {
    pub typ: u32, pub flags: u32, pub off: u64, pub vaddr: u64, pub paddr: u64, pub filesz: u64,
    pub memsz: u64, pub align: u64,
}
pub fn elf_shsize(wide: bool) -> u64 { if wide { 64 } else { 40 } }
pub fn elf_phsize(wide: bool) -> u64 { if wide { 56 } else { 32 } }
pub fn elf_ehsize(wide: bool) -> u64 { if wide { 64 } else { 52 } }

/// ELF header, then program headers, then `body` at a fixed offset, then section headers.
/// Returns the file.  The body starts at `elf_body_off`.
pub fn elf_body_off(wide: bool, nph: usize) -> u64 {
    (elf_ehsize(wide) + elf_phsize(wide) * nph as u64 + 15) & !15
}
pub fn elf(big: bool, wide: bool, typ: u16, machine: u16, body: &[u8], ph: &[Ph], sh: &[Sh], shstrndx: u16) -> Vec<u8> {
    let mut w = W::new(big, wide);
    let body_off = elf_body_off(wide, ph.len());
    let shoff = (body_off + body.len() as u64 + 15) & !15;
    w.bytes(b"\x7fELF").u8(if wide { 2 } else { 1 }).u8(if big { 2 } else { 1 }).u8(1).u8(0);
    w.pad(16);
    w.u16(typ).u16(machine).u32(1).word(0x1000);
    w.word(if ph.is_empty() { 0 } else { elf_ehsize(wide) });
    w.word(if sh.is_empty() { 0 } else { shoff });
    w.u32(0).u16(elf_ehsize(wide) as u16).u16(elf_phsize(wide) as u16).u16(ph.len() as u16);
    w.u16(elf_shsize(wide) as u16).u16(sh.len() as u16).u16(shstrndx);
    for p in ph {
        if wide {
            w.u32(p.typ).u32(p.flags).u64(p.off).u64(p.vaddr).u64(p.paddr).u64(p.filesz).u64(p.memsz).u64(p.align);
        } else {
            w.u32(p.typ).word(p.off).word(p.vaddr).word(p.paddr).word(p.filesz).word(p.memsz).u32(p.flags).word(p.align);
        }
    }
    w.pad(body_off as usize);
    w.bytes(body);
    w.pad(shoff as usize);
    for s in sh {
        w.u32(s.name).u32(s.typ).word(s.flags).word(s.addr).word(s.off).word(s.size).u32(s.link).u32(s.info).word(s.align).word(s.ent);
    }
    w.b
}

/// A COFF/PE section header.
#[derive(Clone, Default, Debug)]
pub struct Cs {
    pub name: [u8; 8], pub vsize: u32, pub va: u32, pub rsize: u32, pub roff: u32, pub reloff: u32,
    pub lnoff: u32, pub nrel: u16, pub nln: u16, pub flags: u32,
}
fn coff_sections(w: &mut W, s: &[Cs]) {
    for s in s {
        w.bytes(&s.name).u32(s.vsize).u32(s.va).u32(s.rsize).u32(s.roff).u32(s.reloff).u32(s.lnoff).u16(s.nrel).u16(s.nln).u32(s.flags);
    }
}
pub fn coff_hdr_len(n: usize, big: bool) -> usize { if big { 56 + 40 * n } else { 20 + 40 * n } }
pub const BIGOBJ_UUID: [u8; 16] = [0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8];
/// A COFF object: headers, then `body`, then `nsyms` symbol records (`syms`) and `strings`
/// (without its length word).  `bigobj` selects the big-object header.
pub fn coff(machine: u16, secs: &[Cs], body: &[u8], nsyms: u32, syms: &[u8], strings: &[u8], bigobj: bool) -> Vec<u8> {
    let mut w = W::new(false, false);
    let symoff = coff_hdr_len(secs.len(), bigobj) + body.len();
    if bigobj {
        w.u16(0).u16(0xffff).u16(2).u16(machine).u32(0).bytes(&BIGOBJ_UUID).u32(0).u32(0).u32(0).u32(0);
        w.u32(secs.len() as u32).u32(if nsyms == 0 { 0 } else { symoff as u32 }).u32(nsyms);
    } else {
        w.u16(machine).u16(secs.len() as u16).u32(0).u32(if nsyms == 0 { 0 } else { symoff as u32 }).u32(nsyms).u16(0).u16(0);
    }
    coff_sections(&mut w, secs);
    w.bytes(body);
    w.bytes(syms);
    w.u32(strings.len() as u32 + 4);
    w.bytes(strings);
    w.b
}

/// PE: DOS header (64 bytes), PE signature, file header, optional header with 16 data
/// directories, sections, `body` at `pe_body_off`.
pub fn pe_body_off(wide: bool, n: usize) -> usize {
    (64 + 4 + 20 + if wide { 112 } else { 96 } + 128 + 40 * n + 15) & !15
}
pub fn pe(wide: bool, secs: &[Cs], dirs: &[(u32, u32); 16], body: &[u8]) -> Vec<u8> {
    let mut w = W::new(false, wide);
    w.bytes(b"MZ").pad(60).u32(64);
    w.bytes(b"PE\0\0");
    w.u16(if wide { 0x8664 } else { 0x14c }).u16(secs.len() as u16).u32(0).u32(0).u32(0);
    w.u16(if wide { 112 + 128 } else { 96 + 128 }).u16(0x22);
    w.u16(if wide { 0x20b } else { 0x10b }).u16(0).u32(0).u32(0).u32(0).u32(0x1000).u32(0x1000);
    if !wide { w.u32(0); }
    w.word(0x40_0000).u32(0x1000).u32(0x200);
    w.u16(6).u16(0).u16(0).u16(0).u16(6).u16(0).u32(0).u32(0x10000).u32(0x200).u32(0).u16(3).u16(0);
    w.word(0).word(0).word(0).word(0).u32(0).u32(16);
    for d in dirs { w.u32(d.0).u32(d.1); }
    coff_sections(&mut w, secs);
    w.pad(pe_body_off(wide, secs.len()));
    w.bytes(body);
    w.b
}

/// A Mach-O section.
#[derive(Clone, Default, Debug)]
pub struct Ms {
    pub sect: [u8; 16], pub seg: [u8; 16], pub addr: u64, pub size: u64, pub off: u32, pub align: u32,
    pub reloff: u32, pub nreloc: u32, pub flags: u32, pub res1: u32, pub res2: u32,
}
/// A Mach-O segment.
#[derive(Clone, Default, Debug)]
pub struct Mg {
    pub name: [u8; 16], pub vmaddr: u64, pub vmsize: u64, pub off: u64, pub size: u64, pub sections: Vec<Ms>,
}
pub fn name16(s: &str) -> [u8; 16] {
    let mut n = [0; 16];
    n[..s.len()].copy_from_slice(s.as_bytes());
    n
}
pub fn name8(s: &str) -> [u8; 8] {
    let mut n = [0; 8];
    n[..s.len()].copy_from_slice(s.as_bytes());
    n
}
pub fn macho_cmds(w: &mut W, segs: &[Mg]) -> u32 {
    for g in segs {
        let ssize = if w.wide { 80 } else { 68 };
        let size = (if w.wide { 72 } else { 56 }) + ssize * g.sections.len();
        w.u32(if w.wide { 0x19 } else { 1 }).u32(size as u32).bytes(&g.name);
        w.word(g.vmaddr).word(g.vmsize).word(g.off).word(g.size).u32(7).u32(5).u32(g.sections.len() as u32).u32(0);
        for s in &g.sections {
            w.bytes(&s.sect).bytes(&s.seg).word(s.addr).word(s.size).u32(s.off).u32(s.align).u32(s.reloff).u32(s.nreloc).u32(s.flags).u32(s.res1).u32(s.res2);
            if w.wide { w.u32(0); }
        }
    }
    segs.len() as u32
}
/// Mach-O: header, segment commands, `extra` commands (already encoded, with count), `body` at `macho_body`.
pub const MACHO_BODY: usize = 0x800;
pub fn macho(big: bool, wide: bool, filetype: u32, segs: &[Mg], nextra: u32, extra: &[u8], body: &[u8]) -> Vec<u8> {
    let mut c = W::new(big, wide);
    let n = macho_cmds(&mut c, segs) + nextra;
    c.bytes(extra);
    let mut w = W::new(big, wide);
    w.u32(if wide { 0xfeedfacf } else { 0xfeedface }).u32(if wide { 0x0100_0007 } else { 7 }).u32(3).u32(filetype).u32(n).u32(c.b.len() as u32).u32(0);
    if wide { w.u32(0); }
    w.bytes(&c.b);
    assert!(w.b.len() <= MACHO_BODY);
    w.pad(MACHO_BODY);
    w.bytes(body);
    w.b
}

/// An XCOFF section header.
#[derive(Clone, Default, Debug)]
pub struct Xs {
    pub name: [u8; 8], pub paddr: u64, pub vaddr: u64, pub size: u64, pub off: u64, pub reloff: u64,
    pub lnoff: u64, pub nrel: u32, pub nln: u32, pub flags: u32,
}
pub fn xcoff_hdr_len(wide: bool, n: usize) -> usize { if wide { 24 + 72 * n } else { 20 + 40 * n } }
pub fn xcoff(wide: bool, secs: &[Xs], body: &[u8], nsyms: u32, syms: &[u8], strings: &[u8]) -> Vec<u8> {
    let mut w = W::new(true, wide);
    let symoff = (xcoff_hdr_len(wide, secs.len()) + body.len()) as u64;
    let symoff = if nsyms == 0 { 0 } else { symoff };
    if wide {
        w.u16(0x1f7).u16(secs.len() as u16).u32(0).u64(symoff).u16(0).u16(0).u32(nsyms);
    } else {
        w.u16(0x1df).u16(secs.len() as u16).u32(0).u32(symoff as u32).u32(nsyms).u16(0).u16(0);
    }
    for s in secs {
        w.bytes(&s.name).word(s.paddr).word(s.vaddr).word(s.size).word(s.off).word(s.reloff).word(s.lnoff);
        if wide { w.u32(s.nrel).u32(s.nln).u32(s.flags).u32(0); } else { w.u16(s.nrel as u16).u16(s.nln as u16).u32(s.flags); }
    }
    w.bytes(body);
    w.bytes(syms);
    w.u32(strings.len() as u32 + 4);
    w.bytes(strings);
    w.b
}
