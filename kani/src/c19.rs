//! Mach-O: chained fixups, rebase and bind opcodes, exports, function starts, shared-cache slides.
use crate::shim::*;
use object::macho;
use object::pod::{bytes_of, bytes_of_slice};
use object::read::macho::*;
use object::{Endianness, LittleEndian as LE, U16, U32, U64};

fn bits(w: u64, lo: u32, n: u32) -> u64 { (w >> lo) & ((1u64 << n) - 1) }
fn le16(d: &[u8], o: usize) -> u16 { d[o] as u16 | (d[o + 1] as u16) << 8 }
fn le32(d: &[u8], o: usize) -> u32 { le16(d, o) as u32 | (le16(d, o + 2) as u32) << 16 }
fn le64(d: &[u8], o: usize) -> u64 { le32(d, o) as u64 | (le32(d, o + 4) as u64) << 32 }
fn fits(d: &[u8], o: usize, n: usize) -> bool { o <= d.len() && n <= d.len() - o }

// ---- what a chained pointer says, from the format's description ----
type Auth = Option<(u64, u64, bool)>;
#[derive(Clone, Copy)]
pub enum Says { Rebase(u64, Auth), Bind(u64, i64, Auth), Cache(u64, u64, Auth), Segment(u64, u64, Auth) }
fn signed(v: u64) -> Auth { Some((bits(v, 49, 2), bits(v, 32, 16), bits(v, 48, 1) == 1)) }
/// `None`: the target is below the load address, which no linker writes.
fn off(t: u64, va: u64, high8: u64) -> Option<u64> { if t >= va { Some((t - va) | high8 << 56) } else { None } }
fn arm64e(v: u64, va: u64, ord: u32) -> Option<Says> {
    let (bind, auth) = (bits(v, 62, 1) == 1, bits(v, 63, 1) == 1);
    Some(match (bind, auth) {
        (true, true) => Says::Bind(bits(v, 0, ord), 0, signed(v)),
        (true, false) => { let a = bits(v, 32, 19) as i64; Says::Bind(bits(v, 0, ord), if a >= 1 << 18 { a - (1 << 19) } else { a }, None) }
        (false, true) => Says::Rebase(bits(v, 0, 32), signed(v)),
        (false, false) => Says::Rebase(off(bits(v, 0, 43), va, bits(v, 43, 8))?, None),
    })
}
fn ptr64(v: u64, va: u64) -> Option<Says> {
    Some(if bits(v, 63, 1) == 1 { Says::Bind(bits(v, 0, 24), bits(v, 24, 8) as i64, None) } else { Says::Rebase(off(bits(v, 0, 36), va, bits(v, 36, 8))?, None) })
}
fn kernel(v: u64) -> Option<Says> { Some(Says::Cache(bits(v, 0, 30), bits(v, 30, 2), if bits(v, 63, 1) == 1 { signed(v) } else { None })) }
/// The width of a pointer, the distance to the next one, and what it says.
pub fn pointer(format: u16, v: u64, va: u64) -> Option<(usize, u64, Option<Says>)> {
    Some(match format {
        1 => (8, 8 * bits(v, 51, 11), arm64e(v, va, 16)),
        7 => (8, 4 * bits(v, 51, 11), arm64e(v, 0, 16)),
        9 => (8, 8 * bits(v, 51, 11), arm64e(v, 0, 16)),
        10 => (8, 4 * bits(v, 51, 11), arm64e(v, va, 16)),
        12 => (8, 8 * bits(v, 51, 11), arm64e(v, 0, 24)),
        2 => (8, 4 * bits(v, 51, 12), ptr64(v, va)),
        6 => (8, 4 * bits(v, 51, 12), ptr64(v, 0)),
        8 => (8, 4 * bits(v, 51, 12), kernel(v)),
        11 => (8, bits(v, 51, 12), kernel(v)),
        3 => (4, 4 * bits(v, 26, 5), Some(if bits(v, 31, 1) == 1 { Says::Bind(bits(v, 0, 20), bits(v, 20, 6) as i64, None) } else { match off(bits(v, 0, 26), va, 0) { Some(t) => Says::Rebase(t, None), None => return Some((4, 4 * bits(v, 26, 5), None)) } })),
        4 => (4, 4 * bits(v, 30, 2), Some(Says::Rebase(bits(v, 0, 30), None))),
        5 => (4, 4 * bits(v, 26, 6), Some(Says::Rebase(bits(v, 0, 26), None))),
        13 => (8, 8 * bits(v, 52, 11), Some(if bits(v, 63, 1) == 1 { Says::Rebase(bits(v, 0, 34), Some((2 * bits(v, 51, 1), bits(v, 34, 16), bits(v, 50, 1) == 1))) } else { Says::Rebase(bits(v, 0, 34) | bits(v, 34, 8) << 56, None) })),
        14 => (8, 4 * bits(v, 51, 12), Some(Says::Segment(bits(v, 28, 4), bits(v, 0, 28), if bits(v, 63, 1) == 1 { signed(v) } else { None }))),
        _ => return None,
    })
}
fn same_auth(a: &Option<FixupAuth>, b: &Auth) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            let k = match b.0 { 0 => macho::PtrauthKey::IA, 1 => macho::PtrauthKey::IB, 2 => macho::PtrauthKey::DA, _ => macho::PtrauthKey::DB };
            a.key == k && u64::from(a.diversity) == b.1 && a.addr_div == b.2
        }
        _ => false,
    }
}
pub fn same(f: &Fixup, s: &Says) -> bool {
    match (f, s) {
        (Fixup::Rebase(f), Says::Rebase(t, a)) => f.target_offset == *t && same_auth(&f.auth, a),
        (Fixup::Bind(f), Says::Bind(o, d, a)) => u64::from(f.ordinal) == *o && i64::from(f.addend) == *d && same_auth(&f.auth, a),
        (Fixup::KernelCacheRebase(f), Says::Cache(t, l, a)) => f.target_offset == *t && u64::from(f.cache_level) == *l && same_auth(&f.auth, a),
        (Fixup::SegmentedRebase(f), Says::Segment(i, t, a)) => u64::from(f.target_segment_index) == *i && f.target_segment_offset == *t && same_auth(&f.auth, a),
        _ => false,
    }
}
macro_rules! data { ($c:ident, $e:ident, $d:ident, $($f:ident $off:ident $size:ident),*) => { $(
    match $c.$f($e, $d) {
        Ok(b) => { reach!(b.len() > 100, "data"); ensure!(is_at(b, $d, $c.$off.get($e) as usize, $c.$size.get($e) as usize) || b.is_empty() && $c.$size.get($e) == 0, "the declared range"); }
        Err(_) => ensure!(!fits($d, $c.$off.get($e) as usize, $c.$size.get($e) as usize), "every range in the file can be read"),
    }
)* } }
harnesses! {
    /// The fields of the words, which the Verus job assumes.
    fn fields() { crate::ptrs::chained_pointers(); }
    fn slide_fields() { crate::ptrs::slide_pointers(); }
    /// The layouts that the Verus job assumes for the tables.
    fn layout() {
        let h = any_pod!(macho::DyldChainedStartsInSegment<LE>);
        let b = bytes_of(&h);
        ensure!(b.len() == 22, "the size");
        ensure!(le32(b, 0) == h.size.get(LE) && le16(b, 4) == h.page_size.get(LE) && le16(b, 6) == h.pointer_format.get(LE).0 && le64(b, 8) == h.segment_offset.get(LE) && le32(b, 16) == h.max_valid_pointer.get(LE) && le16(b, 20) == h.page_count.get(LE), "the fields of the starts of a segment");
        let h = any_pod!(macho::DyldChainedFixupsHeader<LE>);
        let b = bytes_of(&h);
        ensure!(b.len() == 28, "the size");
        ensure!(le32(b, 0) == h.fixups_version.get(LE) && le32(b, 4) == h.starts_offset.get(LE) && le32(b, 8) == h.imports_offset.get(LE) && le32(b, 12) == h.symbols_offset.get(LE)
            && le32(b, 16) == h.imports_count.get(LE) && le32(b, 20) == h.imports_format.get(LE).0 && le32(b, 24) == h.symbols_format.get(LE), "the fields of the header");
    }
    /// The ranges of the dyld info that the load command declares.
    fn linkedit_ranges() {
        let (d, e) = (any_bytes::<128>(), any_endian());
        let c = any_pod!(macho::DyldInfoCommand<Endianness>);
        data!(c, e, d, rebase_data rebase_off rebase_size, bind_data bind_off bind_size, weak_bind_data weak_bind_off weak_bind_size, lazy_bind_data lazy_bind_off lazy_bind_size, export_data export_off export_size);
    }
    /// The flags of an export.
    fn export_flags() {
        let v: u64 = any();
        let f = macho::ExportSymbolFlags(v);
        ensure!(f.has_unknown_bits() == (v >= 0x40), "bits that nobody has defined");
        ensure!(u64::from(f.kind().0) == v % 4, "the kind");
        ensure!(f.contains(macho::EXPORT_SYMBOL_FLAGS_WEAK_DEFINITION) == (v / 4 % 2 == 1) && f.contains(macho::EXPORT_SYMBOL_FLAGS_REEXPORT) == (v / 8 % 2 == 1) && f.contains(macho::EXPORT_SYMBOL_FLAGS_STUB_AND_RESOLVER) == (v / 16 % 2 == 1), "the flags");
        reach!(v > 8, "flags");
    }
}

#[cfg(not(kani))]
mod low {
    use super::*;
    use crate::craft::*;
    pub type E = Endianness;
    /// The bytes in memory of their own; the last few that were asked for stay.
    pub fn leak(v: &[u8]) -> &'static [u8] {
        thread_local!(static RING: core::cell::RefCell<(usize, Vec<Vec<u64>>)> = core::cell::RefCell::new((0, vec![vec![0; 1 << 14]; 8])));
        assert!(v.len() < 1 << 16);
        RING.with(|r| {
            let r = &mut *r.borrow_mut();
            r.0 = (r.0 + 1) % 8;
            let p = r.1[r.0].as_mut_ptr() as *mut u8;
            unsafe { core::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()); core::slice::from_raw_parts(p, v.len()) }
        })
    }
    pub fn uleb(b: &mut Vec<u8>, mut v: u64) {
        // sometimes longer than needed
        let pad = uni(6) == 0 && v < 1 << 50;
        loop { let x = (v & 0x7f) as u8; v >>= 7; if v == 0 { if pad && x < 0x40 && b.len() % 3 == 0 { b.push(x | 0x80); b.push(0); } else { b.push(x); } return } b.push(x | 0x80); }
    }
    pub fn sleb(b: &mut Vec<u8>, mut v: i64) {
        loop { let x = (v & 0x7f) as u8; v >>= 7; if v == 0 && x < 0x40 || v == -1 && x >= 0x40 { b.push(x); return } b.push(x | 0x80); }
    }
    pub fn num() -> u64 { match uni(8) { 0 => 0, 1..=3 => uni(200), 4 => uni(1 << 20), 5 => 1 << uni(64), 6 => u64::MAX - uni(200), _ => uni(u64::MAX) } }
    fn range(w: &mut W, off: usize, n: usize) { w.u32(off as u32).u32(n as u32); }

    // ---- chained fixups ----
    /// A word of the format that is valid, with the distance `next` (in strides).
    fn word(f: u16, va: u64, next: u64) -> u64 {
        let mut v = uni(u64::MAX);
        let (lo, n) = match f { 1 | 7 | 9 | 10 | 12 => (51, 11), 2 | 6 | 8 | 11 | 14 => (51, 12), 3 => (26, 5), 4 => (30, 2), 5 => (26, 6), _ => (52, 11) };
        if f >= 3 && f <= 5 { v &= 0xffff_ffff; }
        // a target above the load address
        match f {
            1 | 10 if v >> 62 == 0 || v >> 62 == 1 && false => v = v & !((1 << 43) - 1) | (va + uni(1 << 20)),
            2 if v >> 63 == 0 => v = v & !((1 << 36) - 1) | (va + uni(1 << 20)),
            3 if v >> 31 == 0 => v = v & !((1 << 26) - 1) | (va + uni(1 << 10)),
            _ => {}
        }
        v & !(((1u64 << n) - 1) << lo) | next << lo
    }
    pub fn chains() {
        let f = 1 + uni(14) as u16;
        let big = uni(4) == 0;
        let e = if big { E::Big } else { E::Little };
        let va = [0, 0x4000, 0x1_0000_0000][uni(if f == 3 { 2 } else { 3 }) as usize];
        let (width, stride) = match f { 3 | 4 | 5 => (4, 4), 11 => (8, 1), 1 | 9 | 12 | 13 => (8, 8), _ => (8, 4) };
        let max = match f { 3 => 31, 4 => 3, 5 => 63, 1 | 7 | 9 | 10 | 12 | 13 => 2047, _ => 4095 };
        let (ps, np) = ([64usize, 128, 256][uni(3) as usize], 1 + uni(5) as usize);
        let mut seg = vec![0u8; ps * np + 8];
        let mut starts: Vec<u16> = vec![];
        let mut extra: Vec<u16> = vec![];
        let mut want: Vec<(u64, Says)> = vec![];
        // what a chain starts with, then its words
        let mut chain = |seg: &mut Vec<u8>, page: usize, from: usize, to: usize| {
            let mut at = from;
            loop {
                let end = page * ps + to;
                let step = (width + stride - 1) / stride * stride + stride * uni(3) as usize;
                let more = uni(4) != 0 && page * ps + at + step + width <= end && step / stride <= max;
                let v = word(f, va, if more { (step / stride) as u64 } else { 0 });
                let (w, next, says) = pointer(f, v, va).unwrap();
                ensure!(w == width && next == if more { step as u64 } else { 0 }, "the model");
                crate::fuzz::store(&mut seg[page * ps + at..][..width], v, big);
                match says { Some(s) => want.push(((page * ps + at) as u64, s)), None => return false }
                if !more { return true }
                at += step;
            }
        };
        for p in 0..np {
            match uni(4) {
                0 => starts.push(0xffff),
                1 => {
                    starts.push(0x8000 | (np + extra.len()) as u16);
                    let k = 1 + uni(3) as usize;
                    for i in 0..k {
                        let from = i * ps / k / 8 * 8 + 4 * uni(2) as usize;
                        extra.push(from as u16 | if i + 1 == k { 0x8000 } else { 0 });
                        if !chain(&mut seg, p, from, (i + 1) * ps / k / 8 * 8) { return }
                    }
                }
                _ => { let from = 4 * uni(4) as usize; starts.push(from as u16); if !chain(&mut seg, p, from, ps) { return } }
            }
        }
        let mut w = W::new(big, true);
        let (symbols, imports) = (0x400usize, 0x200usize);
        let iformat = 1 + uni(3) as u32;
        let ni = uni(6) as u32;
        w.u32(0).u32(32).u32(imports as u32).u32(symbols as u32).u32(ni).u32(iformat).u32(0).u32(0);
        // segments: some without fixups
        let ns = 1 + uni(4) as usize;
        let which = uni(ns as u64) as usize;
        let at = 4 + 4 * ns + 8;
        w.u32(ns as u32);
        for i in 0..ns { w.u32(if i == which { at as u32 } else { 0 }); }
        w.pad(32 + at);
        w.u32((22 + 2 * (starts.len() + extra.len())) as u32).u16(ps as u16).u16(f).u64(0x4000).u32(0).u16(np as u16);
        for s in starts.iter().chain(&extra) { w.u16(*s); }
        w.pad(imports);
        let mut names = vec![];
        let mut iwant = vec![];
        for i in 0..ni {
            names.push(0);
            let weak = uni(2) == 1;
            let o = if weak { names.len() } else { names.len() - 1 } as u64;
            let name: Vec<u8> = if weak { (0..uni(5)).map(|k| b'a' + k as u8 + i as u8).collect() } else { vec![] };
            names.extend_from_slice(&name);
            let ord = match uni(3) { 0 => -(uni(4) as i64), 1 => uni(100) as i64, _ => uni(if iformat == 3 { 0xfff0 } else { 0xf0 }) as i64 };
            let add = num() as i64;
            let add = match iformat {
                1 => { w.u32(((ord as u64 & 0xff) | (weak as u64) << 8 | o << 9) as u32); 0 }
                2 => { w.u32(((ord as u64 & 0xff) | (weak as u64) << 8 | o << 9) as u32).u32(add as u32); add as i32 as i64 }
                _ => { w.u64((ord as u64 & 0xffff) | (weak as u64) << 16 | (uni(0x8000) << 17) | o << 32).u64(add as u64); add }
            };
            iwant.push((ord, weak, add, name));
        }
        names.push(0);
        w.pad(symbols).bytes(&names);
        let (d, seg) = (leak(&w.b), leak(&seg));
        let c = DyldChainedFixups::<E>::parse(e, d);
        ensure!(c.is_ok(), "a well-formed header is accepted");
        let c = c.unwrap();
        let mut it = c.segments(e).unwrap();
        let s = it.next();
        ensure!(matches!(s, Ok(Some(ref s)) if s.index() as usize == which), "the segment that has fixups");
        let s = s.unwrap().unwrap();
        let mut n = 0;
        for x in s.fixups(e, va, seg) {
            ensure!(x.is_ok(), "a well-formed chain is followed");
            let (at, x) = x.unwrap();
            ensure!(n < want.len() && want[n].0 == at, "every word of every chain, in order");
            ensure!(same(&x, &want[n].1), "what the word says");
            n += 1;
        }
        ensure!(n == want.len(), "no fixup is lost");
        ensure!(matches!(it.next(), Ok(None)), "no other segment");
        let mut n = 0;
        for i in c.imports(e).unwrap() {
            ensure!(i.is_ok() && n < iwant.len(), "an import");
            let (i, (ord, weak, add, name)) = (i.unwrap(), &iwant[n]);
            ensure!(i64::from(i.dylib.0) == *ord && i.weak_import == *weak && i.addend == *add && i.name == &name[..], "what the import says");
            n += 1;
        }
        ensure!(n == iwant.len(), "no import is lost");
        reach!(want.len() > 3 && ni > 1, "chains");
    }

    // ---- rebase and bind opcodes ----
    const NAMES: [&[u8]; 3] = [b"_a", b"_printf", b""];
    #[derive(Clone, Copy, PartialEq, Debug)]
    struct B { seg: u8, off: u64, kind: u8, dylib: i64, name: &'static [u8], flags: u8, add: i64 }
    /// Opcodes, and what an interpreter of their description makes of them: the locations, and whether an error follows.
    fn rebase_stream(b: &mut Vec<u8>, ps: u64) -> (Vec<(u8, u64, u8)>, bool) {
        let (mut out, mut seg, mut kind, mut off) = (vec![], None, None, 0u64);
        if uni(8) != 0 { b.extend_from_slice(&[0x11, 0x20]); uleb(b, 0); seg = Some(0); kind = Some(1); }
        for _ in 0..uni(12) {
            let i = uni(16) as u8;
            let (n, skip) = match uni(12) {
                0 => { b.push(i); return (out, false) }
                1 => { b.push(0x10 | i); kind = Some(i); continue }
                2 => { b.push(0x20 | i); off = num(); uleb(b, off); seg = Some(i); continue }
                3 | 4 => { let v = num(); b.push(0x30 | i); uleb(b, v); off = off.wrapping_add(v); continue }
                5 => { b.push(0x40 | i); off = off.wrapping_add(i as u64 * ps); continue }
                6 | 7 => { b.push(0x50 | i); (i as u64, 0) }
                8 => { let n = uni(20); b.push(0x60 | i); uleb(b, n); (n, 0) }
                9 => { let v = num(); b.push(0x70 | i); uleb(b, v); (1, v) }
                10 => { let (n, v) = (uni(20), num()); b.push(0x80 | i); uleb(b, n); uleb(b, v); (n, v) }
                _ => if uni(10) == 0 { b.push(0x90 + (uni(7) << 4) as u8 | i); return (out, true) } else { continue },
            };
            for _ in 0..n {
                let (Some(s), Some(k)) = (seg, kind) else { return (out, true) };
                out.push((s, off, k));
                off = off.wrapping_add(ps).wrapping_add(skip);
            }
        }
        if uni(10) == 0 { b.push([0x2f, 0x30, 0x60, 0x70, 0x80][uni(5) as usize]); if uni(2) == 0 { b.push(0x80) } return (out, true) }
        (out, false)
    }
    fn bind_stream(b: &mut Vec<u8>, ps: u64, which: usize) -> (Vec<B>, bool) {
        struct S { seg: Option<u8>, kind: Option<u8>, dylib: Option<i64>, name: Option<(&'static [u8], u8)>, off: u64, add: i64 }
        let fresh = || S { seg: None, kind: if which == 0 { None } else { Some(1) }, dylib: if which == 1 { Some(-3) } else { None }, name: None, off: 0, add: 0 };
        let (mut out, mut s) = (vec![], fresh());
        if uni(8) != 0 { b.extend_from_slice(&[0x51, 0x12, 0x71, 0, 0x40, b'x', 0]); s.seg = Some(1); s.kind = Some(1); s.dylib = Some(2); s.name = Some((b"x", 0)); }
        for _ in 0..uni(14) {
            let i = uni(16) as u8;
            let (n, skip) = match uni(16) {
                0 => { b.push(i); if which == 2 { s = fresh(); continue } return (out, false) }
                1 => { b.push(0x10 | i); s.dylib = Some(i as i64); continue }
                2 => { let v = num(); b.push(0x20 | i); uleb(b, v); if v > i32::MAX as u64 { return (out, true) } s.dylib = Some(v as i64); continue }
                3 => { b.push(0x30 | i); s.dylib = Some(if i == 0 { 0 } else { i as i64 - 16 }); continue }
                4 | 5 => { let n = NAMES[uni(3) as usize]; b.push(0x40 | i); b.extend_from_slice(n); b.push(0); s.name = Some((n, i)); continue }
                6 => { b.push(0x50 | i); s.kind = Some(i); continue }
                7 => { let v = num() as i64; b.push(0x60 | i); sleb(b, v); s.add = v; continue }
                8 => { b.push(0x70 | i); s.off = num(); uleb(b, s.off); s.seg = Some(i); continue }
                9 => { let v = num(); b.push(0x80 | i); uleb(b, v); s.off = s.off.wrapping_add(v); continue }
                10 | 11 => { b.push(0x90 | i); (1, 0) }
                12 => { let v = num(); b.push(0xa0 | i); uleb(b, v); (1, v) }
                13 => { b.push(0xb0 | i); (1, i as u64 * ps) }
                14 => { let (n, v) = (uni(12), num()); b.push(0xc0 | i); uleb(b, n); uleb(b, v); (n, v) }
                _ => if uni(10) == 0 { b.push(0xd0 + (uni(3) << 4) as u8 | i); return (out, true) } else { continue },
            };
            for _ in 0..n {
                let (Some(seg), Some(kind), Some(dylib), Some((name, flags))) = (s.seg, s.kind, s.dylib, s.name) else { return (out, true) };
                out.push(B { seg, off: s.off, kind, dylib, name, flags, add: s.add });
                s.off = s.off.wrapping_add(ps).wrapping_add(skip);
            }
        }
        if uni(10) == 0 { b.push([0x20, 0x40, 0x60, 0x70, 0x80, 0xc0][uni(6) as usize]); if uni(2) == 0 { b.push(0x80) } return (out, true) }
        (out, false)
    }
    pub fn opcodes() {
        let big = uni(4) == 0;
        let e = if big { E::Big } else { E::Little };
        let ps = [4u8, 8][uni(2) as usize];
        let mut d = vec![0u8; uni(5) as usize];
        let mut at = vec![];
        let mut streams = [vec![], vec![], vec![], vec![]];
        let r = rebase_stream(&mut streams[0], ps.into());
        let b: Vec<_> = (0..3).map(|i| bind_stream(&mut streams[i + 1], ps.into(), i)).collect();
        for s in &streams { at.push((d.len(), s.len())); d.extend_from_slice(s); if uni(2) == 0 { d.push(0x90) } }
        at.push((0, 0));
        let mut w = W::new(big, true);
        w.u32(0x22).u32(48);
        for (o, n) in at { range(&mut w, o, n); }
        let c = leak(&w.b);
        let c = object::pod::from_bytes::<macho::DyldInfoCommand<E>>(c).unwrap().0;
        let d = leak(&d);
        let mut n = 0;
        let mut bad = false;
        for x in c.rebases(e, d, ps).unwrap() {
            match x {
                Ok(x) => { ensure!(n < r.0.len() && (x.segment_index, x.segment_offset, x.kind.0) == r.0[n], "a rebase"); n += 1 }
                Err(_) => bad = true,
            }
        }
        ensure!(n == r.0.len(), "no rebase is lost");
        ensure!(bad == r.1, "an error is reported, and only then");
        for i in 0..3 {
            let it = match i { 0 => c.binds(e, d, ps), 1 => c.weak_binds(e, d, ps), _ => c.lazy_binds(e, d, ps) };
            let (mut n, mut bad) = (0, false);
            for x in it.unwrap() {
                match x {
                    Ok(x) => {
                        let x = B { seg: x.segment_index, off: x.segment_offset, kind: x.kind.0, dylib: x.dylib.0.into(), name: NAMES.iter().chain(&[&b"x"[..]]).find(|n| **n == x.symbol).unwrap(), flags: x.flags.0, add: x.addend };
                        ensure!(n < b[i].0.len() && x == b[i].0[n], "a bind");
                        n += 1
                    }
                    Err(_) => bad = true,
                }
            }
            ensure!(n == b[i].0.len(), "no bind is lost");
            ensure!(bad == b[i].1, "an error is reported, and only then");
        }
        reach!(r.0.len() > 5, "rebases");
    }

    // ---- exports ----
    struct Node { at: usize, term: Option<(u64, Vec<u8>, (u64, u64, Vec<u8>))>, kids: Vec<(Vec<u8>, usize)> }
    pub fn exports() {
        let n = 1 + uni(9) as usize;
        let mut nodes: Vec<Node> = vec![];
        for i in 0..n {
            let term = if uni(3) == 0 { None } else {
                let kind = uni(3);
                let flags = [0u64, 8, 16][kind as usize] | uni(4) | if uni(3) == 0 { 4 } else { 0 } | if uni(6) == 0 { 32 } else { 0 } | if kind == 1 && uni(5) == 0 { 16 } else { 0 };
                let (a, b, name) = (num(), num(), NAMES[uni(3) as usize].to_vec());
                let mut t = vec![];
                uleb(&mut t, flags);
                uleb(&mut t, a);
                match kind { 0 => {} 1 => { t.extend_from_slice(&name); t.push(0) } _ => uleb(&mut t, b) }
                if uni(4) == 0 { t.push(7); }
                Some((flags, t, (a, if kind == 2 { b } else { 0 }, if kind == 1 { name } else { vec![] })))
            };
            let mut kids: Vec<(Vec<u8>, usize)> = vec![];
            for k in i + 1..n { if kids.len() < 4 && (k == i + 1 || uni(4) == 0) { kids.push(((0..uni(4)).map(|_| b'a' + uni(26) as u8).collect(), k)); } }
            nodes.push(Node { at: 0, term, kids });
        }
        // sometimes an edge back to a node above
        let cycle = n > 2 && uni(6) == 0;
        if cycle { let (a, b) = (1 + uni(n as u64 - 1) as usize, uni(n as u64) as usize); nodes[a].kids.push((b"c".to_vec(), b.min(a))); }
        // the root first, the others anywhere after
        let mut order: Vec<usize> = (1..n).collect();
        for i in (1..order.len()).rev() { order.swap(i, uni(i as u64 + 1) as usize); }
        let mut at = 0x90 + uni(40) as usize;
        let size = |x: &Node| 1 + x.term.as_ref().map_or(0, |t| t.1.len() + if t.1.len() > 127 { 1 } else { 0 }) + 1 + x.kids.iter().map(|k| k.0.len() + 3).sum::<usize>();
        for &i in &order { nodes[i].at = at; at += size(&nodes[i]) + if uni(4) == 0 { uni(9) as usize } else { 0 }; }
        let mut d = vec![0xeeu8; at];
        for i in 0..n {
            let x = &nodes[i];
            let mut b = vec![];
            match &x.term { None => b.push(0), Some(t) => { b.push(t.1.len() as u8); b.extend_from_slice(&t.1) } }
            b.push(x.kids.len() as u8);
            for (s, k) in &x.kids { b.extend_from_slice(s); b.push(0); let a = nodes[*k].at; b.push(a as u8 | 0x80); b.push((a >> 7) as u8); }
            if i == 0 && b.len() > 0x90 || x.at + b.len() > d.len() || d.len() > 0x3fff { return }
            d[x.at..x.at + b.len()].copy_from_slice(&b);
        }
        // a walk in preorder
        fn walk(nodes: &[Node], i: usize, path: &mut Vec<usize>, name: &mut Vec<u8>, out: &mut Vec<(Vec<u8>, usize)>) -> bool {
            if path.contains(&i) { return false }
            path.push(i);
            if nodes[i].term.is_some() { out.push((name.clone(), i)); }
            for (s, k) in &nodes[i].kids {
                let n = name.len();
                name.extend_from_slice(s);
                if !walk(nodes, *k, path, name, out) { return false }
                name.truncate(n);
            }
            path.pop();
            out.len() < 2000
        }
        let mut want = vec![];
        let whole = walk(&nodes, 0, &mut vec![], &mut vec![], &mut want);
        if want.len() >= 2000 { return }
        let big = uni(4) == 0;
        let e = if big { E::Big } else { E::Little };
        let mut w = W::new(big, true);
        w.u32(0x8000_0033).u32(16).u32(3).u32(d.len() as u32);
        let mut file = vec![1, 2, 3];
        file.extend_from_slice(&d);
        if uni(2) == 0 { file.push(4); }
        let file = leak(&file);
        let c = object::pod::from_bytes::<macho::LinkeditDataCommand<E>>(leak(&w.b)).unwrap().0;
        let (mut n, mut bad) = (0, false);
        for x in c.exports_trie(e, file).unwrap() {
            let Ok(x) = x else { bad = true; break };
            ensure!(n < want.len(), "no export is made up");
            let (name, i) = &want[n];
            let (flags, _, (a, b, im)) = nodes[*i].term.as_ref().unwrap();
            ensure!(x.name() == &name[..], "the name: the edges on the way");
            ensure!(x.flags().0 == *flags, "the flags");
            ensure!(match x.data() {
                ExportData::Regular { address } => flags & 24 == 0 && address == a,
                ExportData::Reexport { dylib_ordinal, import_name } => flags & 8 != 0 && dylib_ordinal == a && import_name == &&im[..],
                ExportData::StubAndResolver { stub_address, resolver_address } => flags & 24 == 16 && stub_address == a && resolver_address == b,
            }, "the terminal data");
            ensure!({ let v = x.into_name(); v == *name }, "the name");
            n += 1;
        }
        ensure!(n == want.len() && bad != whole, "every export once, and an error where the trie runs in circles");
        reach!(want.len() > 3, "exports");
        // function starts
        let (mut b, mut want, mut a) = (vec![], vec![], num());
        let base = a;
        let mut fails = false;
        for _ in 0..uni(20) {
            let v = num();
            uleb(&mut b, v);
            if v == 0 { for _ in 0..uni(4) { b.push(uni(256) as u8) } break }
            match a.checked_add(v) { Some(x) => { a = x; want.push(x) } None => { fails = true; break } }
        }
        let mut w = W::new(big, true);
        w.u32(0x26).u32(16).u32(0).u32(b.len() as u32);
        b.push(3);
        let c = object::pod::from_bytes::<macho::LinkeditDataCommand<E>>(leak(&w.b)).unwrap().0;
        let (mut n, mut bad) = (0, false);
        for x in c.function_starts(e, leak(&b), base).unwrap() {
            let Ok(x) = x else { bad = true; break };
            ensure!(n < want.len() && x == want[n], "a function start");
            n += 1;
        }
        ensure!(n == want.len() && bad == fails, "no function is lost");
    }

    // ---- shared-cache slides ----
    pub fn slides() {
        let sv = [2u32, 3, 5][uni(3) as usize];
        let (ps, np) = (0x40usize, 1 + uni(5) as usize);
        let map = 0x800 + 0x40 * uni(4) as usize;
        let mut page = vec![0u8; ps * np + 16];
        let shift = 40 + 8 * uni(2) as u32;
        let mask = 0xffu64 << shift;
        let add = num();
        let (mut starts, mut extras, mut want) = (vec![], vec![], vec![]);
        let mut chain = |page: &mut Vec<u8>, p: usize, from: usize, to: usize| {
            let mut at = from;
            let unit = if sv == 2 { 4 } else { 8 };
            loop {
                let step = 8 + unit * uni(3) as usize;
                let more = uni(4) != 0 && at + step + 8 <= to;
                let v = if uni(5) == 0 { 0 } else { uni(u64::MAX) };
                let k = if more { (step / unit) as u64 } else { 0 };
                let w = match sv {
                    2 => v & !mask | k << shift,
                    3 => v & !(0x7ff << 51) | k << 51,
                    _ => v & !(0x7ff << 52) | k << 52,
                };
                page[p * ps + at..][..8].copy_from_slice(&w.to_le_bytes());
                let says = match sv {
                    2 => if v & !mask == 0 { None } else { Some(((v & !mask).wrapping_add(add), None)) },
                    3 => Some(if w >> 63 == 1 { (bits(w, 0, 32).wrapping_add(add), Some((bits(w, 49, 2), bits(w, 32, 16), bits(w, 48, 1) == 1))) } else { (bits(w, 0, 43) | bits(w, 43, 8) << 56, None) }),
                    _ => Some(if w >> 63 == 1 { (bits(w, 0, 34).wrapping_add(add), Some((2 * bits(w, 51, 1), bits(w, 34, 16), bits(w, 50, 1) == 1))) } else { (bits(w, 0, 34).wrapping_add(add) | bits(w, 34, 8) << 56, None) }),
                };
                if let Some((v, a)) = says { want.push(((p * ps + at) as u64, v, a)); }
                if !more { return }
                at += step;
            }
        };
        for p in 0..np {
            let from = 4 * uni(4) as usize;
            match uni(4) {
                0 => starts.push(if sv == 2 { 0x4000 } else { 0xffff }),
                1 if sv == 2 => {
                    starts.push(0x8000 | extras.len() as u16);
                    let k = 1 + uni(3) as usize;
                    for i in 0..k {
                        let from = i * ps / k / 8 * 8;
                        extras.push((from / 4) as u16 | if i + 1 == k { 0x8000 } else { 0 });
                        chain(&mut page, p, from, (i + 1) * ps / k / 8 * 8);
                    }
                }
                _ => { starts.push(if sv == 2 { from / 4 } else { from } as u16); chain(&mut page, p, from, ps) }
            }
        }
        let mut w = W::new(false, true);
        w.bytes(b"dyld_v1  arm64e\0").u32(0x1d0).u32(1).u32(0x400).u32(0).u64(0x1000);
        w.pad(0x138).u32(0x300).u32(1);
        w.pad(0x1c0).u32(0x400).u32(0);
        w.pad(0x300);
        w.u64(0x1000).u64((ps * np) as u64).u64(map as u64).u64(0x600).u64(0x100).u64(0).u32(3).u32(1);
        w.pad(0x600).u32(sv).u32(ps as u32);
        let gap = 4 * uni(3) as u32;
        match sv {
            2 => {
                w.u32(40 + gap).u32(np as u32).u32(40 + gap + 2 * np as u32).u32(extras.len() as u32).u64(mask).u64(add);
                w.pad(0x600 + 40 + gap as usize);
            }
            _ => { w.u32(np as u32).u32(0).u64(add); }
        }
        for s in starts.iter().chain(&extras) { w.u16(*s); }
        w.pad(map).bytes(&page);
        let d = leak(&w.b);
        let c = DyldCache::<E>::parse(d, &[]).unwrap();
        let mut maps = c.mappings();
        let m = maps.next();
        ensure!(m.is_some() && maps.next().is_none(), "the mapping");
        let m = m.unwrap();
        ensure!(m.data().map_or(false, |b| b == &page[..ps * np]), "its bytes");
        let mut n = 0;
        for r in m.relocations().unwrap() {
            ensure!(r.is_ok(), "a well-formed chain is followed");
            let r = r.unwrap();
            let a = r.auth.map(|a| (match a.key { macho::PtrauthKey::IA => 0, macho::PtrauthKey::IB => 1, macho::PtrauthKey::DA => 2, macho::PtrauthKey::DB => 3 }, u64::from(a.diversity), a.addr_div));
            ensure!(n < want.len() && (r.offset, r.value, a) == want[n], "every pointer of every chain, in order");
            n += 1;
        }
        ensure!(n == want.len(), "no pointer is lost");
        reach!(want.len() > 3, "pointers");
    }
}
natives! {
    /// Tables built from what they are to say.
    fn exact() { match uni(4) { 0 => low::chains(), 1 => low::opcodes(), 2 => low::exports(), _ => low::slides() } }
}
