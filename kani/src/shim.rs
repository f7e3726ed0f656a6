//! Symbolic inputs under Kani; replayed or generated inputs natively.
//!
//! Under `cfg(kani)`, `any()` is a fresh nondeterministic value.  Without it the same
//! harness body runs as ordinary Rust against the ordinary build of /repo: `any()` then
//! draws from the verifier's counterexample bytes, or from a seeded generator.

pub trait Prim: Copy {
    const SIZE: usize;
    fn from_le(b: &[u8]) -> Self;
    fn sym() -> Self;
}
macro_rules! prim { ($($t:ty),*) => { $(
    impl Prim for $t {
        const SIZE: usize = core::mem::size_of::<$t>();
        fn from_le(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
        #[cfg(kani)]
        fn sym() -> Self { kani::any() }
        #[cfg(not(kani))]
        fn sym() -> Self { unreachable!() }
    }
)* } }
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, isize);

#[cfg(kani)]
#[inline(always)]
pub fn any<T: Prim>() -> T {
    T::sym()
}
#[cfg(kani)]
pub fn assume(c: bool) {
    kani::assume(c)
}
#[cfg(kani)]
pub fn any_array<const N: usize>() -> [u8; N] {
    kani::any()
}

#[cfg(not(kani))]
pub use native::{any, any_array, assume};

pub fn any_bool() -> bool {
    any::<u8>() & 1 == 1
}

/// A value in `lo..hi`.
pub fn any_in(lo: u64, hi: u64) -> u64 {
    let v = any::<u64>();
    assume(lo <= v && v < hi);
    v
}
pub fn any_below(n: usize) -> usize {
    let v = any::<u16>() as usize;
    assume(v < n);
    v
}

/// `ensures`: the clause is one named obligation.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { assert!($c, $($m)*) };
}
/// Reachability guard against vacuous proofs.
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        { let _ = $c; }
    }};
}

/// Upper bound on the length of symbolic-length inputs: any object file that can exist.
pub const MAX_LEN: usize = 1 << 47;

/// An arbitrary byte slice.
///
/// proof mode: symbolic length (< 2^47) and contents, no bound on the number of bytes.
/// bnd mode / native: length <= N.
#[cfg(all(kani, not(feature = "bnd")))]
pub fn any_bytes<const N: usize>() -> &'static [u8] {
    let len: usize = kani::any();
    kani::assume(len < MAX_LEN);
    if len == 0 {
        return &[];
    }
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1));
        kani::assume(!p.is_null());
        core::slice::from_raw_parts(p, len)
    }
}
#[cfg(any(not(kani), feature = "bnd"))]
pub fn any_bytes<const N: usize>() -> &'static [u8] {
    let len: usize = any::<u16>() as usize;
    assume(len <= N);
    let a: &'static mut [u8; N] = Box::leak(Box::new(any_array::<N>()));
    &a[..len]
}

/// `r` is exactly the bytes `off..off+len` of `d`, in place.
pub fn is_at(r: &[u8], d: &[u8], off: usize, len: usize) -> bool {
    r.len() == len && off <= d.len() && len <= d.len() - off
        && (len == 0 || r.as_ptr() as usize == d.as_ptr() as usize + off)
}
/// Made only of bytes of `d`.
pub fn inside(b: &[u8], d: &[u8]) -> bool {
    let (p, q) = (b.as_ptr() as usize, d.as_ptr() as usize);
    b.is_empty() || p >= q && p - q <= d.len() && b.len() <= d.len() - (p - q)
}
/// As `is_at`, for a mutable copy of symbolic bytes.
#[cfg(all(kani, not(feature = "bnd")))]
pub fn any_bytes_mut<const N: usize>() -> &'static mut [u8] {
    let len: usize = kani::any();
    kani::assume(len < MAX_LEN);
    if len == 0 {
        return &mut [];
    }
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1));
        kani::assume(!p.is_null());
        core::slice::from_raw_parts_mut(p, len)
    }
}
#[cfg(any(not(kani), feature = "bnd"))]
pub fn any_bytes_mut<const N: usize>() -> &'static mut [u8] {
    let len: usize = any::<u16>() as usize;
    assume(len <= N);
    let a: &'static mut [u8; N] = Box::leak(Box::new(any_array::<N>()));
    &mut a[..len]
}

/// Bounded in every mode: for functions with data-dependent loops.
pub fn some_bytes<const N: usize>() -> &'static [u8] {
    let len: usize = any::<u16>() as usize;
    assume(len <= N);
    let a: &'static mut [u8; N] = Box::leak(Box::new(any_array::<N>()));
    &a[..len]
}

/// Contract of the external function `memchr::memchr` (trusted, assumed):
/// the index of the first `needle`, or `None` if there is none.
/// In proof mode "no earlier needle" is stated at a single arbitrary witness index which
/// the harness fixes with `witness()`; arbitrary, so it is a statement about every index.
pub static mut WITNESS: usize = 0;
pub fn witness() -> usize {
    let w: usize = any();
    unsafe { WITNESS = w };
    w
}
#[cfg(all(kani, not(feature = "bnd")))]
pub fn memchr_contract(needle: u8, hay: &[u8]) -> Option<usize> {
    let w = unsafe { WITNESS };
    let found: bool = kani::any();
    if found {
        let i: usize = kani::any();
        kani::assume(i < hay.len());
        kani::assume(hay[i] == needle);
        kani::assume(!(w < i) || hay[w] != needle);
        Some(i)
    } else {
        kani::assume(!(w < hay.len()) || hay[w] != needle);
        None
    }
}
#[cfg(any(not(kani), feature = "bnd"))]
pub fn memchr_contract(needle: u8, hay: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < hay.len() {
        if hay[i] == needle {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// The same for `memchr::memchr2`.
#[cfg(all(kani, not(feature = "bnd")))]
pub fn memchr2_contract(n1: u8, n2: u8, hay: &[u8]) -> Option<usize> {
    let w = unsafe { WITNESS };
    let ok = |b: u8| b == n1 || b == n2;
    let found: bool = kani::any();
    if found {
        let i: usize = kani::any();
        kani::assume(i < hay.len());
        kani::assume(ok(hay[i]));
        kani::assume(!(w < i) || !ok(hay[w]));
        Some(i)
    } else {
        kani::assume(!(w < hay.len()) || !ok(hay[w]));
        None
    }
}
#[cfg(any(not(kani), feature = "bnd"))]
pub fn memchr2_contract(n1: u8, n2: u8, hay: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < hay.len() {
        if hay[i] == n1 || hay[i] == n2 { return Some(i); }
        i += 1;
    }
    None
}

/// `RandomState::new` reads the OS random source; any keys do.
#[cfg(kani)]
pub fn fixed_random_state() -> std::collections::hash_map::RandomState {
    unsafe { core::mem::transmute::<(u64, u64), _>((1, 2)) }
}

#[macro_export]
macro_rules! harnesses {
    ($( $(#[doc = $d:literal])* $([$($attr:meta),* $(,)?])? fn $name:ident() $body:block )*) => {
        $( $(#[doc = $d])* pub fn $name() $body )*
        #[cfg(kani)]
        mod k {
            use super::*;
            $( #[kani::proof] $($(#[$attr])*)? fn $name() { super::$name() } )*
        }
        pub static ALL: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
/// Bounded stand-ins that only run natively: every combination of `choose` results is
/// enumerated over the ordinary build of /repo.
#[macro_export]
macro_rules! natives {
    ($( $(#[doc = $d:literal])* fn $name:ident() $body:block )*) => {
        #[cfg(not(kani))]
        pub mod n { use super::*; $( $(#[doc = $d])* pub fn $name() $body )* }
        #[cfg(not(kani))]
        pub static NAT: &[(&str, fn())] = &[$((stringify!($name), n::$name as fn())),*];
        #[cfg(kani)]
        pub static NAT: &[(&str, fn())] = &[];
    };
}
/// One of `0..n`.  Exhaustively enumerated by native stand-ins.
#[cfg(kani)]
pub fn choose(n: usize) -> usize { any_below(n) }
#[cfg(not(kani))]
pub use native::{choose, uni};

#[cfg(not(kani))]
pub mod native {
    use super::Prim;
    use std::cell::RefCell;

    pub struct Rejected;

    pub struct Source {
        pub replay: Option<Vec<u8>>,
        pub pos: usize,
        pub rng: u64,
        pub used: Vec<u8>,
        pub exhausted: bool,
        pub small: bool,
        pub odo: Option<Vec<(u32, u32)>>,
        pub opos: usize,
        pub dom: u64,
    }
    thread_local! {
        pub static SRC: RefCell<Source> = const { RefCell::new(Source {
            replay: None, pos: 0, rng: 1, used: Vec::new(), exhausted: false,
            small: false, dom: 2, odo: None, opos: 0 }) };
    }
    pub fn set_replay(b: Vec<u8>) {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            s.replay = Some(b);
            s.pos = 0;
            s.used.clear();
            s.exhausted = false;
        })
    }
    pub fn set_seed(seed: u64) {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            s.replay = None;
            s.rng = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
            s.used.clear();
        })
    }
    /// Where to keep the draws of the current run, for runs that end the process.
    pub static TRACE: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
    pub static TRACING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    fn trace(u: &[u8]) {
        if TRACING.load(std::sync::atomic::Ordering::Relaxed) {
            if let Some(p) = &*TRACE.lock().unwrap() {
                let h: String = u.iter().map(|x| format!("{x:02x}")).collect();
                std::fs::write(p, h).unwrap();
            }
        }
    }
    pub fn used() -> Vec<u8> {
        SRC.with(|s| s.borrow().used.clone())
    }
    fn next(rng: &mut u64) -> u64 {
        *rng ^= *rng << 13;
        *rng ^= *rng >> 7;
        *rng ^= *rng << 17;
        rng.wrapping_mul(0x2545_f491_4f6c_dd1d)
    }
    fn draw(n: usize, out: &mut Vec<u8>) {
        SRC.with(|s| {
            let s = &mut *s.borrow_mut();
            if let Some(r) = &s.replay {
                for _ in 0..n {
                    match r.get(s.pos) {
                        Some(b) => out.push(*b),
                        None => {
                            s.exhausted = true;
                            out.push(0)
                        }
                    }
                    s.pos += 1;
                }
            } else {
                // Boundary-biased values.
                // About half of the runs draw nearly everything from a tiny domain, so that
                // coincidences between independent values are common.
                let k = next(&mut s.rng) >> 60;
                if s.used.is_empty() {
                    s.small = next(&mut s.rng) >> 62 < 2;
                    s.dom = 2 + next(&mut s.rng) % 7;
                }
                let v: u128 = if s.small && k < 14 { (next(&mut s.rng) % s.dom) as u128 } else { match k {
                    0..=3 => (next(&mut s.rng) % 9) as u128,
                    4..=6 => (next(&mut s.rng) % 70) as u128,
                    7 => u128::MAX,
                    8 => u128::MAX - (next(&mut s.rng) % 64) as u128,
                    9 => 1u128 << (next(&mut s.rng) % (8 * n as u64).max(1)),
                    _ => (next(&mut s.rng) as u128) << 64 | next(&mut s.rng) as u128,
                } };
                out.extend_from_slice(&v.to_le_bytes()[..n.min(16)]);
            }
            s.used.extend_from_slice(out);
            trace(&s.used);
        })
    }
    /// Evenly drawn from `0..n`.
    pub fn uni(n: u64) -> u64 {
        SRC.with(|s| {
            let s = &mut *s.borrow_mut();
            let v = if let Some(r) = &s.replay {
                let mut b = [0; 8];
                for x in &mut b { match r.get(s.pos) { Some(y) => *x = *y, None => s.exhausted = true } s.pos += 1; }
                u64::from_le_bytes(b)
            } else { next(&mut s.rng) % n.max(1) };
            s.used.extend_from_slice(&v.to_le_bytes());
            trace(&s.used);
            v % n.max(1)
        })
    }
    pub fn any<T: Prim>() -> T {
        let mut b = Vec::new();
        draw(T::SIZE, &mut b);
        T::from_le(&b)
    }
    pub fn any_array<const N: usize>() -> [u8; N] {
        let mut a = [0; N];
        let mut i = 0;
        while i < N {
            let mut b = Vec::new();
            draw(1, &mut b);
            a[i] = b[0];
            i += 1;
        }
        a
    }
    pub fn choose(n: usize) -> usize {
        assert!(n > 0 && n < 1 << 32);
        let enumerated = SRC.with(|s| {
            let s = &mut *s.borrow_mut();
            let odo = s.odo.as_mut()?;
            let i = s.opos;
            s.opos += 1;
            if i == odo.len() { odo.push((0, n as u32)); }
            assert!(odo[i].1 == n as u32, "harness is not a function of its choices");
            let v = odo[i].0;
            s.used.extend_from_slice(&v.to_le_bytes());
            trace(&s.used);
            Some(v as usize)
        });
        match enumerated {
            Some(v) => v,
            None => {
                let v = any::<u32>() as usize;
                let replaying = SRC.with(|s| s.borrow().replay.is_some());
                if replaying { assume(v < n); v } else {
                    let r = v % n;
                    SRC.with(|s| {
                        let u = &mut s.borrow_mut().used;
                        let k = u.len() - 4;
                        u[k..].copy_from_slice(&(r as u32).to_le_bytes());
                        trace(u);
                    });
                    r
                }
            }
        }
    }
    /// Start enumerating.
    pub fn odo_start() {
        SRC.with(|s| { let s = &mut *s.borrow_mut(); s.replay = None; s.odo = Some(Vec::new()); s.opos = 0; s.used.clear(); })
    }
    /// Advance to the next combination; false when all have been run.
    pub fn odo_next() -> bool {
        SRC.with(|s| {
            let s = &mut *s.borrow_mut();
            let n = s.opos;
            let o = s.odo.as_mut().unwrap();
            o.truncate(n);
            s.opos = 0;
            s.used.clear();
            while let Some((v, n)) = o.pop() {
                if v + 1 < n { o.push((v + 1, n)); return true; }
            }
            false
        })
    }
    pub fn odo_stop() { SRC.with(|s| s.borrow_mut().odo = None) }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Rejected);
        }
    }
}

/// A map with linear search: the map contract behind the extracted read cache.
pub mod listmap {
    #[derive(Debug)]
    pub struct Map<K, V> { e: Vec<(K, V)> }
    pub enum Entry<'a, K, V> { Occupied(Occ<'a, K, V>), Vacant(Vac<'a, K, V>) }
    pub struct Occ<'a, K, V> { m: &'a mut Map<K, V>, i: usize }
    pub struct Vac<'a, K, V> { m: &'a mut Map<K, V>, k: K }
    impl<K: PartialEq, V> Map<K, V> {
        pub fn new() -> Self { Map { e: Vec::with_capacity(4) } }
        fn find(&self, k: &K) -> Option<usize> {
            let mut i = 0;
            while i < self.e.len() {
                if self.e[i].0 == *k { return Some(i); }
                i += 1;
            }
            None
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
            match self.find(&k) {
                Some(i) => Entry::Occupied(Occ { m: self, i }),
                None => Entry::Vacant(Vac { m: self, k }),
            }
        }
        pub fn get(&self, k: &K) -> Option<&V> {
            match self.find(k) { Some(i) => Some(&self.e[i].1), None => None }
        }
        pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
            match self.find(k) { Some(i) => Some(&mut self.e[i].1), None => None }
        }
        pub fn contains_key(&self, k: &K) -> bool { self.find(k).is_some() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.find(&k) {
                Some(i) => Some(core::mem::replace(&mut self.e[i].1, v)),
                None => { self.e.push((k, v)); None }
            }
        }
        pub fn remove(&mut self, k: &K) -> Option<V> {
            match self.find(k) { Some(i) => Some(self.e.remove(i).1), None => None }
        }
        pub fn len(&self) -> usize { self.e.len() }
        pub fn is_empty(&self) -> bool { self.e.is_empty() }
        pub fn clear(&mut self) { self.e.clear() }
    }
    impl<'a, K, V> Occ<'a, K, V> {
        pub fn into_mut(self) -> &'a mut V { &mut self.m.e[self.i].1 }
        pub fn get(&self) -> &V { &self.m.e[self.i].1 }
    }
    impl<'a, K, V> Vac<'a, K, V> {
        pub fn insert(self, v: V) -> &'a mut V {
            self.m.e.push((self.k, v));
            let n = self.m.e.len();
            &mut self.m.e[n - 1].1
        }
    }
}

/// A record with arbitrary bytes in every field.
#[macro_export]
macro_rules! any_pod {
    ($t:ty) => {{
        let mut v: $t = unsafe { core::mem::MaybeUninit::zeroed().assume_init() };
        object::pod::bytes_of_mut(&mut v).copy_from_slice(&any_array::<{ core::mem::size_of::<$t>() }>());
        v
    }};
}
pub fn any_endian() -> object::Endianness {
    if any_bool() { object::Endianness::Big } else { object::Endianness::Little }
}
/// Where a bounded read of `d` lands: `Some` when inside.
pub fn read_spec(d: &[u8], off: u64, size: u64) -> bool {
    size == 0 || off as u128 + size as u128 <= d.len() as u128
}
/// `r` is exactly the bytes of `d` at `off..off+size`, or empty when `size` is zero.
pub fn is_read(r: &[u8], d: &[u8], off: u64, size: u64) -> bool {
    if size == 0 { r.is_empty() } else { is_at(r, d, off as usize, size as usize) }
}
/// Random draws for native stand-ins.
#[cfg(not(kani))]
pub fn rnd(n: u64) -> u64 { any::<u64>() % n }
