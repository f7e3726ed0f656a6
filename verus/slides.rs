use vstd::prelude::*;
verus! {
// Shared-cache slide information: which locations of a mapping the chains visit, and what the words there say.
#[derive(Debug)]
pub struct Error(pub &'static str);
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub trait ReadError<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn read_error(self, e: &'static str) -> (r: Result<T>) ensures r.is_ok() == self.good().is_some(), r.is_ok() ==> r.unwrap() == self.good().unwrap();
}
impl<T> ReadError<T> for Option<T> {
    open spec fn good(self) -> Option<T> { self }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Some(v) => Ok(v), None => Err(Error("")) } }
}
// ---- the types that C02 and C03 decide ----
pub trait Endian: Sized + Copy { spec fn big(self) -> bool; }
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s.last() as nat + 256 * be(s.drop_last()) } }
pub open spec fn num(s: Seq<u8>, big: bool) -> nat { if big { be(s) } else { le(s) } }
pub struct U16<E> { pub b: [u8; 2], pub e: core::marker::PhantomData<E> }
pub struct U64<E> { pub b: [u8; 8], pub e: core::marker::PhantomData<E> }
impl<E: Endian> U16<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: u16) ensures r as nat == num(self.b@, e.big()) { unimplemented!() } }
impl<E: Endian> U64<E> { #[verifier::external_body] fn get(&self, e: E) -> (r: u64) ensures r as nat == num(self.b@, e.big()) { unimplemented!() } }
pub trait ReadRef<'data>: Copy {
    spec fn bytes(self) -> Seq<u8>;
    fn read_word<E: Endian>(self, offset: u64) -> (r: Result<&'data U64<E>, ()>)
        ensures r.is_ok() == (offset + 8 <= self.bytes().len()), r.is_ok() ==> r.unwrap().b@ == self.bytes().subrange(offset as int, offset + 8);
}
// The closures of the addition chains, as functions.
pub trait Then: Sized {
    spec fn sum(self) -> Option<int>;
    fn then_add(self, n: u64) -> (r: Option<u64>)
        ensures r.is_some() == (self.sum().is_some() && self.sum().unwrap() + n <= u64::MAX), r.is_some() ==> r.unwrap() as int == self.sum().unwrap() + n;
    fn then_read<'data, E: Endian, R: ReadRef<'data>>(self, data: R) -> (r: Option<&'data U64<E>>)
        ensures r.is_some() == (self.sum().is_some() && self.sum().unwrap() + 8 <= data.bytes().len()), r.is_some() ==> r.unwrap().b@ == data.bytes().subrange(self.sum().unwrap(), self.sum().unwrap() + 8);
}
impl Then for Option<u64> {
    open spec fn sum(self) -> Option<int> { match self { Some(v) => Some(v as int), None => None } }
    fn then_add(self, n: u64) -> (r: Option<u64>) { match self { Some(v) => v.checked_add(n), None => None } }
    fn then_read<'data, E: Endian, R: ReadRef<'data>>(self, data: R) -> (r: Option<&'data U64<E>>) { match self { Some(v) => match data.read_word(v) { Ok(w) => Some(w), Err(_) => None }, None => None } }
}
pub trait Words { spec fn shr_or_zero_spec(self, n: u32) -> u64; fn shr_or_zero(self, n: u32) -> (r: u64) ensures r == self.shr_or_zero_spec(n); }
impl Words for u64 {
    open spec fn shr_or_zero_spec(self, n: u32) -> u64 { if n < 64 { self >> n } else { 0 } }
    fn shr_or_zero(self, n: u32) -> (r: u64) { if n < 64 { self >> n } else { 0 } }
}
pub open spec fn wadd(a: u64, b: u64) -> u64 { if a + b > u64::MAX { (a + b - 0x1_0000_0000_0000_0000) as u64 } else { (a + b) as u64 } }
fn from_u16(a: u16) -> (r: u64) ensures r == a { a as u64 }
fn index(a: u16) -> (r: usize) ensures r == a { a as usize }
global size_of usize == 8;

// ---- what a word says: the fields are decided by C19's and C22's accessor harnesses ----
#[verifier::opaque]
pub open spec fn bits(v: u64, lo: u64, n: u64) -> u64 { (v >> lo) & sub(1u64 << n, 1) }
#[derive(Clone, Copy)] pub struct DyldCacheSlidePointer3(pub u64);
#[derive(Clone, Copy)] pub struct DyldCacheSlidePointer5(pub u64);
impl DyldCacheSlidePointer3 {
    #[verifier::external_body] fn is_auth(&self) -> (r: bool) ensures r == (bits(self.0, 63, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn target(&self) -> (r: u64) ensures r == bits(self.0, 0, 43) { unimplemented!() }
    #[verifier::external_body] fn high8(&self) -> (r: u64) ensures r == bits(self.0, 43, 8) { unimplemented!() }
    #[verifier::external_body] fn runtime_offset(&self) -> (r: u64) ensures r == bits(self.0, 0, 32) { unimplemented!() }
    #[verifier::external_body] fn diversity(&self) -> (r: u16) ensures r as u64 == bits(self.0, 32, 16) { unimplemented!() }
    #[verifier::external_body] fn addr_div(&self) -> (r: bool) ensures r == (bits(self.0, 48, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn key(&self) -> (r: u8) ensures r as u64 == bits(self.0, 49, 2) { unimplemented!() }
    #[verifier::external_body] fn next(&self) -> (r: u64) ensures r == bits(self.0, 51, 11), r < 0x800 { unimplemented!() }
}
impl DyldCacheSlidePointer5 {
    #[verifier::external_body] fn is_auth(&self) -> (r: bool) ensures r == (bits(self.0, 63, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn runtime_offset(&self) -> (r: u64) ensures r == bits(self.0, 0, 34) { unimplemented!() }
    #[verifier::external_body] fn high8(&self) -> (r: u64) ensures r == bits(self.0, 34, 8) { unimplemented!() }
    #[verifier::external_body] fn diversity(&self) -> (r: u16) ensures r as u64 == bits(self.0, 34, 16) { unimplemented!() }
    #[verifier::external_body] fn addr_div(&self) -> (r: bool) ensures r == (bits(self.0, 50, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn key_is_data(&self) -> (r: bool) ensures r == (bits(self.0, 51, 1) == 1) { unimplemented!() }
    #[verifier::external_body] fn next(&self) -> (r: u64) ensures r == bits(self.0, 52, 11), r < 0x800 { unimplemented!() }
}
//@CONSTS file=macho.rs like=DYLD_CACHE_SLIDE_.*
//@ITEM file=macho.rs name=PtrauthKey
//@END
//@ITEM file=read/macho/dyld_cache.rs name=DyldRelocationAuth
//@SUBST macho:: ==> 
//@END
//@ITEM file=read/macho/dyld_cache.rs name=DyldRelocation
//@SUBST macho:: ==> 
//@END
pub open spec fn key(v: u64) -> PtrauthKey { if v == 1 { PtrauthKey::IB } else if v == 2 { PtrauthKey::DA } else if v == 3 { PtrauthKey::DB } else { PtrauthKey::IA } }
pub open spec fn word3(v: u64, add: u64) -> (u64, Option<DyldRelocationAuth>) {
    if bits(v, 63, 1) == 1 { (wadd(bits(v, 0, 32), add), Some(DyldRelocationAuth { key: key(bits(v, 49, 2)), diversity: bits(v, 32, 16) as u16, addr_div: bits(v, 48, 1) == 1 })) }
    else { (bits(v, 0, 43) | bits(v, 43, 8) << 56, None) }
}
pub open spec fn word5(v: u64, add: u64) -> (u64, Option<DyldRelocationAuth>) {
    if bits(v, 63, 1) == 1 { (wadd(bits(v, 0, 34), add), Some(DyldRelocationAuth { key: if bits(v, 51, 1) == 1 { PtrauthKey::DA } else { PtrauthKey::IA }, diversity: bits(v, 34, 16) as u16, addr_div: bits(v, 50, 1) == 1 })) }
    else { (wadd(bits(v, 0, 34), add) | bits(v, 34, 8) << 56, None) }
}
pub enum Step<P> { Bad, Loose, End, Item(nat, u64, Option<DyldRelocationAuth>, P) }
pub open spec fn is_step<P>(s: Step<P>, r: Result<Option<DyldRelocation>>, p: P) -> bool {
    match s {
        Step::Bad => r.is_err(),
        // the tables are damaged: nobody says which of the two
        Step::Loose => r.is_err() || r.unwrap().is_none(),
        Step::End => r.is_ok() && r.unwrap().is_none(),
        Step::Item(o, v, a, q) => r.is_ok() && r.unwrap().is_some() && r.unwrap().unwrap().offset == o && r.unwrap().unwrap().value == v && r.unwrap().unwrap().auth == a && p == q,
    }
}
pub open spec fn raw<E>(t: Seq<U16<E>>) -> Seq<Seq<u8>> { Seq::new(t.len(), |k: int| t[k].b@) }
proof fn page(i: int, n: int) requires 0 <= i < 0xffff_ffff, 0 <= n <= 0xffff_ffff ensures 0 <= i * n <= 0xffff_fffe * 0xffff_ffff { assert(0 <= i * n <= 0xffff_fffe * 0xffff_ffff) by (nonlinear_arith) requires 0 <= i < 0xffff_ffff, 0 <= n <= 0xffff_ffff; }

// ---- versions 3 and 5: one chain per page, in steps of 8 ----
pub struct Map { pub big: bool, pub starts: Seq<Seq<u8>>, pub page_size: nat, pub base: nat, pub data: Seq<u8>, pub add: u64, pub five: bool }
/// Before page `i`, or at a location with page `i` to follow.
pub enum Pos { Page(nat), At(nat, nat) }
pub open spec fn seek(m: Map, i: nat) -> Option<(nat, nat)> decreases m.starts.len() - i {
    if i >= m.starts.len() { None } else {
        let v = num(m.starts[i as int], m.big);
        if v == 0xffff { seek(m, i + 1) } else { Some((i * m.page_size + v, i + 1)) }
    }
}
pub open spec fn visit(m: Map, p: Pos) -> Step<Pos> {
    match (match p { Pos::Page(i) => seek(m, i), Pos::At(o, i) => Some((o, i)) }) {
        None => Step::End,
        Some((o, i)) => if m.base + o + 8 > m.data.len() { Step::Bad } else {
            let w = num(m.data.subrange((m.base + o) as int, (m.base + o + 8) as int), m.big) as u64;
            let (v, a) = if m.five { word5(w, m.add) } else { word3(w, m.add) };
            let n = if m.five { bits(w, 52, 11) } else { bits(w, 51, 11) };
            Step::Item(o, v, a, if n == 0 { Pos::Page(i) } else { Pos::At((o + 8 * n) as nat, i) })
        },
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ITEM file=read/macho/dyld_cache.rs name=RelocationStateV3
//@END
//@ITEM file=read/macho/dyld_cache.rs name=DyldCacheRelocationIteratorV3
//@SUBST E = Endianness, R = &'data [u8]> ==> E, R>
//@END
pub open spec fn map3<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV3<'data, E, R>) -> Map {
    Map { big: i.endian.big(), starts: raw(i.page_starts@), page_size: i.page_size as nat, base: i.mapping_file_offset as nat, data: i.data.bytes(), add: i.auth_value_add, five: false }
}
pub open spec fn pos3<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV3<'data, E, R>) -> Pos {
    match i.state { RelocationStateV3::Start => Pos::Page(i.start_index as nat), RelocationStateV3::Page => Pos::At(i.offset as nat, i.start_index as nat) }
}
/// The tables are counted in 32 bits, and so is the page size.
pub open spec fn wf3<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV3<'data, E, R>) -> bool { i.page_starts@.len() <= 0xffff_ffff && i.page_size <= 0xffff_ffff && i.data.bytes().len() < 0x8000_0000_0000_0000 }
impl<'data, E: Endian, R: ReadRef<'data>> DyldCacheRelocationIteratorV3<'data, E, R> {
    fn starts_at(&self, i: usize) -> (r: Option<&'data U16<E>>) ensures r.is_some() == (i < self.page_starts@.len()), r.is_some() ==> *r.unwrap() == self.page_starts@[i as int] { if i < self.page_starts.len() { Some(&self.page_starts[i]) } else { None } }
//@FN file=read/macho/dyld_cache.rs name=next in=DyldCacheRelocationIteratorV3
//@SUBST macho:: ==> 
//@SUBST self.page_starts.get( ==> self.starts_at(
//@SUBST u64::from( ==> from_u16(
//@SUBST .and_then(|x| self.data.read_at::<U64<E>>(x).ok()) ==> .then_read::<E, R>(self.data)
//@SUBST .mapping_file_offset .checked_add(offset) .then_read ==> .mapping_file_offset.checked_add(offset).then_read
//@START let ghost m = map3(*self);
//@LOOP 0 invariant wf3(*self), map3(*self) == m, m == map3(*old(self)), visit(m, pos3(*self)) == visit(m, pos3(*old(self))),
        self.page_starts == old(self).page_starts, self.endian == old(self).endian, self.data == old(self).data,
    decreases self.page_starts@.len() - self.start_index, (match self.state { RelocationStateV3::Start => 0int, _ => 1int }),
//@BODY 0 proof { if self.start_index < self.page_starts@.len() { page(self.start_index as int, self.page_size as int); } }
//@SPEC requires wf3(*old(self)),
    ensures wf3(*final(self)), map3(*final(self)) == map3(*old(self)), is_step(visit(map3(*old(self)), pos3(*old(self))), r, pos3(*final(self)))
//@END
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ITEM file=read/macho/dyld_cache.rs name=RelocationStateV5
//@END
//@ITEM file=read/macho/dyld_cache.rs name=DyldCacheRelocationIteratorV5
//@SUBST E = Endianness, R = &'data [u8]> ==> E, R>
//@END
pub open spec fn map5<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV5<'data, E, R>) -> Map {
    Map { big: i.endian.big(), starts: raw(i.page_starts@), page_size: i.page_size as nat, base: i.mapping_file_offset as nat, data: i.data.bytes(), add: i.value_add, five: true }
}
pub open spec fn pos5<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV5<'data, E, R>) -> Pos {
    match i.state { RelocationStateV5::Start => Pos::Page(i.start_index as nat), RelocationStateV5::Page => Pos::At(i.offset as nat, i.start_index as nat) }
}
/// The tables are counted in 32 bits, and so is the page size.
pub open spec fn wf5<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV5<'data, E, R>) -> bool { i.page_starts@.len() <= 0xffff_ffff && i.page_size <= 0xffff_ffff && i.data.bytes().len() < 0x8000_0000_0000_0000 }
impl<'data, E: Endian, R: ReadRef<'data>> DyldCacheRelocationIteratorV5<'data, E, R> {
    fn starts_at(&self, i: usize) -> (r: Option<&'data U16<E>>) ensures r.is_some() == (i < self.page_starts@.len()), r.is_some() ==> *r.unwrap() == self.page_starts@[i as int] { if i < self.page_starts.len() { Some(&self.page_starts[i]) } else { None } }
//@FN file=read/macho/dyld_cache.rs name=next in=DyldCacheRelocationIteratorV5
//@SUBST macho:: ==> 
//@SUBST self.page_starts.get( ==> self.starts_at(
//@SUBST u64::from( ==> from_u16(
//@SUBST .and_then(|x| self.data.read_at::<U64<E>>(x).ok()) ==> .then_read::<E, R>(self.data)
//@SUBST .mapping_file_offset .checked_add(offset) .then_read ==> .mapping_file_offset.checked_add(offset).then_read
//@START let ghost m = map5(*self);
//@LOOP 0 invariant wf5(*self), map5(*self) == m, m == map5(*old(self)), visit(m, pos5(*self)) == visit(m, pos5(*old(self))),
        self.page_starts == old(self).page_starts, self.endian == old(self).endian, self.data == old(self).data,
    decreases self.page_starts@.len() - self.start_index, (match self.state { RelocationStateV5::Start => 0int, _ => 1int }),
//@BODY 0 proof { if self.start_index < self.page_starts@.len() { page(self.start_index as int, self.page_size as int); } }
//@SPEC requires wf5(*old(self)),
    ensures wf5(*final(self)), map5(*final(self)) == map5(*old(self)), is_step(visit(map5(*old(self)), pos5(*old(self))), r, pos5(*final(self)))
//@END
}

// ---- version 2: chains in steps of 4, with a mask; a page may have several chains ----
pub struct Map2 { pub big: bool, pub starts: Seq<Seq<u8>>, pub extras: Seq<Seq<u8>>, pub page_size: nat, pub base: nat, pub data: Seq<u8>, pub mask: u64, pub shift: u32, pub add: u64 }
/// Before page `i`, before a further chain of page `i - 1`, or at a location of it, with or without further chains.
pub enum Pos2 { Page(nat), Extra(nat, nat), At(nat, nat, Option<nat>) }
pub open spec fn rank(m: Map2, p: Pos2) -> (nat, nat, nat, nat, nat) {
    let left = |i: nat| if i < m.starts.len() { (m.starts.len() - i) as nat } else { 0 };
    let more = |e: nat| if e < m.extras.len() { (m.extras.len() - e) as nat } else { 0 };
    match p { Pos2::Page(i) => (left(i), 0, 0, 0, 0), Pos2::Extra(i, e) => (left(i), 1, more(e), 0, 0),
        Pos2::At(o, i, e) => (left(i), 1, match e { Some(e) => more(e), None => 0 }, 1, if o < m.data.len() { (m.data.len() - o) as nat } else { 0 }) }
}
pub open spec fn visit2(m: Map2, p: Pos2) -> Step<Pos2> decreases rank(m, p).0, rank(m, p).1, rank(m, p).2, rank(m, p).3, rank(m, p).4 {
    match p {
        Pos2::Page(i) => if i >= m.starts.len() { Step::End } else {
            let v = num(m.starts[i as int], m.big) as u16;
            if v & 0x4000 != 0 { visit2(m, Pos2::Page(i + 1)) }
            else if v & 0x8000 != 0 { visit2(m, Pos2::Extra(i + 1, (v & 0x3fff) as nat)) }
            else { visit2(m, Pos2::At(4 * (v & 0x3fff) as nat, i + 1, None)) }
        },
        Pos2::Extra(i, e) => if e >= m.extras.len() { Step::Loose } else {
            let v = num(m.extras[e as int], m.big) as u16;
            visit2(m, Pos2::At(4 * (v & 0x3fff) as nat, i, if v & 0x8000 != 0 { None } else { Some(e + 1) }))
        },
        Pos2::At(o, i, e) => {
            let at = (i - 1) * m.page_size + o;
            if i == 0 || m.base + at + 8 > m.data.len() { Step::Bad } else {
                let w = num(m.data.subrange(m.base + at, m.base + at + 8), m.big) as u64;
                let n = (w & m.mask).shr_or_zero_spec(m.shift);
                if o + 4 * n > u64::MAX { Step::Bad } else {
                    let q = if n != 0 { Pos2::At((o + 4 * n) as nat, i, e) } else { match e { Some(e) => Pos2::Extra(i, e), None => Pos2::Page(i) } };
                    let v = w & !m.mask;
                    if v != 0 { Step::Item(at as nat, wadd(v, m.add), None, q) } else if o >= m.data.len() { Step::Bad } else { visit2(m, q) }
                }
            }
        },
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ITEM file=read/macho/dyld_cache.rs name=RelocationStateV2
//@END
//@ITEM file=read/macho/dyld_cache.rs name=DyldCacheRelocationIteratorV2
//@SUBST E = Endianness, R = &'data [u8]> ==> E, R>
//@END
pub open spec fn map2<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV2<'data, E, R>) -> Map2 {
    Map2 { big: i.endian.big(), starts: raw(i.page_starts@), extras: raw(i.page_extras@), page_size: i.page_size as nat, base: i.mapping_file_offset as nat, data: i.data.bytes(), mask: i.delta_mask, shift: i.delta_shift, add: i.value_add }
}
pub open spec fn pos2<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV2<'data, E, R>) -> Pos2 {
    match i.state {
        RelocationStateV2::Start => Pos2::Page(i.start_index as nat),
        RelocationStateV2::Extra => Pos2::Extra(i.start_index as nat, i.extra_index as nat),
        RelocationStateV2::Page => Pos2::At(i.offset as nat, i.start_index as nat, None),
        RelocationStateV2::PageExtra => Pos2::At(i.offset as nat, i.start_index as nat, Some(i.extra_index as nat)),
    }
}
pub open spec fn wf2<'data, E: Endian, R: ReadRef<'data>>(i: DyldCacheRelocationIteratorV2<'data, E, R>) -> bool {
    &&& i.page_starts@.len() <= 0xffff_ffff && i.page_extras@.len() <= 0xffff_ffff && i.page_size <= 0xffff_ffff && i.data.bytes().len() < 0x8000_0000_0000_0000
    &&& i.start_index <= i.page_starts@.len()
    &&& i.state != RelocationStateV2::Start ==> i.start_index > 0 && i.page_offset == (i.start_index - 1) * i.page_size
}
impl<'data, E: Endian, R: ReadRef<'data>> DyldCacheRelocationIteratorV2<'data, E, R> {
    fn starts_at(&self, i: usize) -> (r: Option<&'data U16<E>>) ensures r.is_some() == (i < self.page_starts@.len()), r.is_some() ==> *r.unwrap() == self.page_starts@[i as int] { if i < self.page_starts.len() { Some(&self.page_starts[i]) } else { None } }
    fn extras_at(&self, i: usize) -> (r: Option<&'data U16<E>>) ensures r.is_some() == (i < self.page_extras@.len()), r.is_some() ==> *r.unwrap() == self.page_extras@[i as int] { if i < self.page_extras.len() { Some(&self.page_extras[i]) } else { None } }
//@FN file=read/macho/dyld_cache.rs name=next in=DyldCacheRelocationIteratorV2
//@SUBST macho:: ==> 
//@SUBST self.page_starts.get( ==> self.starts_at(
//@SUBST self.page_extras.get( ==> self.extras_at(
//@SUBST u64::from( ==> from_u16(
//@SUBST usize::from( ==> index(
//@SUBST .and_then(|x| x.checked_add(offset)) ==> .then_add(offset)
//@SUBST .and_then(|x| self.data.read_at::<U64<E>>(x).ok()) ==> .then_read::<E, R>(self.data)
//@SUBST next .checked_mul(4) .and_then(|delta| offset.checked_add(delta)) ==> next.checked_mul(4).then_add(offset)
//@SUBST .checked_shr(self.delta_shift) .unwrap_or(0) ==> .shr_or_zero(self.delta_shift)
//@START hide(visit2); let ghost m = map2(*self);
    assert(!0xC000u16 == 0x3fffu16) by (bit_vector);
    assert(forall|x: u16| #[trigger] (x & 0x3fffu16) <= 0x3fff) by (bit_vector);
//@LOOP 0 invariant wf2(*self), map2(*self) == m, m == map2(*old(self)), visit2(m, pos2(*self)) == visit2(m, pos2(*old(self))),
        self.page_starts == old(self).page_starts, self.page_extras == old(self).page_extras, self.endian == old(self).endian, self.data == old(self).data,
        !0xC000u16 == 0x3fffu16, forall|x: u16| #[trigger] (x & 0x3fffu16) <= 0x3fff,
    decreases rank(m, pos2(*self)).0, rank(m, pos2(*self)).1, rank(m, pos2(*self)).2, rank(m, pos2(*self)).3, rank(m, pos2(*self)).4,
//@BODY 0 proof { one(m, pos2(*self)); if self.start_index < self.page_starts@.len() { page(self.start_index as int, self.page_size as int); } if self.start_index > 0 { page(self.start_index - 1, self.page_size as int); } }
//@SPEC requires wf2(*old(self)),
    ensures wf2(*final(self)), map2(*final(self)) == map2(*old(self)), is_step(visit2(map2(*old(self)), pos2(*old(self))), r, pos2(*final(self)))
//@END
}
/// One step of the walk.
pub open spec fn step2(m: Map2, p: Pos2) -> Step<Pos2> {
    match p {
        Pos2::Page(i) => if i >= m.starts.len() { Step::End } else {
            let v = num(m.starts[i as int], m.big) as u16;
            if v & 0x4000 != 0 { visit2(m, Pos2::Page(i + 1)) }
            else if v & 0x8000 != 0 { visit2(m, Pos2::Extra(i + 1, (v & 0x3fff) as nat)) }
            else { visit2(m, Pos2::At(4 * (v & 0x3fff) as nat, i + 1, None)) }
        },
        Pos2::Extra(i, e) => if e >= m.extras.len() { Step::Loose } else {
            let v = num(m.extras[e as int], m.big) as u16;
            visit2(m, Pos2::At(4 * (v & 0x3fff) as nat, i, if v & 0x8000 != 0 { None } else { Some(e + 1) }))
        },
        Pos2::At(o, i, e) => {
            let at = (i - 1) * m.page_size + o;
            if i == 0 || m.base + at + 8 > m.data.len() { Step::Bad } else {
                let w = num(m.data.subrange(m.base + at, m.base + at + 8), m.big) as u64;
                let n = (w & m.mask).shr_or_zero_spec(m.shift);
                if o + 4 * n > u64::MAX { Step::Bad } else {
                    let q = if n != 0 { Pos2::At((o + 4 * n) as nat, i, e) } else { match e { Some(e) => Pos2::Extra(i, e), None => Pos2::Page(i) } };
                    let v = w & !m.mask;
                    if v != 0 { Step::Item(at as nat, wadd(v, m.add), None, q) } else if o >= m.data.len() { Step::Bad } else { visit2(m, q) }
                }
            }
        },
    }
}
proof fn one(m: Map2, p: Pos2) ensures visit2(m, p) == step2(m, p) {}
}
fn main() {}
