use vstd::prelude::*;
verus! {
// The symbol table of an archive, for every kind, size and content: how many symbols there are,
// which name and which member each of them has.
#[derive(Debug)]
pub struct Error { pub n: u8 }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ArchiveKind { Unknown, Gnu, Gnu64, Bsd, Bsd64, Coff, AixBig, Zos }
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s.last() as nat + 256 * be(s.drop_last()) } }
pub open spec fn nul(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] == 0 { 0 } else { 1 + nul(s.drop_first()) }
}

// ---- the types that C02 and C03 decide ----
pub struct BE;
pub struct LE;
pub trait Num: Sized { spec fn bytes(self) -> Seq<u8>; spec fn width() -> nat; }
pub struct U16<E> { pub b: [u8; 2], pub e: E }
pub struct U32<E> { pub b: [u8; 4], pub e: E }
pub struct U64<E> { pub b: [u8; 8], pub e: E }
impl<E> Num for U16<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 2 } }
impl<E> Num for U32<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 4 } }
impl<E> Num for U64<E> { open spec fn bytes(self) -> Seq<u8> { self.b@ } open spec fn width() -> nat { 8 } }
impl<N: Num> Num for [N; 2] {
    open spec fn bytes(self) -> Seq<u8> { self@[0].bytes() + self@[1].bytes() }
    open spec fn width() -> nat { 2 * N::width() }
}
impl U16<LE> { #[verifier::external_body] fn get(&self, e: LE) -> (r: u16) ensures r as nat == le(self.b@) { unimplemented!() } }
impl U32<LE> { #[verifier::external_body] fn get(&self, e: LE) -> (r: u32) ensures r as nat == le(self.b@) { unimplemented!() } }
impl U64<LE> { #[verifier::external_body] fn get(&self, e: LE) -> (r: u64) ensures r as nat == le(self.b@) { unimplemented!() } }
impl U32<BE> { #[verifier::external_body] fn get_be(&self) -> (r: u32) ensures r as nat == be(self.b@) { unimplemented!() } }
impl U64<BE> { #[verifier::external_body] fn get_be(&self) -> (r: u64) ensures r as nat == be(self.b@) { unimplemented!() } }
/// A slice of numbers as they are in the file.
pub open spec fn are<T: Num>(r: Seq<T>, b: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).bytes() == b.subrange(i * T::width() as int, (i + 1) * T::width() as int)
}
pub struct Bytes<'data>(pub &'data [u8]);
impl<'data> Bytes<'data> {
    #[verifier::external_body]
    fn read<T: Num>(&mut self) -> (r: Result<&'data T, ()>)
        ensures r.is_ok() == (old(self).0@.len() >= T::width()),
            r.is_ok() ==> r.unwrap().bytes() == old(self).0@.take(T::width() as int) && final(self).0@ == old(self).0@.skip(T::width() as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_slice<T: Num>(&mut self, count: usize) -> (r: Result<&'data [T], ()>)
        ensures r.is_ok() == (old(self).0@.len() >= count * T::width()),
            r.is_ok() ==> r.unwrap()@.len() == count && are(r.unwrap()@, old(self).0@.take((count * T::width()) as int)) && final(self).0@ == old(self).0@.skip((count * T::width()) as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_bytes(&mut self, count: usize) -> (r: Result<Bytes<'data>, ()>)
        ensures r.is_ok() == (old(self).0@.len() >= count),
            r.is_ok() ==> r.unwrap().0@ == old(self).0@.take(count as int) && final(self).0@ == old(self).0@.skip(count as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_string(&mut self) -> (r: Result<&'data [u8], ()>)
        ensures r.is_ok() == (nul(old(self).0@) < old(self).0@.len()),
            r.is_ok() ==> r.unwrap()@ == old(self).0@.take(nul(old(self).0@)) && final(self).0@ == old(self).0@.skip(nul(old(self).0@) + 1),
            r.is_err() ==> final(self).0@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn read_string_at(&self, offset: usize) -> (r: Result<&'data [u8], ()>)
        ensures ({ let s = self.0@.skip(offset as int);
            &&& r.is_ok() == (offset <= self.0@.len() && nul(s) < s.len())
            &&& r.is_ok() ==> r.unwrap()@ == s.take(nul(s)) })
    { unimplemented!() }
}
pub trait ReadRef<'data>: Copy {
    spec fn bytes(self) -> Seq<u8>;
    fn read_bytes_at(self, offset: u64, size: u64) -> (r: Result<&'data [u8], ()>)
        ensures r.is_ok() == (offset + size <= self.bytes().len()),
            r.is_ok() ==> r.unwrap()@ == self.bytes().subrange(offset as int, offset + size);
}
fn as_bytes<'data>(r: Result<&'data [u8], ()>) -> (x: Result<Bytes<'data>, ()>)
    ensures x.is_ok() == r.is_ok(), r.is_ok() ==> x.unwrap().0@ == r.unwrap()@
{ match r { Ok(b) => Ok(Bytes(b)), Err(e) => Err(e) } }
/// `slice::Iter`.
pub struct Iter<'data, T> { pub left: Ghost<Seq<T>>, pub s: &'data [T] }
impl<'data, T> Iter<'data, T> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'data T>)
        ensures r.is_some() == (old(self).left@.len() > 0),
            r.is_some() ==> *r.unwrap() == old(self).left@[0] && final(self).left@ == old(self).left@.skip(1),
            r.is_none() ==> final(self).left@ == old(self).left@
    { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.left@.len() && r.1 == Some(r.0) { unimplemented!() }
}
fn iter<'data, T>(s: &'data [T]) -> (r: Iter<'data, T>) ensures r.left@ == s@ { Iter { left: Ghost(s@), s } }
fn get<'data, T>(s: &'data [T], i: usize) -> (r: Option<&'data T>) ensures r.is_some() == (i < s@.len()), r.is_some() ==> *r.unwrap() == s@[i as int] { if i < s.len() { Some(&s[i]) } else { None } }
fn minus_one(x: u16) -> (r: u16) ensures r as int == if x == 0 { 65535 } else { x - 1 } { if x == 0 { 65535 } else { x - 1 } }
global size_of usize == 8;
pub struct ArchiveOffset(pub u64);
pub struct ArchiveSymbol<'data> { pub name: &'data [u8], pub offset: ArchiveOffset }
fn symbol<'data>(r: Result<&'data [u8], ()>, offset: u64) -> (x: Result<ArchiveSymbol<'data>, Error>)
    ensures x.is_ok() == r.is_ok(), r.is_ok() ==> x.unwrap().name@ == r.unwrap()@ && x.unwrap().offset.0 == offset
{ match r { Ok(name) => Ok(ArchiveSymbol { name, offset: ArchiveOffset(offset) }), Err(_) => Err(Error { n: 0 }) } }
fn both<'data>(m: Option<&'data U32<LE>>, r: Result<&'data [u8], ()>) -> (x: Result<ArchiveSymbol<'data>, Error>)
    ensures x.is_ok() == (m.is_some() && r.is_ok()), x.is_ok() ==> x.unwrap().name@ == r.unwrap()@ && x.unwrap().offset.0 as nat == le(m.unwrap().b@)
{ match m { Some(m) => match r { Ok(name) => Ok(ArchiveSymbol { name, offset: ArchiveOffset(m.get(LE) as u64) }), Err(_) => Err(Error { n: 0 }) }, None => Err(Error { n: 0 }) } }
#[allow(inconsistent_fields)]
pub enum SymbolIteratorInternal<'data> {
    None,
    Gnu { offsets: Iter<'data, U32<BE>>, names: Bytes<'data> },
    Gnu64 { offsets: Iter<'data, U64<BE>>, names: Bytes<'data> },
    Bsd { offsets: Iter<'data, [U32<LE>; 2]>, names: Bytes<'data> },
    Bsd64 { offsets: Iter<'data, [U64<LE>; 2]>, names: Bytes<'data> },
    Coff { members: &'data [U32<LE>], indices: Iter<'data, U16<LE>>, names: Bytes<'data> },
}
use SymbolIteratorInternal as S;

// ---- the table ----
/// A prefix number of entries, what is behind them.
pub open spec fn parts(k: ArchiveKind, t: Seq<u8>) -> (nat, Seq<u8>) {
    match k {
        ArchiveKind::Gnu => (be(t.take(4)), t.skip(4)),
        ArchiveKind::Gnu64 => (be(t.take(8)), t.skip(8)),
        ArchiveKind::Bsd => (le(t.take(4)) / 8, t.skip(4)),
        ArchiveKind::Bsd64 => (le(t.take(8)) / 16, t.skip(8)),
        _ => (le(t.take(4)), t.skip(4)),
    }
}
/// What the table starts with: the symbols' entries and where their names are.
pub open spec fn starts<'data>(k: ArchiveKind, t: Seq<u8>, s: S<'data>) -> bool {
    let (n, x) = parts(k, t);
    match k {
        ArchiveKind::Gnu => s is Gnu && s->Gnu_offsets.left@.len() == n && are(s->Gnu_offsets.left@, x.take((n * 4) as int))
            && s->Gnu_names.0@ == x.skip((n * 4) as int),
        ArchiveKind::Gnu64 => s is Gnu64 && s->Gnu64_offsets.left@.len() == n && are(s->Gnu64_offsets.left@, x.take((n * 8) as int))
            && s->Gnu64_names.0@ == x.skip((n * 8) as int),
        ArchiveKind::Bsd => ({ let y = x.skip((n * 8) as int); let z = le(y.take(4));
            s is Bsd && s->Bsd_offsets.left@.len() == n && are(s->Bsd_offsets.left@, x.take((n * 8) as int)) && s->Bsd_names.0@ == y.skip(4).take(z as int) }),
        ArchiveKind::Bsd64 => ({ let y = x.skip((n * 16) as int); let z = le(y.take(8));
            s is Bsd64 && s->Bsd64_offsets.left@.len() == n && are(s->Bsd64_offsets.left@, x.take((n * 16) as int)) && s->Bsd64_names.0@ == y.skip(8).take(z as int) }),
        ArchiveKind::Coff => ({ let y = x.skip((n * 4) as int); let c = le(y.take(4));
            s is Coff && s->Coff_members@.len() == n && are(s->Coff_members@, x.take((n * 4) as int)) && s->Coff_indices.left@.len() == c
            && are(s->Coff_indices.left@, y.skip(4).take((c * 2) as int)) && s->Coff_names.0@ == y.skip(4).skip((c * 2) as int) }),
        _ => s is None,
    }
}
/// The parts of the table are there.
pub open spec fn whole(k: ArchiveKind, t: Seq<u8>) -> bool {
    let (n, x) = parts(k, t);
    match k {
        ArchiveKind::Gnu => t.len() >= 4 && x.len() >= n * 4,
        ArchiveKind::Gnu64 => t.len() >= 8 && x.len() >= n * 8,
        ArchiveKind::Bsd => t.len() >= 4 && x.len() >= n * 8 + 4 && x.len() >= n * 8 + 4 + le(x.skip((n * 8) as int).take(4)),
        ArchiveKind::Bsd64 => t.len() >= 8 && x.len() >= n * 16 + 8 && x.len() >= n * 16 + 8 + le(x.skip((n * 16) as int).take(8)),
        ArchiveKind::Coff => t.len() >= 4 && x.len() >= n * 4 + 4 && x.len() >= n * 4 + 4 + le(x.skip((n * 4) as int).take(4)) * 2,
        _ => true,
    }
}
/// A symbol with the next string as its name.
pub open spec fn named<'data>(r: Result<ArchiveSymbol<'data>, Error>, member: Option<nat>, names: Seq<u8>, after: Seq<u8>) -> bool {
    let n = nul(names);
    &&& r.is_ok() == (member.is_some() && n < names.len())
    &&& r.is_ok() ==> r.unwrap().name@ == names.take(n) && r.unwrap().offset.0 == member.unwrap()
    &&& after == if n < names.len() { names.skip(n + 1) } else { Seq::empty() }
}
pub open spec fn named_at<'data>(r: Result<ArchiveSymbol<'data>, Error>, member: nat, at: nat, names: Seq<u8>) -> bool {
    let s = names.skip(at as int);
    &&& r.is_ok() == (at <= names.len() && nul(s) < s.len())
    &&& r.is_ok() ==> r.unwrap().name@ == s.take(nul(s)) && r.unwrap().offset.0 == member
}
/// One step of the walk.
pub open spec fn steps<'data>(s: S<'data>, r: Option<Result<ArchiveSymbol<'data>, Error>>, f: S<'data>) -> bool {
    match s {
        S::None => r.is_none() && f is None,
        S::Gnu { offsets, names } => f is Gnu && if offsets.left@.len() == 0 { r.is_none() && f->Gnu_offsets.left@ == offsets.left@ } else {
            r.is_some() && named(r.unwrap(), Some(be(offsets.left@[0].b@)), names.0@, f->Gnu_names.0@) && f->Gnu_offsets.left@ == offsets.left@.skip(1) },
        S::Gnu64 { offsets, names } => f is Gnu64 && if offsets.left@.len() == 0 { r.is_none() && f->Gnu64_offsets.left@ == offsets.left@ } else {
            r.is_some() && named(r.unwrap(), Some(be(offsets.left@[0].b@)), names.0@, f->Gnu64_names.0@) && f->Gnu64_offsets.left@ == offsets.left@.skip(1) },
        S::Bsd { offsets, names } => f is Bsd && f->Bsd_names.0@ == names.0@ && if offsets.left@.len() == 0 { r.is_none() && f->Bsd_offsets.left@ == offsets.left@ } else {
            r.is_some() && named_at(r.unwrap(), le(offsets.left@[0]@[1].b@), le(offsets.left@[0]@[0].b@), names.0@) && f->Bsd_offsets.left@ == offsets.left@.skip(1) },
        S::Bsd64 { offsets, names } => f is Bsd64 && f->Bsd64_names.0@ == names.0@ && if offsets.left@.len() == 0 { r.is_none() && f->Bsd64_offsets.left@ == offsets.left@ } else {
            r.is_some() && named_at(r.unwrap(), le(offsets.left@[0]@[1].b@), le(offsets.left@[0]@[0].b@), names.0@) && f->Bsd64_offsets.left@ == offsets.left@.skip(1) },
        S::Coff { members, indices, names } => f is Coff && f->Coff_members@ == members@ && if indices.left@.len() == 0 { r.is_none() && f->Coff_indices.left@ == indices.left@ } else {
            // members are counted from one; zero means none of them
            let i = if le(indices.left@[0].b@) == 0 { 65535 } else { le(indices.left@[0].b@) - 1 };
            r.is_some() && named(r.unwrap(), if i < members@.len() { Some(le(members@[i].b@)) } else { None }, names.0@, f->Coff_names.0@) && f->Coff_indices.left@ == indices.left@.skip(1) },
    }
}

// ---- /repo ----
pub struct ArchiveSymbolIterator<'data>(SymbolIteratorInternal<'data>);
impl<'data> ArchiveSymbolIterator<'data> {
//@FN file=read/archive.rs name=new in=ArchiveSymbolIterator<
//@SUBST data.read_bytes_at(offset, size).map(Bytes)? ==> as_bytes(data.read_bytes_at(offset, size))?
//@SUBST .get(BE) ==> .get_be()
//@SUBST offsets.iter() ==> iter(offsets)
//@SUBST indices.iter() ==> iter(indices)
//@SPEC ensures offset + size > data.bytes().len() ==> r.is_err(),
    offset + size <= data.bytes().len() ==> ({ let t = data.bytes().subrange(offset as int, offset + size);
        &&& r.is_ok() == whole(kind, t)
        &&& r.is_ok() ==> starts(kind, t, r.unwrap().0) }),
//@END
//@FN file=read/archive.rs name=next in=Iterator~for~ArchiveSymbolIterator
//@SUBST Option<Self::Item> ==> Option<Result<ArchiveSymbol<'data>, Error>>
//@SUBST .get(BE) ==> .get_be()
//@SUBST names .read_string() .read_error("Missing archive symbol name") .map(|name| ArchiveSymbol { name, offset: ArchiveOffset(offset.into()), }), ==> symbol(names.read_string(), offset as u64),
//@SUBST names .read_string() .read_error("Missing archive symbol name") .map(|name| ArchiveSymbol { name, offset: ArchiveOffset(offset), }), ==> symbol(names.read_string(), offset),
//@SUBST names .read_string_at(entry[0].get(LE) as usize) .read_error("Invalid archive symbol name offset") .map(|name| ArchiveSymbol { name, offset: ArchiveOffset(entry[1].get(LE).into()), }), ==> symbol(names.read_string_at(entry[0].get(LE) as usize), entry[1].get(LE) as u64),
//@SUBST names .read_string_at(entry[0].get(LE) as usize) .read_error("Invalid archive symbol name offset") .map(|name| ArchiveSymbol { name, offset: ArchiveOffset(entry[1].get(LE)), }), ==> symbol(names.read_string_at(entry[0].get(LE) as usize), entry[1].get(LE)),
//@SUBST indices.next()?.get(LE).wrapping_sub(1) ==> minus_one(indices.next()?.get(LE))
//@SUBST members .get(index as usize) .read_error("Invalid archive symbol member index"); ==> get(*members, index as usize);
//@SUBST names .read_string() .read_error("Missing archive symbol name"); ==> names.read_string();
//@SUBST Some(member.and_then(|member| { name.map(|name| ArchiveSymbol { name, offset: ArchiveOffset(member.get(LE).into()), }) })) ==> Some(both(member, name))
//@SPEC ensures steps(old(self).0, r, final(self).0)
//@END
}
}
fn main() {}
