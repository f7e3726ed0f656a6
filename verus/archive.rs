use vstd::prelude::*;
verus! {
// Archive member headers: numbers, names and extents, for every file and every member offset.
#[derive(Debug)]
pub struct Error { pub n: u8 }

// ---- what the bytes mean ----
/// A number field: characters up to the first blank or the end, digits only, below 2^64.
pub open spec fn num(d: Seq<u8>, radix: u32, blank: u8, zero: u8) -> Option<nat> {
    if d.len() > 0 && d[0] == blank { None } else { val(d, 0, 0, radix, blank, zero) }
}
pub open spec fn val(d: Seq<u8>, i: int, acc: nat, radix: u32, blank: u8, zero: u8) -> Option<nat>
    decreases d.len() - i
{
    if i < 0 || i >= d.len() || d[i] == blank { Some(acc) }
    else if !(zero <= d[i] && d[i] - zero < radix) { None }
    else { let a = acc * radix as nat + (d[i] - zero) as nat; if a > u64::MAX { None } else { val(d, i + 1, a, radix, blank, zero) } }
}
pub open spec fn dec(d: Seq<u8>) -> Option<nat> { num(d, 10, 32, 48) }
pub open spec fn edec(d: Seq<u8>) -> Option<nat> { num(d, 10, 64, 240) }
pub open spec fn same(r: Option<u64>, s: Option<nat>) -> bool {
    match s { Some(n) => r.is_some() && r.unwrap() as nat == n, None => r.is_none() }
}
/// Index of the first `a` or `b`; the length when there is none.
pub open spec fn first(s: Seq<u8>, a: u8, b: u8) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] == a || s[0] == b { 0 } else { 1 + first(s.drop_first(), a, b) }
}
pub open spec fn until(s: Seq<u8>, a: u8) -> Seq<u8> { s.take(first(s, a, a)) }
/// A name of the names table: ends at a NUL, or at a slash and a newline.
pub open spec fn sysv(digits: Seq<u8>, names: Seq<u8>) -> Option<Seq<u8>> {
    match dec(digits) {
        None => None,
        Some(o) => if o > names.len() { None } else {
            let s = names.skip(o as int);
            let n = first(s, 10, 0);
            if n >= s.len() { None }
            else if s[n] == 0 { Some(s.take(n)) }
            else if n >= 1 && s[n - 1] == 47 { Some(s.take(n - 1)) }
            else { None }
        }
    }
}
/// name, offset of the contents, their size, offset of the next member, the header
pub type M = (Seq<u8>, nat, nat, nat, Seq<u8>);
pub open spec fn round(n: nat) -> nat { if n > u64::MAX { n } else if n % 2 == 1 && n < u64::MAX { n + 1 } else { n } }
/// A name in front of the contents.
pub open spec fn inline(d: Seq<u8>, at: nat, size: nat, len: Option<nat>) -> Option<(Seq<u8>, nat, nat)> {
    match len {
        None => None,
        Some(n) => if n > size || at + n > d.len() { None }
            else { Some((until(d.subrange(at as int, (at + n) as int), 0), at + n, (size - n) as nat)) }
    }
}
pub open spec fn digit(c: u8) -> bool { 48 <= c && c <= 57 }
pub open spec fn edigit(c: u8) -> bool { 240 <= c && c <= 249 }
pub open spec fn special(n: Seq<u8>) -> bool { n == seq![47u8] || n == seq![47u8, 47u8] || n == seq![47u8, 83u8, 89u8, 77u8, 54u8, 52u8, 47u8] }
/// Skipping the contents: whole, padded to even sizes.
pub open spec fn after(at: nat, size: nat) -> nat { if size % 2 == 1 && at + size < u64::MAX { at + size + 1 } else { at + size } }
pub open spec fn cmember(d: Seq<u8>, o: nat, names: Seq<u8>, thin: bool) -> Option<M> {
    if o + 60 > d.len() { None } else {
        let h = d.subrange(o as int, o as int + 60);
        let n = h.subrange(0, 16);
        if !(h[58] == 96 && h[59] == 10) { None } else {
        match dec(h.subrange(48, 58)) { None => None, Some(size) => {
            let at = o + 60;
            let found =
                if n[0] == 47 && digit(n[1]) { match sysv(n.skip(1), names) { None => None, Some(x) => Some((x, at, size)) } }
                else if n[0] == 35 && n[1] == 49 && n[2] == 47 && digit(n[3]) { inline(d, at, size, dec(n.skip(3))) }
                else if n[0] == 47 { Some((until(n, 32), at, size)) }
                else if first(n, 47, 47) < 16 { Some((until(n, 47), at, size)) }
                else { Some((until(n, 32), at, size)) };
            match found { None => None, Some(x) =>
                // an ordinary member of a thin archive has no contents
                if thin && !special(x.0) { Some((x.0, 0nat, x.2, at, h)) }
                else if at + size > u64::MAX { None }
                else { Some((x.0, x.1, x.2, after(at, size), h)) } }
        } } }
    }
}
pub open spec fn zmember(d: Seq<u8>, o: nat) -> Option<M> {
    if o + 60 > d.len() { None } else {
        let h = d.subrange(o as int, o as int + 60);
        let n = h.subrange(0, 16);
        if !(h[58] == 0x79 && h[59] == 0x15) { None } else {
        match edec(h.subrange(48, 58)) { None => None, Some(size) => {
            let at = o + 60;
            let found = if n[0] == 0x7b && n[1] == 0xf1 && n[2] == 0x61 && edigit(n[3]) { inline(d, at, size, edec(n.skip(3))) }
                else { Some((until(n, 64), at, size)) };
            match found { None => None, Some(x) => if at + size > u64::MAX { None } else { Some((x.0, x.1, x.2, after(at, size), h)) } }
        } } }
    }
}
pub open spec fn amember(d: Seq<u8>, o: nat) -> Option<M> {
    if o + 112 > d.len() { None } else {
        let h = d.subrange(o as int, o as int + 112);
        match dec(h.subrange(108, 112)) { None => None, Some(n) => if o + 112 + n > d.len() { None } else {
            let e = o + 112 + n;
            let t = if e % 2 == 1 && e < u64::MAX { e + 1 } else { e };
            if t + 2 > d.len() || !(d[t as int] == 96 && d[t as int + 1] == 10) { None } else {
            match dec(h.subrange(0, 20)) { None => None, Some(size) => Some((d.subrange(o as int + 112, e as int), t + 2, size, 0nat, h)) } }
        } }
    }
}

// ---- external functions: assumed contracts ----
/// `char::to_digit` on a Latin-1 character, for the radixes used here.
#[verifier::external_body]
fn to_digit(c: u8, radix: u32) -> (r: Option<u32>)
    ensures radix <= 10 ==> r == if 48 <= c && c - 48 < radix { Some((c - 48) as u32) } else { None::<u32> }
{ (c as char).to_digit(radix) }
fn is_digit(c: u8) -> (r: bool) ensures r == digit(c) { 48 <= c && c <= 57 }
#[verifier::external_body]
fn memchr(n: u8, s: &[u8]) -> (r: Option<usize>)
    ensures r.is_some() == (first(s@, n, n) < s@.len()), r.is_some() ==> r.unwrap() == first(s@, n, n) && s@[r.unwrap() as int] == n, 0 <= first(s@, n, n) <= s@.len()
{ unimplemented!() }
#[verifier::external_body]
fn memchr2(a: u8, b: u8, s: &[u8]) -> (r: Option<usize>)
    ensures r.is_some() == (first(s@, a, b) < s@.len()), r.is_some() ==> r.unwrap() == first(s@, a, b) && (s@[r.unwrap() as int] == a || s@[r.unwrap() as int] == b), 0 <= first(s@, a, b) <= s@.len()
{ unimplemented!() }
/// `read_bytes`, `read` of a header: the contract that C03 decides for every reader.
pub trait ReadRef<'data>: Copy {
    spec fn bytes(self) -> Seq<u8>;
    fn read_bytes(self, offset: &mut u64, size: u64) -> (r: Result<&'data [u8], ()>)
        ensures r.is_ok() == (*old(offset) + size <= self.bytes().len()),
            r.is_ok() ==> r.unwrap()@ == self.bytes().subrange(*old(offset) as int, *old(offset) + size) && *final(offset) == *old(offset) + size;
    fn read_bytes_at(self, offset: u64, size: u64) -> (r: Result<&'data [u8], ()>)
        ensures r.is_ok() == (offset + size <= self.bytes().len()),
            r.is_ok() ==> r.unwrap()@ == self.bytes().subrange(offset as int, offset + size);
    fn read_header(self, offset: &mut u64) -> (r: Result<&'data Header, ()>)
        ensures r.is_ok() == (*old(offset) + 60 <= self.bytes().len()),
            r.is_ok() ==> r.unwrap().is(self.bytes().subrange(*old(offset) as int, *old(offset) + 60)) && *final(offset) == *old(offset) + 60;
    fn read_aix(self, offset: &mut u64) -> (r: Result<&'data AixHeader, ()>)
        ensures r.is_ok() == (*old(offset) + 112 <= self.bytes().len()),
            r.is_ok() ==> r.unwrap().is(self.bytes().subrange(*old(offset) as int, *old(offset) + 112)) && *final(offset) == *old(offset) + 112;
}
pub struct Header { pub name: [u8; 16], pub date: [u8; 12], pub uid: [u8; 6], pub gid: [u8; 6], pub mode: [u8; 8], pub size: [u8; 10], pub terminator: [u8; 2] }
impl Header {
    pub open spec fn is(self, b: Seq<u8>) -> bool {
        self.name@ == b.subrange(0, 16) && self.date@ == b.subrange(16, 28) && self.uid@ == b.subrange(28, 34) && self.gid@ == b.subrange(34, 40) && self.mode@ == b.subrange(40, 48) && self.size@ == b.subrange(48, 58) && self.terminator@ == b.subrange(58, 60)
    }
}
pub struct AixHeader { pub size: [u8; 20], pub nxtmem: [u8; 20], pub prvmem: [u8; 20], pub date: [u8; 12], pub uid: [u8; 12], pub gid: [u8; 12], pub mode: [u8; 12], pub namlen: [u8; 4] }
impl AixHeader {
    pub open spec fn is(self, b: Seq<u8>) -> bool { self.size@ == b.subrange(0, 20) && self.date@ == b.subrange(60, 72) && self.uid@ == b.subrange(72, 84) && self.gid@ == b.subrange(84, 96) && self.mode@ == b.subrange(96, 108) && self.namlen@ == b.subrange(108, 112) }
}
fn or(a: Option<usize>, b: Option<usize>) -> (r: Option<usize>) ensures r == if a.is_some() { a } else { b } { match a { Some(x) => Some(x), None => b } }
fn unwrap_or(a: Option<usize>, b: usize) -> (r: usize) ensures r == if a.is_some() { a.unwrap() } else { b } { match a { Some(x) => x, None => b } }
trait ReadError<T>: Sized {
    spec fn got(self) -> Option<T>;
    fn read_error(self, e: &'static str) -> (r: Result<T, Error>)
        ensures r.is_ok() == self.got().is_some(), r.is_ok() ==> r.unwrap() == self.got().unwrap();
}
impl<T> ReadError<T> for Option<T> {
    closed spec fn got(self) -> Option<T> { self }
    #[verifier::external_body]
    fn read_error(self, e: &'static str) -> Result<T, Error> { unimplemented!() }
}
impl<T> ReadError<T> for Result<T, ()> {
    closed spec fn got(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
    #[verifier::external_body]
    fn read_error(self, e: &'static str) -> Result<T, Error> { unimplemented!() }
}
#[verifier::external_body]
fn head<'a>(s: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= s@.len(), ensures r@ == s@.take(n as int) { &s[..n] }
#[verifier::external_body]
fn tail<'a>(s: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= s@.len(), ensures r@ == s@.skip(n as int) { &s[n..] }
#[verifier::external_body]
fn some_tail<'a>(s: &'a [u8], n: usize) -> (r: Option<&'a [u8]>) ensures r.is_some() == (n <= s@.len()), r.is_some() ==> r.unwrap()@ == s@.skip(n as int) { s.get(n..) }
#[verifier::external_body]
fn slash(a: &[u8]) -> (r: bool) ensures r == (a@ == seq![47u8]) { a == &[47u8] }
#[verifier::external_body]
fn slashes(a: &[u8]) -> (r: bool) ensures r == (a@ == seq![47u8, 47u8]) { a == &[47u8, 47u8] }
#[verifier::external_body]
fn sym64(a: &[u8]) -> (r: bool) ensures r == (a@ == seq![47u8, 83u8, 89u8, 77u8, 54u8, 52u8, 47u8]) { a == &[47u8, 83u8, 89u8, 77u8, 54u8, 52u8, 47u8] }
#[verifier::external_body]
fn ok_or(a: Option<u64>) -> (r: Result<u64, ()>) ensures r.is_ok() == a.is_some(), r.is_ok() ==> r.unwrap() == a.unwrap() { a.ok_or(()) }
fn narrow(a: u64) -> (r: Result<usize, ()>) ensures r == Ok::<usize, ()>(a as usize) { Ok(a as usize) }
#[verifier::external_body]
fn minus(a: u64, b: u64) -> (r: Result<u64, ()>) ensures r.is_ok() == (a >= b), r.is_ok() ==> r.unwrap() == a - b { a.checked_sub(b).ok_or(()) }
#[verifier::external_body]
fn ok_slice<'a>(a: Option<&'a [u8]>) -> (r: Result<&'a [u8], ()>) ensures r.is_ok() == a.is_some(), r.is_ok() ==> r.unwrap() == a.unwrap() { a.ok_or(()) }
#[verifier::external_body]
fn ok_index(a: Option<usize>) -> (r: Result<usize, ()>) ensures r.is_ok() == a.is_some(), r.is_ok() ==> r.unwrap() == a.unwrap() { a.ok_or(()) }
global size_of usize == 8;

// ---- /repo ----
//@FN file=read/archive.rs name=parse_u64_digits
//@SUBST if let [b' ', ..] = digits ==> if digits.len() > 0 && digits[0] == b' '
//@SUBST (c as char).to_digit(radix) ==> to_digit(c, radix)
//@SUBST u64::from(radix) ==> (radix as u64)
//@SUBST u64::from(x) ==> (x as u64)
//@SUBST for &c in digits ==> for c in digits
//@SPEC requires radix == 8 || radix == 10, ensures same(r, num(digits@, radix, 32, 48)),
//@LOOP 0 vec invariant it0 <= src0@.len(), src0@ == digits@, radix == 8 || radix == 10, digits@.len() == 0 || digits@[0] != 32,
    num(digits@, radix, 32, 48) == val(digits@, it0 as int, result as nat, radix, 32, 48),
    decreases src0@.len() - it0,
//@BODY 0 proof { reveal_with_fuel(val, 2); assert((result as nat) * (radix as nat) == result * (radix as u64)); }
//@END
//@FN file=read/archive.rs name=is_ebcdic_digit
//@SUBST matches!(byte, 0xF0..=0xF9) ==> (0xf0 <= byte && byte <= 0xf9)
//@SPEC ensures r == edigit(byte)
//@END
//@FN file=read/archive.rs name=ebcdic_to_digit
//@SUBST matches!(byte, 0xF0..=0xF7) ==> (0xf0 <= byte && byte <= 0xf7)
//@SUBST matches!(byte, 0xF0..=0xF9) ==> (0xf0 <= byte && byte <= 0xf9)
//@SPEC requires radix == 8 || radix == 10, ensures r == if 240 <= byte && byte - 240 < radix { Some((byte - 240) as u8) } else { None::<u8> }
//@END
//@FN file=read/archive.rs name=parse_u64_ebcdic_digits
//@SUBST if let [EBCDIC_SPACE, ..] = digits ==> if digits.len() > 0 && digits[0] == 64
//@SUBST c == EBCDIC_SPACE ==> c == 64
//@SUBST u64::from(radix) ==> (radix as u64)
//@SUBST u64::from(x) ==> (x as u64)
//@SUBST for &c in digits ==> for c in digits
//@SPEC requires radix == 8 || radix == 10, ensures same(r, num(digits@, radix, 64, 240)),
//@LOOP 0 vec invariant it0 <= src0@.len(), src0@ == digits@, radix == 8 || radix == 10, digits@.len() == 0 || digits@[0] != 64,
    num(digits@, radix, 64, 240) == val(digits@, it0 as int, result as nat, radix, 64, 240),
    decreases src0@.len() - it0,
//@BODY 0 proof { reveal_with_fuel(val, 2); assert((result as nat) * (radix as nat) == result * (radix as u64)); }
//@END
//@FN file=read/archive.rs name=parse_sysv_extended_name
//@SUBST parse_u64_digits(digits, 10).ok_or(()) ==> ok_or(parse_u64_digits(digits, 10))
//@SUBST offset.try_into().map_err(|_| ()) ==> narrow(offset)
//@SUBST names.get(offset..).ok_or(()) ==> ok_slice(some_tail(names, offset))
//@SUBST memchr::memchr2(b'\n', b'\0', name_data).ok_or(()) ==> ok_index(memchr2(10, 0, name_data))
//@SUBST &name_data[..len - 1] ==> head(name_data, len - 1)
//@SUBST &name_data[..len] ==> head(name_data, len)
//@SPEC ensures r.is_ok() == sysv(digits@, names@).is_some(), r.is_ok() ==> r.unwrap()@ == sysv(digits@, names@).unwrap(),
//@END
//@FN file=read/archive.rs name=parse_bsd_extended_name
//@SUBST parse_u64_digits(digits, 10).ok_or(()) ==> ok_or(parse_u64_digits(digits, 10))
//@SUBST size.checked_sub(len).ok_or(()) ==> minus(*size, len)
//@SUBST memchr::memchr( ==> memchr(
//@SUBST b'\0' ==> 0
//@SUBST &name_data[..len] ==> head(name_data, len)
//@SPEC ensures ({
    let n = dec(digits@);
    &&& r.is_ok() == (n.is_some() && n.unwrap() <= *old(size) && *old(offset) + n.unwrap() <= data.bytes().len())
    &&& r.is_ok() ==> *final(offset) == *old(offset) + n.unwrap() && *final(size) == *old(size) - n.unwrap()
        && r.unwrap()@ == until(data.bytes().subrange(*old(offset) as int, *old(offset) + n.unwrap()), 0)
    })
//@END
//@FN file=read/archive.rs name=zos_parse_bsd_extended_name
//@SUBST parse_u64_ebcdic_digits(digits, 10).ok_or(()) ==> ok_or(parse_u64_ebcdic_digits(digits, 10))
//@SUBST size.checked_sub(len).ok_or(()) ==> minus(*size, len)
//@SUBST memchr::memchr( ==> memchr(
//@SUBST b'\0' ==> 0
//@SUBST &name_data[..len] ==> head(name_data, len)
//@SPEC ensures ({
    let n = edec(digits@);
    &&& r.is_ok() == (n.is_some() && n.unwrap() <= *old(size) && *old(offset) + n.unwrap() <= data.bytes().len())
    &&& r.is_ok() ==> *final(offset) == *old(offset) + n.unwrap() && *final(size) == *old(size) - n.unwrap()
        && r.unwrap()@ == until(data.bytes().subrange(*old(offset) as int, *old(offset) + n.unwrap()), 0)
    })
//@END
pub enum MemberHeader<'data> { Common(&'data Header), AixBig(&'data AixHeader), Zos(&'data Header) }
pub struct ArchiveMember<'data> { header: MemberHeader<'data>, name: &'data [u8], offset: u64, size: u64 }
impl<'data> ArchiveMember<'data> {
    pub closed spec fn is(self, m: M) -> bool { self.name@ == m.0 && self.offset == m.1 && self.size == m.2 && (match self.header { MemberHeader::Common(h) => h.is(m.4), MemberHeader::AixBig(h) => h.is(m.4), MemberHeader::Zos(h) => h.is(m.4) }) }
    pub closed spec fn kind(self) -> int { match self.header { MemberHeader::Common(h) => 0, MemberHeader::AixBig(h) => 1, MemberHeader::Zos(h) => 2 } }
//@FN file=read/archive.rs name=parse in=ArchiveMember<
//@SUBST read::Result<Self> ==> Result<Self, Error>
//@SUBST data.read::<archive::Header>(offset) ==> data.read_header(offset)
//@SUBST header.terminator != archive::TERMINATOR ==> header.terminator[0] != 96 || header.terminator[1] != 10
//@SUBST Err(Error("Invalid archive terminator")) ==> Err(Error { n: 0 })
//@SUBST (header.name[1] as char).is_ascii_digit() ==> is_digit(header.name[1])
//@SUBST (header.name[3] as char).is_ascii_digit() ==> is_digit(header.name[3])
//@SUBST &header.name[..3] == b"#1/" ==> header.name[0] == 35 && header.name[1] == 49 && header.name[2] == 47
//@SUBST &header.name[1..] ==> tail(&header.name, 1)
//@SUBST &header.name[3..] ==> tail(&header.name, 3)
//@SUBST memchr::memchr(b'/', &header.name) .or_else(|| memchr::memchr(b' ', &header.name)) ==> or(memchr(47, &header.name), memchr(32, &header.name))
//@SUBST memchr::memchr( ==> memchr(
//@SUBST &header.name[..name_len] ==> head(&header.name, name_len)
//@SUBST name != b"/" ==> !slash(name)
//@SUBST name != b"//" ==> !slashes(name)
//@SUBST name != b"/SYM64/" ==> !sym64(name)
//@SPEC requires data.bytes().len() <= u64::MAX, ensures ({
    let m = cmember(data.bytes(), *old(offset) as nat, names@, thin);
    &&& r.is_ok() == m.is_some()
    &&& r.is_ok() ==> r.unwrap().is(m.unwrap()) && r.unwrap().kind() == 0 && *final(offset) == m.unwrap().3
    })
//@START proof { assert forall|x: u64| #[trigger] (x & 1) == x % 2 by { assert((x & 1) == x % 2) by (bit_vector); } }
//@END
//@FN file=read/archive.rs name=parse_zos in=ArchiveMember<
//@SUBST read::Result<Self> ==> Result<Self, Error>
//@SUBST data.read::<archive::Header>(offset) ==> data.read_header(offset)
//@SUBST header.terminator != archive::ZOS_TERMINATOR ==> header.terminator[0] != 0x79 || header.terminator[1] != 0x15
//@SUBST Err(Error("Invalid z/OS archive header terminator")) ==> Err(Error { n: 0 })
//@SUBST header.name[..3] == [0x7B, 0xF1, 0x61] ==> header.name[0] == 0x7b && header.name[1] == 0xf1 && header.name[2] == 0x61
//@SUBST &header.name[3..] ==> tail(&header.name, 3)
//@SUBST memchr::memchr(EBCDIC_SPACE, ==> memchr(64,
//@SUBST &header.name[..name_len] ==> head(&header.name, name_len)
//@SPEC requires data.bytes().len() <= u64::MAX, ensures ({
    let m = zmember(data.bytes(), *old(offset) as nat);
    &&& r.is_ok() == m.is_some()
    &&& r.is_ok() ==> r.unwrap().is(m.unwrap()) && r.unwrap().kind() == 2 && *final(offset) == m.unwrap().3
    })
//@START proof { assert forall|x: u64| #[trigger] (x & 1) == x % 2 by { assert((x & 1) == x % 2) by (bit_vector); } }
//@END
//@FN file=read/archive.rs name=parse_aixbig in=ArchiveMember<
//@SUBST read::Result<Self> ==> Result<Self, Error>
//@SUBST data.read::<archive::AixHeader>(&mut offset) ==> data.read_aix(&mut offset)
//@SUBST terminator != archive::TERMINATOR ==> terminator[0] != 96 || terminator[1] != 10
//@SUBST Err(Error("Invalid AIX big archive terminator")) ==> Err(Error { n: 0 })
//@SPEC requires data.bytes().len() <= u64::MAX, ensures ({
    let m = amember(data.bytes(), offset as nat);
    &&& r.is_ok() == m.is_some()
    &&& r.is_ok() ==> r.unwrap().is(m.unwrap()) && r.unwrap().kind() == 1
    })
//@START proof { assert forall|x: u64| #[trigger] (x & 1) == x % 2 by { assert((x & 1) == x % 2) by (bit_vector); } }
//@END
//@FN file=read/archive.rs name=parse_aixbig_index in=ArchiveMember<
//@SUBST read::Result<Self> ==> Result<Self, Error>
//@SUBST archive::AixMemberOffset ==> AixMemberOffset
//@SPEC requires data.bytes().len() <= u64::MAX, ensures ({
    let m = index_member(data.bytes(), index.0@);
    &&& r.is_ok() == m.is_some()
    &&& r.is_ok() ==> r.unwrap().is(m.unwrap())
    })
//@END
//@FN file=read/archive.rs name=date in=ArchiveMember<
//@SPEC ensures match self.header { MemberHeader::Common(h) => same(r, num(h.date@, 10, 32, 48)), MemberHeader::AixBig(h) => same(r, num(h.date@, 10, 32, 48)), MemberHeader::Zos(h) => same(r, num(h.date@, 10, 64, 240)) }
//@END
//@FN file=read/archive.rs name=uid in=ArchiveMember<
//@SPEC ensures match self.header { MemberHeader::Common(h) => same(r, num(h.uid@, 10, 32, 48)), MemberHeader::AixBig(h) => same(r, num(h.uid@, 10, 32, 48)), MemberHeader::Zos(h) => same(r, num(h.uid@, 10, 64, 240)) }
//@END
//@FN file=read/archive.rs name=gid in=ArchiveMember<
//@SPEC ensures match self.header { MemberHeader::Common(h) => same(r, num(h.gid@, 10, 32, 48)), MemberHeader::AixBig(h) => same(r, num(h.gid@, 10, 32, 48)), MemberHeader::Zos(h) => same(r, num(h.gid@, 10, 64, 240)) }
//@END
//@FN file=read/archive.rs name=mode in=ArchiveMember<
//@SPEC ensures match self.header { MemberHeader::Common(h) => same(r, num(h.mode@, 8, 32, 48)), MemberHeader::AixBig(h) => same(r, num(h.mode@, 8, 32, 48)), MemberHeader::Zos(h) => same(r, num(h.mode@, 8, 64, 240)) }
//@END
//@FN file=read/archive.rs name=is_thin in=ArchiveMember<
//@SPEC ensures r == (self.offset == 0)
//@END
//@FN file=read/archive.rs name=data in=ArchiveMember<
//@SUBST read::Result<&'data [u8]> ==> Result<&'data [u8], Error>
//@SUBST Ok(&[]) ==> Ok(empty())
//@SPEC ensures
    self.offset == 0 ==> r.is_ok() && r.unwrap()@.len() == 0,
    self.offset != 0 ==> r.is_ok() == (self.offset + self.size <= data.bytes().len()),
    self.offset != 0 && r.is_ok() ==> r.unwrap()@ == data.bytes().subrange(self.offset as int, self.offset + self.size),
//@END
//@FN file=read/archive.rs name=file_range in=ArchiveMember<
//@SPEC ensures r == (self.offset, self.size)
//@END
//@FN file=read/archive.rs name=name in=ArchiveMember<
//@SPEC ensures r@ == self.name@
//@END
//@FN file=read/archive.rs name=size in=ArchiveMember<
//@SPEC ensures r == self.size
//@END
}
// ---- the members of an archive ----
pub open spec fn index_member(d: Seq<u8>, entry: Seq<u8>) -> Option<M> {
    match dec(entry) { None => None, Some(o) => amember(d, o) }
}
pub struct AixMemberOffset(pub [u8; 20]);
#[verifier::external_body]
fn empty<'a>() -> (r: &'a [u8]) ensures r@.len() == 0 { &[] }
#[verifier::external_body]
fn no_entries<'a>() -> (r: &'a [AixMemberOffset]) ensures r@.len() == 0 { &[] }
#[verifier::external_body]
fn rest<'a>(s: &'a [AixMemberOffset]) -> (r: &'a [AixMemberOffset]) requires s@.len() > 0, ensures r@ == s@.skip(1) { &s[1..] }
#[derive(Clone, Copy)]
pub enum Members<'data> { Common { offset: u64, end_offset: u64 }, AixBig { index: &'data [AixMemberOffset] }, Zos { offset: u64, end_offset: u64 } }
pub struct ArchiveMemberIterator<'data, R: ReadRef<'data>> { data: R, members: Members<'data>, names: &'data [u8], thin: bool }
/// What one member of the walk is.
pub open spec fn gives<'data>(r: Result<ArchiveMember<'data>, Error>, m: Option<M>) -> bool {
    &&& r.is_ok() == m.is_some()
    &&& r.is_ok() ==> r.unwrap().is(m.unwrap())
}
impl<'data, R: ReadRef<'data>> ArchiveMemberIterator<'data, R> {
//@FN file=read/archive.rs name=next in=Iterator~for~ArchiveMemberIterator
//@SUBST Option<Self::Item> ==> Option<Result<ArchiveMember<'data>, Error>>
//@SUBST match **index { [] => None, [ref first, ref rest @ ..] => { *index = rest; ==> if index.len() == 0 { None } else { { let first = &index[0]; *index = rest(*index);
//@SUBST *index = &[]; ==> *index = no_entries();
//@SPEC requires old(self).data.bytes().len() <= u64::MAX, ensures
    final(self).data == old(self).data && final(self).names == old(self).names && final(self).thin == old(self).thin,
    match old(self).members {
        Members::Common { offset, end_offset } =>
            if offset >= end_offset { r.is_none() && final(self).members == old(self).members } else {
                let m = cmember(old(self).data.bytes(), offset as nat, old(self).names@, old(self).thin);
                r.is_some() && gives(r.unwrap(), m)
                && final(self).members == (Members::Common { offset: if m.is_some() { m.unwrap().3 as u64 } else { end_offset }, end_offset })
                && (m.is_some() ==> m.unwrap().3 > offset)
            },
        Members::Zos { offset, end_offset } =>
            if offset >= end_offset { r.is_none() && final(self).members == old(self).members } else {
                let m = zmember(old(self).data.bytes(), offset as nat);
                r.is_some() && gives(r.unwrap(), m)
                && final(self).members == (Members::Zos { offset: if m.is_some() { m.unwrap().3 as u64 } else { end_offset }, end_offset })
                && (m.is_some() ==> m.unwrap().3 > offset)
            },
        Members::AixBig { index } =>
            if index@.len() == 0 { r.is_none() && final(self).members == old(self).members } else {
                let m = index_member(old(self).data.bytes(), index@[0].0@);
                r.is_some() && gives(r.unwrap(), m) && final(self).members is AixBig
                && final(self).members->AixBig_index@ == if m.is_some() { index@.skip(1) } else { Seq::empty() }
            },
    }
//@END
}
#[derive(Clone, Copy)]
pub struct SkipDebugList<R>(pub R);
pub struct ArchiveOffset(pub u64);
pub struct ArchiveFile<'data, R: ReadRef<'data>> { data: SkipDebugList<R>, members: Members<'data>, names: &'data [u8], thin: bool }
impl<'data, R: ReadRef<'data>> ArchiveFile<'data, R> {
//@FN file=read/archive.rs name=members in=>~ArchiveFile<
//@SPEC ensures r.data == self.data.0, r.members == self.members, r.names == self.names, r.thin == self.thin
//@END
//@FN file=read/archive.rs name=member in=>~ArchiveFile<
//@SUBST read::Result<ArchiveMember<'data>> ==> Result<ArchiveMember<'data>, Error>
//@SUBST Err(Error("Invalid archive member offset")) ==> Err(Error { n: 0 })
//@SPEC requires self.data.0.bytes().len() <= u64::MAX, ensures
    match self.members {
        Members::Common { offset, end_offset } => if member.0 < offset || member.0 >= end_offset { r.is_err() }
            else { gives(r, cmember(self.data.0.bytes(), member.0 as nat, self.names@, self.thin)) },
        Members::Zos { offset, end_offset } => if member.0 < offset || member.0 >= end_offset { r.is_err() }
            else { gives(r, zmember(self.data.0.bytes(), member.0 as nat)) },
        Members::AixBig { index } => gives(r, amember(self.data.0.bytes(), member.0 as nat)),
    }
//@END
}
}
fn main() {}
