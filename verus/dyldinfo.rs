use vstd::prelude::*;
verus! {
// Rebase and bind opcodes and function starts of a Mach-O image, for every stream.
#[derive(Debug)]
pub struct Error(pub &'static str);
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub trait ReadError<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn read_error(self, e: &'static str) -> (r: Result<T>) ensures r.is_ok() == self.good().is_some(), r.is_ok() ==> r.unwrap() == self.good().unwrap();
}
impl<T> ReadError<T> for Result<T, ()> {
    open spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(Error("")) } }
}
impl<T> ReadError<T> for Option<T> {
    open spec fn good(self) -> Option<T> { self }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Some(v) => Ok(v), None => Err(Error("")) } }
}
// ---- reading: C04 decides LEB128, C01 the strings ----
/// A number and the count of its bytes.
pub uninterp spec fn uleb(s: Seq<u8>) -> Option<(u64, nat)>;
pub uninterp spec fn sleb(s: Seq<u8>) -> Option<(i64, nat)>;
pub open spec fn zero(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == 0 { 0 } else { 1 + zero(s.skip(1)) } }
#[derive(Clone, Copy)]
pub struct Bytes<'data>(pub &'data [u8]);
impl<'data> Bytes<'data> {
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<&'data u8, ()>)
        ensures r.is_ok() == (old(self).0@.len() >= 1), r.is_ok() ==> *r.unwrap() == old(self).0@[0] && final(self).0@ == old(self).0@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_uleb128(&mut self) -> (r: Result<u64, ()>)
        ensures match uleb(old(self).0@) { Some((v, n)) => r == Ok::<u64, ()>(v) && 0 < n <= old(self).0@.len() && final(self).0@ == old(self).0@.skip(n as int), None => r.is_err() }
    { unimplemented!() }
    #[verifier::external_body]
    fn read_sleb128(&mut self) -> (r: Result<i64, ()>)
        ensures match sleb(old(self).0@) { Some((v, n)) => r == Ok::<i64, ()>(v) && 0 < n <= old(self).0@.len() && final(self).0@ == old(self).0@.skip(n as int), None => r.is_err() }
    { unimplemented!() }
    #[verifier::external_body]
    fn read_string(&mut self) -> (r: Result<&'data [u8], ()>)
        ensures ({ let s = old(self).0@; let n = zero(s);
            &&& r.is_ok() == (n < s.len())
            &&& r.is_ok() ==> r.unwrap()@ == s.take(n) && final(self).0@ == s.skip(n + 1) && n >= 0 })
    { unimplemented!() }
    fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { self.0.len() == 0 }
}
#[verifier::external_body]
fn nothing<'data>() -> (r: Bytes<'data>) ensures r.0@ == Seq::<u8>::empty() { Bytes(&[]) }
#[verifier::external_body]
fn no_name<'data>() -> (r: &'data [u8]) ensures r@ == Seq::<u8>::empty() { &[] }
global size_of usize == 8;

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RebaseOpcode(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BindOpcode(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RebaseType(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BindType(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BindSymbolFlags(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BindDylib(pub i32);
//@CONSTS file=macho.rs like=(REBASE|BIND)_(OPCODE|IMMEDIATE)_.*|BIND_TYPE_POINTER|BIND_SPECIAL_.*
// ---- /repo ----
#[derive(Clone, Copy)]
#[allow(inconsistent_fields)]
//@ITEM file=read/macho/dyld_info.rs name=RebaseOperation
//@SUBST macho:: ==> 
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/dyld_info.rs name=RebaseOperationIterator
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/dyld_info.rs name=Rebase
//@SUBST macho:: ==> 
//@END
//@ITEM file=read/macho/dyld_info.rs name=RebaseIterator
//@END
// ---- what the rebase opcodes mean ----
pub open spec fn imm(s: Seq<u8>) -> u8 { (s[0] % 16) as u8 }
pub open spec fn rop(s: Seq<u8>) -> Option<(u8, RebaseOperation, Seq<u8>)> {
    if s.len() == 0 { None } else {
        let o = s[0] / 16; let t = s.skip(1); let i = imm(s); let c = (o * 16) as u8;
        if o == 0 { Some((c, RebaseOperation::Done, t)) }
        else if o == 1 { Some((c, RebaseOperation::SetType { kind: RebaseType(i) }, t)) }
        else if o == 4 { Some((c, RebaseOperation::AddAddrScaled { count: i }, t)) }
        else if o == 5 { Some((c, RebaseOperation::DoRebaseTimes { count: i as u64 }, t)) }
        else if o == 2 || o == 3 || o == 6 || o == 7 || o == 8 { match uleb(t) { None => None, Some((v, n)) => { let t = t.skip(n as int);
            if o == 2 { Some((c, RebaseOperation::SetSegmentAndOffset { index: i, offset: v }, t)) }
            else if o == 3 { Some((c, RebaseOperation::AddAddr { offset: v }, t)) }
            else if o == 6 { Some((c, RebaseOperation::DoRebaseTimes { count: v }, t)) }
            else if o == 7 { Some((c, RebaseOperation::DoRebaseAddAddr { offset: v }, t)) }
            else { match uleb(t) { None => None, Some((k, m)) => Some((c, RebaseOperation::DoRebaseTimesSkipping { count: v, skip: k }, t.skip(m as int))) } }
        } } } else { None }
    }
}
pub open spec fn add(a: u64, b: int) -> u64 { ((a + b) % 0x1_0000_0000_0000_0000) as u64 }
pub struct RS { pub data: Seq<u8>, pub left: u64, pub step: u64, pub seg: bool, pub typ: bool, pub at: Rebase }
/// What one operation does to the state.
pub open spec fn ract(s: RS, o: RebaseOperation, p: u8) -> RS {
    match o {
        RebaseOperation::Done => s,
        RebaseOperation::SetType { kind } => RS { typ: true, at: Rebase { kind, ..s.at }, ..s },
        RebaseOperation::SetSegmentAndOffset { index, offset } => RS { seg: true, at: Rebase { segment_index: index, segment_offset: offset, ..s.at }, ..s },
        RebaseOperation::AddAddr { offset } => RS { at: Rebase { segment_offset: add(s.at.segment_offset, offset as int), ..s.at }, ..s },
        RebaseOperation::AddAddrScaled { count } => RS { at: Rebase { segment_offset: add(s.at.segment_offset, count as int * p as int), ..s.at }, ..s },
        RebaseOperation::DoRebaseTimes { count } => RS { left: count, step: if count == 0 { s.step } else { p as u64 }, ..s },
        RebaseOperation::DoRebaseAddAddr { offset } => RS { left: 1, step: add(p as u64, offset as int), ..s },
        RebaseOperation::DoRebaseTimesSkipping { count, skip } => RS { left: count, step: if count == 0 { s.step } else { add(p as u64, skip as int) }, ..s },
    }
}
/// The next rebase from a state on.
pub open spec fn rrun(s: RS, p: u8) -> Option<(Option<Rebase>, RS)> decreases s.data.len() {
    if s.left > 0 {
        if !s.seg || !s.typ { None }
        else { Some((Some(s.at), RS { left: (s.left - 1) as u64, at: Rebase { segment_offset: add(s.at.segment_offset, s.step as int), ..s.at }, ..s })) }
    } else if s.data.len() == 0 { Some((None, s)) } else { match rop(s.data) {
        None => None,
        Some((_, o, t)) => if t.len() >= s.data.len() { None } else if o == RebaseOperation::Done { Some((None, RS { data: t, ..s })) } else {
            let n = ract(RS { data: t, ..s }, o, p);
            if n.data.len() >= s.data.len() { None } else { rrun(n, p) }
        }
    } }
}
/// One step of the run, by definition.
pub open spec fn rone(s: RS, p: u8) -> Option<(Option<Rebase>, RS)> {
    match rop(s.data) {
        None => None,
        Some((_, o, t)) => if t.len() >= s.data.len() { None } else if o == RebaseOperation::Done { Some((None, RS { data: t, ..s })) } else { rrun(ract(RS { data: t, ..s }, o, p), p) }
    }
}
proof fn rstep(s: RS, p: u8)
    ensures s.left == 0 && s.data.len() > 0 ==> rrun(s, p) == rone(s, p),
        s.left == 0 && s.data.len() == 0 ==> rrun(s, p) == Some((None::<Rebase>, s)),
        s.left > 0 ==> rrun(s, p) == if !s.seg || !s.typ { None }
            else { Some((Some(s.at), RS { left: (s.left - 1) as u64, at: Rebase { segment_offset: add(s.at.segment_offset, s.step as int), ..s.at }, ..s })) }
{}
pub open spec fn rs(i: RebaseIterator) -> RS { RS { data: i.operations.data.0@, left: i.remaining, step: i.advance, seg: i.set_segment, typ: i.set_type, at: i.rebase } }
impl RebaseOperation {
//@FN file=read/macho/dyld_info.rs name=parse in=impl~RebaseOperation
//@SUBST macho:: ==> 
//@SUBST read::<u8>() ==> read_u8()
//@SUBST byte & ==> *byte &
//@START assert(forall|x: u8| (#[trigger] (x & 0xf0)) == (x / 16) * 16) by (bit_vector);
    assert(forall|x: u8| (#[trigger] (x & 0x0f)) == x % 16) by (bit_vector);
//@SPEC ensures match rop(old(data).0@) {
        None => r.is_err(),
        Some((c, o, t)) => r.is_ok() && r.unwrap() == Some((RebaseOpcode(c), o)) && final(data).0@ == t && t.len() < old(data).0@.len(),
    },
//@END
}
impl<'data> RebaseOperationIterator<'data> {
//@FN file=read/macho/dyld_info.rs name=next in=impl<'data>~RebaseOperationIterator
//@SUBST macho:: ==> 
//@SUBST Bytes(&[]) ==> nothing()
//@SPEC ensures ({ let s = old(self).data.0@;
        if s.len() == 0 { r.is_ok() && r.unwrap().is_none() && final(self).data.0@.len() == 0 }
        else { match rop(s) {
            None => r.is_err() && final(self).data.0@.len() == 0,
            Some((c, o, t)) => r.is_ok() && r.unwrap() == Some((RebaseOpcode(c), o)) && final(self).data.0@ == t && t.len() < s.len(),
        } } }),
//@END
}
#[verifier::external_body]
fn no_rebases<'data>() -> (r: RebaseOperationIterator<'data>) ensures r.data.0@.len() == 0 { unimplemented!() }
impl<'data> RebaseIterator<'data> {
//@FN file=read/macho/dyld_info.rs name=next in=impl<'data>~RebaseIterator
//@SUBST RebaseOperationIterator::default() ==> no_rebases()
//@SPEC ensures match rrun(rs(*old(self)), old(self).pointer_size) {
        None => r.is_err() && final(self).remaining == 0 && final(self).operations.data.0@.len() == 0,
        Some((v, s)) => r.is_ok() && r.unwrap() == v && (v.is_some() ==> rs(*final(self)) == s && final(self).pointer_size == old(self).pointer_size),
    },
//@END
//@FN file=read/macho/dyld_info.rs name=next_inner in=impl<'data>~RebaseIterator
//@SUBST u64::from( ==> into_u64(
//@START hide(rrun); hide(rop); proof { rstep(rs(*self), self.pointer_size); }
//@LOOP 0 invariant
        self.remaining == 0, self.pointer_size == old(self).pointer_size,
        rrun(rs(*self), self.pointer_size) == rrun(rs(*old(self)), self.pointer_size),
        self.operations.data.0@.len() <= old(self).operations.data.0@.len(),
    decreases self.operations.data.0@.len(),
//@BODY 0 proof { rstep(rs(*self), self.pointer_size); }
    assert forall|a: u64, b: u64| a < 256 && b <= 256 implies 0 <= #[trigger] (a * b) < 0x20000 by { small(a as int, b as int); }
//@SPEC ensures match rrun(rs(*old(self)), old(self).pointer_size) {
        None => r.is_err(),
        Some((v, s)) => r.is_ok() && r.unwrap() == v && (v.is_some() ==> rs(*final(self)) == s && final(self).pointer_size == old(self).pointer_size),
    },
    decreases old(self).operations.data.0@.len(),
//@END
}
proof fn small(a: int, b: int) requires 0 <= a < 256, 0 <= b <= 256 ensures 0 <= a * b < 0x20000 { assert(0 <= a * b < 0x20000) by (nonlinear_arith) requires 0 <= a < 256, 0 <= b <= 256; }
fn into_u64(a: u8) -> (r: u64) ensures r == a { a as u64 }
// ---- binds ----
#[derive(Clone, Copy)]
#[allow(inconsistent_fields)]
//@ITEM file=read/macho/dyld_info.rs name=BindOperation
//@SUBST macho:: ==> 
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/dyld_info.rs name=BindOperationIterator
//@END
#[derive(Clone, Copy)]
//@ITEM file=read/macho/dyld_info.rs name=Bind
//@SUBST macho:: ==> 
//@END
//@ITEM file=read/macho/dyld_info.rs name=BindIterator
//@END
/// An operation; a name by its bytes.
pub enum BOp { Done, Dylib(u64), Special(i32), Symbol(u8, Seq<u8>), Type(u8), Addend(i64), Segment(u8, u64), Add(u64), Bind, BindAdd(u64), BindScaled(u8), BindTimes(u64, u64) }
pub open spec fn shown(o: BindOperation) -> BOp {
    match o {
        BindOperation::Done => BOp::Done,
        BindOperation::SetDylibOrdinal { ordinal } => BOp::Dylib(ordinal),
        BindOperation::SetDylibSpecial { ordinal } => BOp::Special(ordinal.0),
        BindOperation::SetSymbol { flags, name } => BOp::Symbol(flags.0, name@),
        BindOperation::SetType { kind } => BOp::Type(kind.0),
        BindOperation::SetAddend { addend } => BOp::Addend(addend),
        BindOperation::SetSegmentAndOffset { segment_index, offset } => BOp::Segment(segment_index, offset),
        BindOperation::AddAddr { offset } => BOp::Add(offset),
        BindOperation::DoBind => BOp::Bind,
        BindOperation::DoBindAddAddr { offset } => BOp::BindAdd(offset),
        BindOperation::DoBindAddAddrScaled { count } => BOp::BindScaled(count),
        BindOperation::DoBindTimesSkipping { count, skip } => BOp::BindTimes(count, skip),
    }
}
pub open spec fn bop(s: Seq<u8>) -> Option<(u8, BOp, Seq<u8>)> {
    if s.len() == 0 { None } else {
        let o = s[0] / 16; let t = s.skip(1); let i = imm(s); let c = (o * 16) as u8;
        if o == 0 { Some((c, BOp::Done, t)) }
        else if o == 1 { Some((c, BOp::Dylib(i as u64), t)) }
        else if o == 3 { Some((c, BOp::Special(if i == 0 { 0 } else { (i - 16) as i32 }), t)) }
        else if o == 4 { if zero(t) >= t.len() { None } else { Some((c, BOp::Symbol(i, t.take(zero(t))), t.skip(zero(t) + 1))) } }
        else if o == 5 { Some((c, BOp::Type(i), t)) }
        else if o == 6 { match sleb(t) { None => None, Some((v, n)) => Some((c, BOp::Addend(v), t.skip(n as int))) } }
        else if o == 9 { Some((c, BOp::Bind, t)) }
        else if o == 11 { Some((c, BOp::BindScaled(i), t)) }
        else if o == 2 || o == 7 || o == 8 || o == 10 || o == 12 { match uleb(t) { None => None, Some((v, n)) => { let t = t.skip(n as int);
            if o == 2 { Some((c, BOp::Dylib(v), t)) }
            else if o == 7 { Some((c, BOp::Segment(i, v), t)) }
            else if o == 8 { Some((c, BOp::Add(v), t)) }
            else if o == 10 { Some((c, BOp::BindAdd(v), t)) }
            else { match uleb(t) { None => None, Some((k, m)) => Some((c, BOp::BindTimes(v, k), t.skip(m as int))) } }
        } } } else { None }
    }
}
/// A bind; the name by its bytes.
pub struct At { pub index: u8, pub off: u64, pub kind: u8, pub dylib: i32, pub name: Seq<u8>, pub flags: u8, pub addend: i64 }
pub open spec fn at(b: Bind) -> At { At { index: b.segment_index, off: b.segment_offset, kind: b.kind.0, dylib: b.dylib.0, name: b.symbol@, flags: b.flags.0, addend: b.addend } }
pub struct BS { pub data: Seq<u8>, pub lazy: bool, pub left: u64, pub step: u64, pub seg: bool, pub typ: bool, pub lib: bool, pub sym: bool, pub at: At }
pub open spec fn bs(i: BindIterator) -> BS {
    BS { data: i.operations.data.0@, lazy: i.lazy, left: i.remaining, step: i.advance, seg: i.set_segment, typ: i.set_type, lib: i.set_dylib, sym: i.set_symbol, at: at(i.bind) }
}
/// Where a stream starts: lazy binds are pointers, weak binds are pointers looked up everywhere.
pub open spec fn fresh(data: Seq<u8>, lazy: bool, kind: Option<u8>, lib: Option<i32>) -> BS {
    BS { data, lazy, left: 0, step: 0, seg: false, typ: kind.is_some(), lib: lib.is_some(), sym: false,
        at: At { index: 0, off: 0, kind: if kind.is_some() { kind.unwrap() } else { 0 }, dylib: if lib.is_some() { lib.unwrap() } else { 0 }, name: Seq::empty(), flags: 0, addend: 0 } }
}
pub open spec fn bact(s: BS, o: BOp, p: u8) -> BS {
    match o {
        BOp::Done => fresh(s.data, true, Some(1), None),
        BOp::Dylib(n) => BS { lib: true, at: At { dylib: n as i32, ..s.at }, ..s },
        BOp::Special(n) => BS { lib: true, at: At { dylib: n, ..s.at }, ..s },
        BOp::Symbol(f, n) => BS { sym: true, at: At { flags: f, name: n, ..s.at }, ..s },
        BOp::Type(k) => BS { typ: true, at: At { kind: k, ..s.at }, ..s },
        BOp::Addend(a) => BS { at: At { addend: a, ..s.at }, ..s },
        BOp::Segment(i, o) => BS { seg: true, at: At { index: i, off: o, ..s.at }, ..s },
        BOp::Add(n) => BS { at: At { off: add(s.at.off, n as int), ..s.at }, ..s },
        BOp::Bind => BS { left: 1, step: p as u64, ..s },
        BOp::BindAdd(n) => BS { left: 1, step: add(p as u64, n as int), ..s },
        BOp::BindScaled(n) => BS { left: 1, step: (p * (n + 1)) as u64, ..s },
        BOp::BindTimes(n, k) => BS { left: n, step: if n == 0 { s.step } else { add(p as u64, k as int) }, ..s },
    }
}
/// The next bind from a state on.
pub open spec fn brun(s: BS, p: u8) -> Option<(Option<At>, BS)> decreases s.data.len() {
    if s.left > 0 {
        if !s.seg || !s.typ || !s.lib || !s.sym { None }
        else { Some((Some(s.at), BS { left: (s.left - 1) as u64, at: At { off: add(s.at.off, s.step as int), ..s.at }, ..s })) }
    } else if s.data.len() == 0 { Some((None, s)) } else { match bop(s.data) {
        None => None,
        Some((_, o, t)) => if t.len() >= s.data.len() { None } else if o is Done && !s.lazy { Some((None, BS { data: t, ..s })) }
            else if o is Dylib && o->Dylib_0 > 0x7fff_ffff { None } else {
            let n = bact(BS { data: t, ..s }, o, p);
            if n.data.len() >= s.data.len() { None } else { brun(n, p) }
        }
    } }
}
pub open spec fn bone(s: BS, p: u8) -> Option<(Option<At>, BS)> {
    match bop(s.data) {
        None => None,
        Some((_, o, t)) => if t.len() >= s.data.len() { None } else if o is Done && !s.lazy { Some((None, BS { data: t, ..s })) }
            else if o is Dylib && o->Dylib_0 > 0x7fff_ffff { None } else { brun(bact(BS { data: t, ..s }, o, p), p) }
    }
}
proof fn bstep(s: BS, p: u8)
    ensures s.left == 0 && s.data.len() > 0 ==> brun(s, p) == bone(s, p),
        s.left == 0 && s.data.len() == 0 ==> brun(s, p) == Some((None::<At>, s)),
        s.left > 0 ==> brun(s, p) == if !s.seg || !s.typ || !s.lib || !s.sym { None }
            else { Some((Some(s.at), BS { left: (s.left - 1) as u64, at: At { off: add(s.at.off, s.step as int), ..s.at }, ..s })) }
{}
pub open spec fn is_at(r: Option<Bind>, v: Option<At>) -> bool { r.is_some() == v.is_some() && (r.is_some() ==> at(r.unwrap()) == v.unwrap()) }
fn to_i32(a: u64) -> (r: Option<i32>) ensures r == if a <= 0x7fff_ffff { Some(a as i32) } else { None::<i32> } { if a <= 0x7fff_ffff { Some(a as i32) } else { None } }
fn signed(a: u8) -> (r: i32) ensures r == if a < 128 { a as int } else { a - 256 } { if a < 128 { a as i32 } else { a as i32 - 256 } }
impl<'data> BindOperation<'data> {
//@FN file=read/macho/dyld_info.rs name=parse in=impl<'data>~BindOperation
//@SUBST macho:: ==> 
//@SUBST read::<u8>() ==> read_u8()
//@SUBST byte & ==> *byte &
//@SUBST u64::from( ==> into_u64(
//@SUBST ((!BIND_IMMEDIATE_MASK | immediate) as i8).into() ==> signed(!BIND_IMMEDIATE_MASK | immediate)
//@START assert(forall|x: u8| (#[trigger] (x & 0xf0)) == (x / 16) * 16) by (bit_vector);
    assert(forall|x: u8| (#[trigger] (x & 0x0f)) == x % 16) by (bit_vector);
    assert(!0x0fu8 == 0xf0u8) by (bit_vector);
    assert(forall|x: u8| x < 16 ==> (#[trigger] (0xf0u8 | x)) == 240 + x) by (bit_vector);
//@SPEC ensures match bop(old(data).0@) {
        None => r.is_err(),
        Some((c, o, t)) => r.is_ok() && r.unwrap().is_some() && r.unwrap().unwrap().0 == BindOpcode(c) && shown(r.unwrap().unwrap().1) == o && final(data).0@ == t && t.len() < old(data).0@.len(),
    },
//@END
}
impl<'data> BindOperationIterator<'data> {
//@FN file=read/macho/dyld_info.rs name=next in=impl<'data>~BindOperationIterator
//@SUBST macho:: ==> 
//@SUBST Bytes(&[]) ==> nothing()
//@SPEC ensures ({ let s = old(self).data.0@;
        if s.len() == 0 { r.is_ok() && r.unwrap().is_none() && final(self).data.0@.len() == 0 }
        else { match bop(s) {
            None => r.is_err() && final(self).data.0@.len() == 0,
            Some((c, o, t)) => r.is_ok() && r.unwrap().is_some() && r.unwrap().unwrap().0 == BindOpcode(c) && shown(r.unwrap().unwrap().1) == o && final(self).data.0@ == t && t.len() < s.len(),
        } } }),
//@END
}
#[verifier::external_body]
fn no_binds<'data>() -> (r: BindOperationIterator<'data>) ensures r.data.0@.len() == 0 { unimplemented!() }
pub open spec fn raw_kind(k: Option<BindType>) -> Option<u8> { match k { Some(k) => Some(k.0), None => None } }
pub open spec fn raw_lib(k: Option<BindDylib>) -> Option<i32> { match k { Some(k) => Some(k.0), None => None } }
impl<'data> BindIterator<'data> {
//@FN file=read/macho/dyld_info.rs name=new in=impl<'data>~BindIterator
//@SPEC ensures bs(r) == fresh(operations.data.0@, false, None, None), r.pointer_size == pointer_size,
//@END
//@FN file=read/macho/dyld_info.rs name=new_weak in=impl<'data>~BindIterator
//@SUBST macho:: ==> 
//@SPEC ensures bs(r) == fresh(operations.data.0@, false, Some(1u8), Some(-3i32)), r.pointer_size == pointer_size,
//@END
//@FN file=read/macho/dyld_info.rs name=new_lazy in=impl<'data>~BindIterator
//@SUBST macho:: ==> 
//@SPEC ensures bs(r) == fresh(operations.data.0@, true, Some(1u8), None), r.pointer_size == pointer_size,
//@END
//@FN file=read/macho/dyld_info.rs name=new_internal in=impl<'data>~BindIterator
//@SUBST macho:: ==> 
//@SUBST &[] ==> no_name()
//@SPEC ensures bs(r) == fresh(operations.data.0@, lazy, raw_kind(kind), raw_lib(dylib)), r.pointer_size == pointer_size,
//@END
//@FN file=read/macho/dyld_info.rs name=next in=impl<'data>~BindIterator
//@SUBST BindOperationIterator::default() ==> no_binds()
//@SPEC ensures match brun(bs(*old(self)), old(self).pointer_size) {
        None => r.is_err() && final(self).remaining == 0 && final(self).operations.data.0@.len() == 0,
        Some((v, s)) => r.is_ok() && is_at(r.unwrap(), v) && (v.is_some() ==> bs(*final(self)) == s && final(self).pointer_size == old(self).pointer_size),
    },
//@END
//@FN file=read/macho/dyld_info.rs name=next_inner in=impl<'data>~BindIterator
//@SUBST macho:: ==> 
//@SUBST u64::from( ==> into_u64(
//@SUBST i32::try_from(ordinal).ok() ==> to_i32(ordinal)
//@START hide(brun); hide(bop); proof { bstep(bs(*self), self.pointer_size); }
//@LOOP 0 invariant
        self.remaining == 0, self.pointer_size == old(self).pointer_size,
        brun(bs(*self), self.pointer_size) == brun(bs(*old(self)), self.pointer_size),
        self.operations.data.0@.len() <= old(self).operations.data.0@.len(),
    decreases self.operations.data.0@.len(),
//@BODY 0 proof { bstep(bs(*self), self.pointer_size); }
    assert forall|a: u64, b: u64| a < 256 && b <= 256 implies 0 <= #[trigger] (a * b) < 0x20000 by { small(a as int, b as int); }
//@SPEC ensures match brun(bs(*old(self)), old(self).pointer_size) {
        None => r.is_err(),
        Some((v, s)) => r.is_ok() && is_at(r.unwrap(), v) && (v.is_some() ==> bs(*final(self)) == s && final(self).pointer_size == old(self).pointer_size),
    },
    decreases old(self).operations.data.0@.len(),
//@END
}
// ---- function starts ----
#[derive(Clone, Copy)]
//@ITEM file=read/macho/function_starts.rs name=FunctionStartsIterator
//@END
impl<'data> FunctionStartsIterator<'data> {
//@FN file=read/macho/function_starts.rs name=next in=impl<'data>~FunctionStartsIterator
//@SUBST Bytes(&[]) ==> nothing()
//@SPEC ensures ({ let s = old(self).data.0@;
        if s.len() == 0 { r.is_ok() && r.unwrap().is_none() && final(self).data.0@.len() == 0 }
        else { match uleb(s) {
            None => r.is_err() && final(self).data.0@.len() == 0,
            Some((d, n)) => if d == 0 { r.is_ok() && r.unwrap().is_none() && final(self).data.0@.len() == 0 }
                else if old(self).addr + d > u64::MAX { r.is_err() && final(self).data.0@.len() == 0 }
                else { r.is_ok() && r.unwrap() == Some((old(self).addr + d) as u64) && final(self).addr == old(self).addr + d && final(self).data.0@ == s.skip(n as int) },
        } } }),
//@END
//@FN file=read/macho/function_starts.rs name=parse in=impl<'data>~FunctionStartsIterator
//@SUBST Bytes(&[]) ==> nothing()
//@SPEC ensures match uleb(old(self).data.0@) {
            None => r.is_err(),
            Some((d, n)) => if d == 0 { r.is_ok() && r.unwrap().is_none() && final(self).data.0@.len() == 0 }
                else if old(self).addr + d > u64::MAX { r.is_err() }
                else { r.is_ok() && r.unwrap() == Some((old(self).addr + d) as u64) && final(self).addr == old(self).addr + d && final(self).data.0@ == old(self).data.0@.skip(n as int) },
        },
//@END
}
}
fn main() {}
