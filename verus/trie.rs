use vstd::prelude::*;
verus! {
// The exports trie of a Mach-O image, for every trie: nodes, terminal data, and the walk.
#[derive(Debug)]
pub struct Error(pub &'static str);
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub trait ReadError<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn read_error(self, e: &'static str) -> (r: Result<T>) ensures r.is_ok() == self.good().is_some(), r.is_ok() ==> r.unwrap() == self.good().unwrap();
}
impl<T> ReadError<T> for Result<T, ()> {
    open spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(Error("")) } }
}
impl<T> ReadError<T> for Option<T> {
    open spec fn good(self) -> Option<T> { self }
    fn read_error(self, e: &'static str) -> (r: Result<T>) { match self { Some(v) => Ok(v), None => Err(Error("")) } }
}
// ---- reading: C04 decides LEB128, C01 the strings ----
/// A number and the count of its bytes.
pub uninterp spec fn uleb(s: Seq<u8>) -> Option<(u64, nat)>;
pub open spec fn zero(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == 0 { 0 } else { 1 + zero(s.skip(1)) } }
#[derive(Clone, Copy)]
pub struct Bytes<'data>(pub &'data [u8]);
impl<'data> Bytes<'data> {
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<&'data u8, ()>)
        ensures r.is_ok() == (old(self).0@.len() >= 1), r.is_ok() ==> *r.unwrap() == old(self).0@[0] && final(self).0@ == old(self).0@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    fn read_uleb128(&mut self) -> (r: Result<u64, ()>)
        ensures match uleb(old(self).0@) { Some((v, n)) => r == Ok::<u64, ()>(v) && 0 < n <= old(self).0@.len() && final(self).0@ == old(self).0@.skip(n as int), None => r.is_err() }
    { unimplemented!() }
    #[verifier::external_body]
    fn read_string(&mut self) -> (r: Result<&'data [u8], ()>)
        ensures ({ let s = old(self).0@; let n = zero(s);
            &&& r.is_ok() == (n < s.len())
            &&& r.is_ok() ==> r.unwrap()@ == s.take(n) && final(self).0@ == s.skip(n + 1) && n >= 0 })
    { unimplemented!() }
    #[verifier::external_body]
    fn read_bytes(&mut self, count: usize) -> (r: Result<Bytes<'data>, ()>)
        ensures r.is_ok() == (count <= old(self).0@.len()), r.is_ok() ==> r.unwrap().0@ == old(self).0@.take(count as int) && final(self).0@ == old(self).0@.skip(count as int)
    { unimplemented!() }
    fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { self.0.len() == 0 }
}
global size_of usize == 8;


// ---- flags: C19's harness decides these two ----
#[derive(Clone, Copy)]
pub struct ExportSymbolFlags(pub u64);
//@CONSTS file=macho.rs like=EXPORT_SYMBOL_FLAGS_(REEXPORT|STUB_AND_RESOLVER)
impl ExportSymbolFlags {
    #[verifier::external_body]
    fn contains(self, o: ExportSymbolFlags) -> (r: bool) ensures r == (self.0 & o.0 == o.0) { unimplemented!() }
//@FN file=macho.rs name=has_unknown_bits in=impl~ExportSymbolFlags
//@START let x = self.0; assert((x & !0x3fu64 != 0) == (x >= 0x40)) by (bit_vector);
//@SPEC ensures r == (self.0 >= 0x40),
//@END
}
pub trait MapFlags: Sized {
    spec fn good(self) -> Option<u64>;
    fn map_flags(self) -> (r: Result<ExportSymbolFlags, ()>) ensures r.is_ok() == self.good().is_some(), r.is_ok() ==> r.unwrap().0 == self.good().unwrap();
}
impl MapFlags for Result<u64, ()> {
    open spec fn good(self) -> Option<u64> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn map_flags(self) -> (r: Result<ExportSymbolFlags, ()>) { match self { Ok(v) => Ok(ExportSymbolFlags(v)), Err(_) => Err(()) } }
}
#[verifier::external_body]
fn boxed(v: &Vec<u8>) -> (r: Box<[u8]>) ensures r@ == v@ { v.clone().into_boxed_slice() }
#[verifier::external_body]
fn append(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { v.extend(s) }
#[verifier::external_body]
fn last_mut<'a, T>(v: &'a mut Vec<T>) -> (r: Option<&'a mut T>)
    ensures old(v)@.len() == 0 ==> r.is_none() && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r.is_some() && *r.unwrap() == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(r.unwrap()))
{ v.last_mut() }
#[verifier::external_body]
fn nothing() -> (r: Vec<u8>) ensures r@.len() == 0 { Vec::new() }

// ---- /repo ----
//@ITEM file=read/macho/exports_trie.rs name=ExportSymbol
//@SUBST macho:: ==> 
//@END
//@ITEM file=read/macho/exports_trie.rs name=Frame
//@END
//@ITEM file=read/macho/exports_trie.rs name=NodeIterator
//@END
//@ITEM file=read/macho/exports_trie.rs name=ExportData
//@END
//@ITEM file=read/macho/exports_trie.rs name=ExportsTrieIterator
//@END
// ---- what a node means ----
pub enum Data { Regular(u64), Reexport(u64, Seq<u8>), Resolver(u64, u64) }
pub open spec fn shown(d: ExportData) -> Data {
    match d {
        ExportData::Regular { address } => Data::Regular(address),
        ExportData::Reexport { dylib_ordinal, import_name } => Data::Reexport(dylib_ordinal, import_name@),
        ExportData::StubAndResolver { stub_address, resolver_address } => Data::Resolver(stub_address, resolver_address),
    }
}
pub open spec fn number(s: Seq<u8>) -> Option<(u64, Seq<u8>)> { match uleb(s) { None => None, Some((v, n)) => Some((v, s.skip(n as int))) } }
pub open spec fn text(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { if zero(s) < s.len() { Some((s.take(zero(s)), s.skip(zero(s) + 1))) } else { None } }
/// Terminal data: flags, then what the flags say.
pub open spec fn terminal(s: Seq<u8>) -> Option<(u64, Data)> {
    match number(s) { None => None, Some((f, s)) =>
        if f >= 0x40 { None }
        else if f & 8 != 0 { match number(s) { None => None, Some((n, s)) => match text(s) { None => None, Some((t, _)) => Some((f, Data::Reexport(n, t))) } } }
        else if f & 16 != 0 { match number(s) { None => None, Some((a, s)) => match number(s) { None => None, Some((b, _)) => Some((f, Data::Resolver(a, b))) } } }
        else { match number(s) { None => None, Some((a, _)) => Some((f, Data::Regular(a))) } }
    }
}
pub struct Fr { pub data: Seq<u8>, pub offset: u64, pub left: u8, pub keep: nat }
pub open spec fn fr(f: Frame) -> Fr { Fr { data: f.data.0@, offset: f.offset, left: f.children_remaining, keep: f.name_buf_len as nat } }
pub struct Sym { pub name: Seq<u8>, pub flags: u64, pub data: Data }
pub open spec fn sym(e: Option<ExportSymbol>) -> Option<Sym> { match e { None => None, Some(e) => Some(Sym { name: e.name@, flags: e.flags.0, data: shown(e.data) }) } }
/// The node at an offset, reached by a name: its symbol, and the frame for its children.
pub open spec fn node(d: Seq<u8>, o: u64, name: Seq<u8>) -> Option<(Option<Sym>, Fr)> {
    if o > d.len() { None } else { match number(d.skip(o as int)) { None => None, Some((n, s)) => if n > s.len() { None } else {
        let c = s.skip(n as int);
        if n == 0 { children(s, o, name, None) }
        else { match terminal(s.take(n as int)) { None => None, Some((flags, data)) => children(c, o, name, Some(Sym { name, flags, data })) } }
    } } }
}
pub open spec fn children(c: Seq<u8>, offset: u64, name: Seq<u8>, own: Option<Sym>) -> Option<(Option<Sym>, Fr)> {
    if c.len() == 0 { None } else { Some((own, Fr { data: c.skip(1), offset, left: c[0], keep: name.len() })) }
}
/// What the next node is: the innermost open node that has children left goes on with its next
/// child, which is reached by that node's name and the edge.
pub enum Walk { Bad, End, Node(Option<Sym>, Seq<Fr>, Seq<u8>) }
pub open spec fn onto(stack: Seq<Fr>, o: u64) -> bool { exists|i: int| 0 <= i < stack.len() && (#[trigger] stack[i]).offset == o }
pub open spec fn walk(d: Seq<u8>, stack: Seq<Fr>, name: Seq<u8>) -> Walk decreases stack.len() {
    if stack.len() == 0 { Walk::End } else {
        let f = stack.last();
        if f.left == 0 { walk(d, stack.drop_last(), name.take(f.keep as int)) }
        else { match text(f.data) { None => Walk::Bad, Some((edge, s)) => match number(s) { None => Walk::Bad, Some((o, s)) => {
            let stack = stack.drop_last().push(Fr { data: s, left: (f.left - 1) as u8, ..f });
            let name = name.take(f.keep as int) + edge;
            if onto(stack, o) { Walk::Bad } else { match node(d, o, name) { None => Walk::Bad, Some((e, f)) => Walk::Node(e, stack.push(f), name) } }
        } } } }
    }
}
pub open spec fn frames<'data>(s: Seq<Frame<'data>>) -> Seq<Fr> { Seq::new(s.len(), |i: int| fr(s[i])) }
/// Names only get longer on the way down.
pub open spec fn wf(s: Seq<Fr>, n: nat) -> bool decreases s.len() { s.len() == 0 || s.last().keep <= n && wf(s.drop_last(), s.last().keep) }
pub proof fn unroll<'data>(t: Seq<Frame<'data>>) requires t.len() > 0 ensures frames(t) == frames(t.drop_last()).push(fr(t.last())), frames(t).drop_last() == frames(t.drop_last()), frames(t).last() == fr(t.last())
{ assert(frames(t) =~= frames(t.drop_last()).push(fr(t.last()))); assert(frames(t).drop_last() =~= frames(t.drop_last())); }
pub proof fn facts<'data>()
    ensures forall|t: Seq<Frame<'data>>| #![trigger frames(t), t.drop_last()] t.len() > 0 ==> frames(t) == frames(t.drop_last()).push(fr(t.last())) && frames(t).drop_last() == frames(t.drop_last()) && frames(t).last() == fr(t.last()),
        forall|s: Seq<Frame<'data>>, x: Frame<'data>| (#[trigger] s.push(x)).drop_last() == s && s.push(x).last() == x,
        forall|s: Seq<Fr>, x: Fr| (#[trigger] s.push(x)).drop_last() == s && s.push(x).last() == x,
        frames(Seq::<Frame<'data>>::empty()) == Seq::<Fr>::empty(), seq![] == Seq::<Fr>::empty(),
{
    assert forall|t: Seq<Frame<'data>>| #![trigger frames(t), t.drop_last()] t.len() > 0 implies frames(t) == frames(t.drop_last()).push(fr(t.last())) && frames(t).drop_last() == frames(t.drop_last()) && frames(t).last() == fr(t.last()) by { unroll(t); }
    assert forall|s: Seq<Frame<'data>>, x: Frame<'data>| (#[trigger] s.push(x)).drop_last() == s && s.push(x).last() == x by { assert(s.push(x).drop_last() =~= s); }
    assert forall|s: Seq<Fr>, x: Fr| (#[trigger] s.push(x)).drop_last() == s && s.push(x).last() == x by { assert(s.push(x).drop_last() =~= s); }
    assert(frames(Seq::<Frame<'data>>::empty()) =~= Seq::<Fr>::empty());
}
impl<'data> ExportData<'data> {
//@FN file=read/macho/exports_trie.rs name=parse in=impl<'data>~ExportData
//@SUBST .map(macho::ExportSymbolFlags) ==> .map_flags()
//@SUBST macho:: ==> 
//@SUBST mut data: ==> data:
//@START let mut data = data;
    assert(forall|x: u64| (#[trigger] (x & 8) == 8) == (x & 8 != 0)) by (bit_vector);
    assert(forall|x: u64| (#[trigger] (x & 16) == 16) == (x & 16 != 0)) by (bit_vector);
//@SPEC ensures match terminal(data.0@) { None => r.is_err(), Some((f, d)) => r.is_ok() && r.unwrap().0.0 == f && shown(r.unwrap().1) == d },
//@END
}
impl<'data> NodeIterator<'data> {
    #[verifier::external_body]
    fn on_path(&self, o: u64) -> (r: bool) ensures r == onto(frames(self.stack@), o) { self.stack.iter().any(|frame| frame.offset == o) }
    fn from(&self, o: usize) -> (r: Option<&'data [u8]>) ensures r.is_some() == (o <= self.data@.len()), r.is_some() ==> r.unwrap()@ == self.data@.skip(o as int)
    { if o <= self.data.len() { Some(vstd::slice::slice_subrange(self.data, o, self.data.len())) } else { None } }
//@FN file=read/macho/exports_trie.rs name=new in=impl<'data>~NodeIterator
//@SUBST name_buf: Vec::new() ==> name_buf: nothing()
//@SPEC ensures r.data == data, r.first, r.stack@.len() == 0, r.name_buf@.len() == 0,
//@END
//@FN file=read/macho/exports_trie.rs name=push_node in=impl<'data>~NodeIterator
//@SUBST self.data.get(offset as usize..) ==> self.from(offset as usize)
//@SUBST read::<u8>() ==> read_u8()
//@SUBST self.name_buf.clone().into_boxed_slice() ==> boxed(&self.name_buf)
//@START proof { facts(); }
//@SPEC ensures final(self).data == old(self).data, final(self).first == old(self).first, final(self).name_buf@ == old(self).name_buf@,
        match node(old(self).data@, offset, old(self).name_buf@) {
            None => r.is_err() && final(self).stack@ == old(self).stack@,
            Some((e, f)) => r.is_ok() && sym(r.unwrap()) == e && final(self).stack@.len() == old(self).stack@.len() + 1
                && final(self).stack@.drop_last() == old(self).stack@ && fr(final(self).stack@.last()) == f,
        },
//@END
//@FN file=read/macho/exports_trie.rs name=next in=impl<'data>~NodeIterator
//@SUBST self.stack.last_mut() ==> last_mut(&mut self.stack)
//@SUBST self.name_buf.extend(edge_str) ==> append(&mut self.name_buf, edge_str)
//@SUBST self.stack.iter().any(|frame| frame.offset == child_offset) ==> self.on_path(child_offset)
//@LOOP 0 invariant
        self.data == old(self).data, !old(self).first, !self.first, wf(frames(self.stack@), self.name_buf@.len()),
        walk(self.data@, frames(self.stack@), self.name_buf@) == walk(old(self).data@, frames(old(self).stack@), old(self).name_buf@),
    decreases self.stack@.len(),
//@START proof { facts(); assert forall|t: Seq<Frame>| t.len() == 0 implies #[trigger] frames(t) == Seq::<Fr>::empty() by { assert(frames(t) =~= Seq::<Fr>::empty()); } }
//@BODY 0 proof { facts(); if self.stack@.len() > 0 { unroll(self.stack@); } }
//@SPEC requires wf(frames(old(self).stack@), old(self).name_buf@.len()),
    ensures final(self).data == old(self).data, wf(frames(final(self).stack@), final(self).name_buf@.len()), !final(self).first,
        old(self).first && old(self).stack@.len() == 0 ==> match node(old(self).data@, 0, old(self).name_buf@) {
            None => r.is_err() && final(self).stack@.len() == 0,
            Some((e, f)) => r.is_ok() && r.unwrap().is_some() && sym(r.unwrap().unwrap()) == e && frames(final(self).stack@) == seq![f] && final(self).name_buf@ == old(self).name_buf@,
        },
        !old(self).first ==> match walk(old(self).data@, frames(old(self).stack@), old(self).name_buf@) {
            Walk::Bad => r.is_err(),
            Walk::End => r.is_ok() && r.unwrap().is_none(),
            Walk::Node(e, s, n) => r.is_ok() && r.unwrap().is_some() && sym(r.unwrap().unwrap()) == e && frames(final(self).stack@) == s && final(self).name_buf@ == n,
        },
//@END
}
}
fn main() {}
