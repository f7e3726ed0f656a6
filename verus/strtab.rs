use vstd::prelude::*;
verus! {
// The output and the hash set by their contracts.
pub trait WritableBuffer {
    spec fn out(&self) -> Seq<u8>;
    fn write_bytes(&mut self, v: &[u8]) ensures final(self).out() == old(self).out() + v@;
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct IndexSet<K> { k: Vec<K> }
impl<'a> IndexSet<&'a [u8]> {
    pub uninterp spec fn list(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.list().len() { unimplemented!() }
    #[verifier::external_body]
    fn get_index(&self, i: usize) -> (r: Option<&'a [u8]>)
        ensures r.is_some() == (i < self.list().len()), r.is_some() ==> r.unwrap()@ == self.list()[i as int] { unimplemented!() }
    /// A string is in the list once.
    #[verifier::external_body]
    fn insert_full(&mut self, s: &'a [u8]) -> (r: (usize, bool))
        ensures
            r.1 == !old(self).list().contains(s@),
            !r.1 ==> final(self).list() == old(self).list(),
            r.1 ==> final(self).list() == old(self).list().push(s@),
            r.0 < final(self).list().len(), final(self).list()[r.0 as int] == s@,
            r.1 ==> r.0 == old(self).list().len() { unimplemented!() }
}
#[verifier::external_body]
fn each<'b, 'a>(s: &'b IndexSet<&'a [u8]>) -> (r: &'b [&'a [u8]])
    ensures r@.len() == s.list().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s.list()[i] { unimplemented!() }
#[verifier::external_body]
fn any_null(s: &IndexSet<&[u8]>) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
fn ends_with(s: &[u8], t: &[u8]) -> (r: bool)
    ensures r == (t@.len() <= s@.len() && s@.skip(s@.len() - t@.len()) == t@) { unimplemented!() }
#[verifier::external_body]
fn zeros(n: usize) -> (r: Vec<u32>) ensures r@ == Seq::new(n as nat, |i: int| 0u32) { unimplemented!() }
fn indices(n: usize) -> (r: Vec<usize>) ensures r@ == Seq::new(n as nat, |i: int| i as usize)
{
    let mut v = Vec::new();
    let mut i = 0;
    while i < n
        invariant i <= n, v@ == Seq::new(i as nat, |i: int| i as usize)
        decreases n - i
    { v.push(i); i += 1; proof { assert(v@ =~= Seq::new(i as nat, |i: int| i as usize)); } }
    v
}
/// The sort moves entries about: that is all the layout relies on.
#[verifier::external_body]
fn sort(ids: &mut Vec<usize>, pos: usize, strings: &IndexSet<&[u8]>)
    ensures perm(final(ids)@, old(ids)@.len()) { unimplemented!() }
pub open spec fn perm(s: Seq<usize>, n: nat) -> bool {
    s.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] s[k]) < n)
    && (forall|j: int, k: int| 0 <= j < k < n ==> s[j] != s[k])
    && (forall|i: int| 0 <= i < n ==> #[trigger] s.contains(i as usize))
}
#[derive(Debug)]
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
fn u32_of(v: u64) -> (r: Result<u32>) ensures r.is_ok() == (v <= u32::MAX), r.is_ok() ==> r.unwrap() == v { unimplemented!() }

#[derive(Clone, Copy)]
pub struct StringId(u32);
pub struct StringTable<'a> {
    pub strings: IndexSet<&'a [u8]>, pub offsets: Vec<u32>, pub size: u64, pub in_order: bool, pub base: u32,
}
/// `s` and a terminator lie at `o` of `b`.
pub open spec fn at(b: Seq<u8>, o: int, s: Seq<u8>) -> bool {
    0 <= o && o + s.len() < b.len() && b.subrange(o, o + s.len()) == s && b[o + s.len()] == 0
}
/// Where entry i starts when the strings follow one another.
pub open spec fn pre(l: Seq<Seq<u8>>, i: nat) -> int decreases i { if i == 0 { 0 } else { pre(l, (i - 1) as nat) + l[i - 1].len() + 1 } }
pub open spec fn joined(l: Seq<Seq<u8>>, i: nat) -> Seq<u8> decreases i { if i == 0 { Seq::empty() } else { joined(l, (i - 1) as nat) + l[i - 1] + seq![0u8] } }
proof fn joined_at(l: Seq<Seq<u8>>, n: nat, i: int)
    requires 0 <= i < n <= l.len()
    ensures at(joined(l, n), pre(l, i as nat), l[i]), joined(l, n).len() == pre(l, n)
    decreases n
{
    if i == n - 1 { joined_len(l, i as nat); assert(joined(l, n).subrange(pre(l, i as nat), pre(l, i as nat) + l[i].len()) =~= l[i]); }
    else {
        joined_at(l, (n - 1) as nat, i);
        let (b, c, o) = (joined(l, (n - 1) as nat), joined(l, n), pre(l, i as nat));
        assert(c.subrange(o, o + l[i].len()) =~= b.subrange(o, o + l[i].len()));
    }
    joined_len(l, n);
}
proof fn joined_len(l: Seq<Seq<u8>>, n: nat) ensures joined(l, n).len() == pre(l, n), pre(l, n) >= n decreases n { if n > 0 { joined_len(l, (n - 1) as nat); } }
proof fn pre_push(l: Seq<Seq<u8>>, s: Seq<u8>, n: nat)
    requires n <= l.len() ensures pre(l.push(s), n) == pre(l, n) decreases n
{ if n > 0 { pre_push(l, s, (n - 1) as nat); assert(l.push(s)[n - 1] == l[n - 1]); } }
proof fn grows(b: Seq<u8>, c: Seq<u8>, o: int, s: Seq<u8>)
    requires at(b, o, s) ensures at(b + c, o, s)
{ assert((b + c).subrange(o, o + s.len()) =~= b.subrange(o, o + s.len())); }

impl<'a> StringTable<'a> {
    /// Sizes in reach: below 2^31 strings shorter than 2^32.
    pub open spec fn sane(&self) -> bool {
        self.strings.list().len() < 0x8000_0000 && forall|i: int| 0 <= i < self.strings.list().len() ==> (#[trigger] self.strings.list()[i]).len() < 0x1_0000_0000
    }
    /// In-order tables know their offsets as strings are added.
    pub open spec fn wf(&self) -> bool {
        self.in_order ==> self.offsets@.len() == self.strings.list().len()
            && self.size == self.base + pre(self.strings.list(), self.strings.list().len())
            && forall|i: int| 0 <= i < self.offsets@.len() ==> #[trigger] self.offsets@[i] == ((self.base + pre(self.strings.list(), i as nat)) as u64) as u32
    }
    proof fn bounds(&self, n: nat)
        requires self.sane(), n <= self.strings.list().len()
        ensures pre(self.strings.list(), n) <= n * 0x1_0000_0000, n * 0x1_0000_0000 < 0x8000_0000_0000_0000, forall|i: nat| i <= n ==> 0 <= #[trigger] pre(self.strings.list(), i) <= pre(self.strings.list(), n)
        decreases n
    { if n > 0 { self.bounds((n - 1) as nat); assert(self.strings.list()[n - 1].len() < 0x1_0000_0000); } }
//@FN file=write/string.rs name=add in=StringTable<
//@SUBST debug_assert!(self.in_order || self.offsets.is_empty()); ==>
//@SUBST debug_assert!(!string.contains(&0)); ==>
//@SPEC requires old(self).wf(), old(self).sane(), string@.len() < 0x1_0000_0000
    ensures final(self).wf(), final(self).strings.list()[r.0 as int] == string@,
        final(self).in_order == old(self).in_order, final(self).base == old(self).base,
        // what was there stays there, and a string is added at most once
        old(self).strings.list().contains(string@) ==> final(self).strings.list() == old(self).strings.list(),
        !old(self).strings.list().contains(string@) ==> final(self).strings.list() == old(self).strings.list().push(string@),
//@START proof {
        let l = old(self).strings.list();
        old(self).bounds(l.len());
        assert forall|i: nat| i <= l.len() implies #[trigger] pre(l.push(string@), i) == pre(l, i) by { pre_push(l, string@, i); }
        assert(pre(l.push(string@), l.len() + 1) == pre(l.push(string@), l.len()) + string@.len() + 1);
        assert(l.push(string@).len() == l.len() + 1);
    }
//@END
//@FN file=write/string.rs name=get_offset in=StringTable<
//@SPEC requires id.0 < self.offsets@.len() ensures r == self.offsets@[id.0 as int]
//@END
#[verifier::loop_isolation(false)]
//@FN file=write/string.rs name=write in=StringTable<
//@SUBST self.strings.iter().any(|s| s.contains(&0)) ==> any_null(&self.strings)
//@SUBST Error("string table already written".into()) ==> Error
//@SUBST Error("string table entry contains null byte".into()) ==> Error
//@SUBST debug_assert_eq!(self.base, base); ==> assert(self.base == base);
//@SUBST for string in &self.strings { ==> for string in each(&self.strings) {
//@SUBST u32::try_from(self.size).map_err(|_| Error("string table size overflow".into())) ==> u32_of(self.size)
//@SUBST u32::try_from(offset).map_err(|_| Error("string table size overflow".into())) ==> u32_of(offset)
//@SUBST (0..self.strings.len()).collect() ==> indices(self.strings.len())
//@SUBST vec![0; ids.len()] ==> zeros(ids.len())
//@SUBST previous.is_some_and(|previous| previous.ends_with(string)) ==> (match previous { Some(previous) => ends_with(previous, string), None => false })
//@SPEC requires old(self).wf(), old(self).sane(), old(self).in_order ==> old(self).base == base
    ensures
        final(self).strings.list() == old(self).strings.list(), final(self).in_order == old(self).in_order,
        final(w).out().len() >= old(w).out().len(), final(w).out().take(old(w).out().len() as int) == old(w).out(),
        // the reported size is the base and the bytes written
        r.is_ok() ==> r.unwrap() == base + final(w).out().len() - old(w).out().len(),
        // and every string is at its offset
        r.is_ok() ==> final(self).offsets@.len() == final(self).strings.list().len(),
        r.is_ok() ==> forall|i: int| 0 <= i < final(self).offsets@.len() ==>
            at(final(w).out().skip(old(w).out().len() as int), #[trigger] final(self).offsets@[i] - base, final(self).strings.list()[i]),
//@START let ghost w0 = w.out(); let ghost l = self.strings.list(); let ghost n = l.len();
    let ghost mut g: Seq<int> = Seq::new(n, |i: int| 0);
    proof { self.bounds(n); assert(w0.take(w0.len() as int) =~= w0); }
//@LOOP 0 vec
    invariant
        it0 <= n, src0@.len() == n, *self == *old(self), w.out() == w0 + joined(l, it0 as nat),
        forall|i: int| 0 <= i < n ==> (#[trigger] src0@[i])@ == l[i],
    decreases n - it0
//@BEFORE 0 proof { assert(w0 + joined(l, 0) =~= w0); }
//@TAIL 0 proof { assert(w.out() =~= w0 + joined(l, it0 as nat)); }
//@AFTER 0 proof {
        assert(w.out().take(w0.len() as int) =~= w0);
        assert(w.out().skip(w0.len() as int) =~= joined(l, n));
        joined_len(l, n);
        assert forall|i: int| 0 <= i < n && self.size <= u32::MAX implies at(joined(l, n), #[trigger] self.offsets@[i] - base, l[i]) by {
            joined_at(l, n, i);
            assert(pre(l, i as nat) <= pre(l, n));
        }
    }
//@LOOP 1 vec
    invariant
        it1 <= n, src1@.len() == n, perm(src1@, n), self.strings == old(self).strings, self.in_order == old(self).in_order,
        self.offsets@.len() == n, g.len() == n,
        w.out().len() >= w0.len(), w.out().take(w0.len() as int) == w0,
        offset == base + w.out().len() - w0.len(), offset <= base + it1 * 0x1_0000_0000,
        forall|k: int| 0 <= k < it1 ==> at(w.out().skip(w0.len() as int), #[trigger] g[src1@[k] as int] - base, l[src1@[k] as int]),
        forall|k: int| 0 <= k < it1 ==> #[trigger] self.offsets@[src1@[k] as int] == (g[src1@[k] as int] as u64) as u32 && 0 <= g[src1@[k] as int] <= offset,
        match previous { None => true, Some(p) => at(w.out().skip(w0.len() as int), offset - base - p@.len() - 1, p@) },
    decreases n - it1
//@BODY 1 let ghost b0 = w.out().skip(w0.len() as int); let ghost o0 = offset; let ghost g0 = g; let ghost wo = w.out();
    assert(src1@[it1 as int - 1] == id);
//@TAIL 1 proof {
        assert(l[id as int] == string@ && l[id as int].len() < 0x1_0000_0000);
        let b1 = w.out().skip(w0.len() as int);
        assert(w.out().take(w0.len() as int) =~= w0);
        if b1.len() == b0.len() {
            // merged into the string before
            let p = previous.unwrap()@;
            let s = string@;
            g = g0.update(id as int, offset as int - s.len() - 1);
            assert(b1 =~= b0);
            let o = offset - base - s.len() - 1;
            assert(p.skip(p.len() - s.len()) == s);
            assert(b1.subrange(o, o + s.len()) =~= p.skip(p.len() - s.len()));
            assert(at(b1, o, s));
        } else {
            g = g0.update(id as int, o0 as int);
            let s = string@;
            assert(w.out() == wo + s + seq![0u8]);
            assert(b1 =~= b0 + (s + seq![0u8]));
            let o = o0 - base;
            assert(b1.subrange(o, o + s.len()) =~= s);
            assert(at(b1, o, s));
        }
        assert forall|k: int| 0 <= k < it1 - 1 implies at(b1, #[trigger] g[src1@[k] as int] - base, l[src1@[k] as int]) by {
            assert(src1@[k] != id);
            if b1.len() != b0.len() { grows(b0, string@ + seq![0u8], g0[src1@[k] as int] - base, l[src1@[k] as int]); }
        }
        assert forall|k: int| 0 <= k < it1 implies #[trigger] self.offsets@[src1@[k] as int] == (g[src1@[k] as int] as u64) as u32 && 0 <= g[src1@[k] as int] <= offset by {
            if k < it1 - 1 { assert(src1@[k] != id); assert(g[src1@[k] as int] == g0[src1@[k] as int]); }
        }
    }
//@AFTER 1 proof {
        let b = w.out().skip(w0.len() as int);
        assert forall|i: int| 0 <= i < n && offset <= u32::MAX implies at(b, #[trigger] self.offsets@[i] - base, l[i]) by {
            assert(src1@.contains(i as usize));
            let k = choose|k: int| 0 <= k < n && src1@[k] == i as usize;
            assert(at(b, g[src1@[k] as int] - base, l[src1@[k] as int]));
            assert(self.offsets@[src1@[k] as int] == (g[i] as u64) as u32);
        }
    }
//@END
}
}
