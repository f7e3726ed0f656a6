use vstd::prelude::*;
verus! {
pub assume_specification [u32::checked_shr] (a: u32, b: u32) -> (r: Option<u32>)
    ensures r == (if b < 32 { Some(a >> b) } else { None });
// The file's fields and the lookups the walk relies on, as uninterpreted functions: the walk is
// proved for every meaning of them.
pub trait FileHeader { type Endian: Copy; type Sym; }
pub trait ReadRef<'a>: Copy {}
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct U32<E> { e: core::marker::PhantomData<E> }
impl<E: Copy> U32<E> {
    pub uninterp spec fn val(self, e: E) -> u32;
    #[verifier::external_body]
    pub fn get(&self, e: E) -> (r: u32) ensures r == self.val(e) { unimplemented!() }
}
#[verifier::external_body]
pub struct Version<'a> { n: &'a [u8] }
#[verifier::external_body]
pub struct Error { n: u8 }
pub struct StringTable<'a, R> { r: R, a: &'a [u8] }
impl<'a, R: Copy> Copy for StringTable<'a, R> {}
impl<'a, R: Copy> Clone for StringTable<'a, R> { fn clone(&self) -> Self { *self } }
pub struct SymbolIndex(pub usize);
impl Copy for SymbolIndex {}
impl Clone for SymbolIndex { fn clone(&self) -> Self { *self } }
impl SymbolIndex {
    fn is(self, o: SymbolIndex) -> (r: bool) ensures r == (self.0 == o.0) { self.0 == o.0 }
}
#[verifier::reject_recursive_types(Elf)]
pub struct SymbolTable<'a, Elf: FileHeader, R> { pub syms: &'a [Elf::Sym], pub strings: StringTable<'a, R> }
impl<'a, Elf: FileHeader, R: ReadRef<'a>> SymbolTable<'a, Elf, R> {
    fn strings(&self) -> (r: StringTable<'a, R>) ensures r == self.strings { self.strings }
    fn symbols(&self) -> (r: &'a [Elf::Sym]) ensures r == self.syms { self.syms }
    #[verifier::external_body]
    fn symbol(&self, i: SymbolIndex) -> (r: Result<&'a Elf::Sym, Error>)
        ensures r.is_ok() == (i.0 < self.syms@.len()), i.0 < self.syms@.len() ==> *r->Ok_0 == self.syms@[i.0 as int]
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(Elf)]
pub struct VersionTable<'a, Elf: FileHeader> { e: core::marker::PhantomData<&'a Elf> }
impl<'a, Elf: FileHeader> VersionTable<'a, Elf> {
    pub uninterp spec fn ok(&self, e: Elf::Endian, i: int, v: Option<&Version<'_>>) -> bool;
    #[verifier::external_body]
    fn matches(&self, e: Elf::Endian, i: SymbolIndex, v: Option<&Version<'_>>) -> (r: bool) ensures r == self.ok(e, i.0 as int, v) { unimplemented!() }
}
/// the symbol has that name
pub uninterp spec fn named<'a, Elf: FileHeader, R>(s: Elf::Sym, e: Elf::Endian, t: StringTable<'a, R>, n: Seq<u8>) -> bool;
#[verifier::external_body]
fn name_is<'a, Elf: FileHeader, R>(s: &'a Elf::Sym, e: Elf::Endian, t: StringTable<'a, R>, n: &[u8]) -> (r: bool)
    ensures r == named::<Elf, R>(*s, e, t, n@) { unimplemented!() }

pub open spec fn hit<'a, Elf: FileHeader, R>(i: int, st: &SymbolTable<'a, Elf, R>, e: Elf::Endian, n: Seq<u8>, vt: &VersionTable<'a, Elf>, v: Option<&Version<'_>>) -> bool {
    0 <= i < st.syms@.len() && named::<Elf, R>(st.syms@[i], e, st.strings, n) && vt.ok(e, i, v)
}

#[verifier::reject_recursive_types(Elf)]
pub struct HashTable<'data, Elf: FileHeader> { pub buckets: &'data [U32<Elf::Endian>], pub chains: &'data [U32<Elf::Endian>] }
impl<'data, Elf: FileHeader> HashTable<'data, Elf> {
    /// Entry k of the chain of a hash: the bucket, then the chain links; -1 once it ends.
    pub open spec fn link(&self, e: Elf::Endian, h: u32, k: nat) -> int decreases k {
        if k == 0 {
            if self.buckets@.len() == 0 { -1 } else { self.buckets@[h as int % self.buckets@.len() as int].val(e) as int }
        } else {
            let p = self.link(e, h, (k - 1) as nat);
            if p <= 0 || p >= self.chains@.len() { -1 } else { self.chains@[p].val(e) as int }
        }
    }
//@FN file=read/elf/hash.rs name=bucket in=HashTable<
//@SPEC ensures r.is_some() == (self.buckets@.len() != 0), r.is_some() ==> r.unwrap().0 == self.link(endian, hash, 0)
//@END
//@FN file=read/elf/hash.rs name=chain in=HashTable<
//@SPEC ensures r.is_some() == (index.0 < self.chains@.len()), r.is_some() ==> r.unwrap().0 == self.chains@[index.0 as int].val(endian)
//@END
//@FN file=read/elf/hash.rs name=find in=HashTable<
//@SUBST symbol.name(endian, strings) == Ok(name) ==> name_is::<Elf, R>(symbol, endian, strings, name)
//@SUBST index != SymbolIndex(0) ==> !index.is(SymbolIndex(0))
//@SPEC ensures
    // only the first match on the chain is returned, and it is returned
    r.is_some() ==> hit(r.unwrap().0.0 as int, symbols, endian, name@, versions, version) && *r.unwrap().1 == symbols.syms@[r.unwrap().0.0 as int]
        && exists|k: nat| #![trigger self.link(endian, hash, k)] self.link(endian, hash, k) == r.unwrap().0.0 && k < self.chains@.len()
        && forall|j: nat| #![trigger self.link(endian, hash, j)] j < k ==> !hit(self.link(endian, hash, j), symbols, endian, name@, versions, version),
    r.is_none() ==> forall|k: nat| #![trigger self.link(endian, hash, k)] k < self.chains@.len() && self.link(endian, hash, k) > 0 ==>
        !hit(self.link(endian, hash, k), symbols, endian, name@, versions, version),
//@LOOP 0
    invariant
        i <= self.chains@.len(), strings == symbols.strings,
        index.0 == self.link(endian, hash, i as nat),
        forall|j: nat| #![trigger self.link(endian, hash, j)] j < i ==> self.link(endian, hash, j) > 0 && !hit(self.link(endian, hash, j), symbols, endian, name@, versions, version),
    decreases self.chains@.len() - i
//@BODY 0 proof { self.ended(endian, hash, (i + 1) as nat); }
//@START proof { self.ended(endian, hash, 0); }
//@AFTER 0 proof { self.ended(endian, hash, i as nat); }
//@END
    /// Behind the end there is nothing.
    proof fn ended(&self, e: Elf::Endian, h: u32, k: nat)
        ensures self.link(e, h, k) <= 0 ==> forall|j: nat| #![trigger self.link(e, h, j)] j > k ==> self.link(e, h, j) == -1
    {
        if self.link(e, h, k) <= 0 {
            assert forall|j: nat| #![trigger self.link(e, h, j)] j > k implies self.link(e, h, j) == -1 by { self.ended_at(e, h, k, j); }
        }
    }
    proof fn ended_at(&self, e: Elf::Endian, h: u32, k: nat, j: nat)
        requires self.link(e, h, k) <= 0, j > k
        ensures self.link(e, h, j) == -1
        decreases j
    { if j > k + 1 { self.ended_at(e, h, k, (j - 1) as nat); } }
}

/// The words of the bloom filter, in the file's byte order.
pub uninterp spec fn w64<Elf: FileHeader>(d: Seq<u8>, off: int, e: Elf::Endian) -> u64;
pub uninterp spec fn w32<Elf: FileHeader>(d: Seq<u8>, off: int, e: Elf::Endian) -> u32;
pub open spec fn word<Elf: FileHeader>(d: Seq<u8>, off: int, e: Elf::Endian) -> Option<u64> {
    if off + wsize::<Elf>() > d.len() { None } else if wsize::<Elf>() == 8 { Some(w64::<Elf>(d, off, e)) } else { Some(w32::<Elf>(d, off, e) as u64) }
}
pub uninterp spec fn wsize<Elf: FileHeader>() -> u32;
#[verifier::external_body]
fn word_size<Elf: FileHeader>() -> (r: usize) ensures r == wsize::<Elf>() { unimplemented!() }
#[verifier::external_body]
fn word64<Elf: FileHeader>(d: &[u8], off: u64, e: Elf::Endian) -> (r: Option<u64>)
    ensures r == (if off + 8 <= d@.len() { Some(w64::<Elf>(d@, off as int, e)) } else { None }) { unimplemented!() }
#[verifier::external_body]
fn word32<Elf: FileHeader>(d: &[u8], off: u64, e: Elf::Endian) -> (r: Option<u32>)
    ensures r == (if off + 4 <= d@.len() { Some(w32::<Elf>(d@, off as int, e)) } else { None }) { unimplemented!() }
#[verifier::external_body]
fn tail<T>(s: &[T], from: usize) -> (r: Option<&[T]>)
    ensures r.is_some() == (from <= s@.len()), r.is_some() ==> r.unwrap()@ == s@.skip(from as int) { unimplemented!() }

#[verifier::reject_recursive_types(Elf)]
pub struct GnuHashTable<'data, Elf: FileHeader> {
    pub symbol_base: u32, pub bloom_shift: u32, pub bloom_filters: &'data [u8],
    pub buckets: &'data [U32<Elf::Endian>], pub values: &'data [U32<Elf::Endian>],
}
impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
    pub open spec fn wf(&self) -> bool { wsize::<Elf>() == 4 || wsize::<Elf>() == 8 }
    /// The chain of a hash starts at its bucket.
    pub open spec fn start(&self, e: Elf::Endian, h: u32) -> int {
        if self.buckets@.len() == 0 { 0 } else { self.buckets@[h as int % self.buckets@.len() as int].val(e) as int }
    }
    /// The value of symbol i, if the table has one.
    pub open spec fn value(&self, e: Elf::Endian, i: int) -> u32 { self.values@[i - self.symbol_base].val(e) }
    /// Symbol i is on the chain of the hash: nothing from its start on ended it before.
    pub open spec fn on_chain(&self, e: Elf::Endian, h: u32, i: int, nsym: int) -> bool {
        let s = self.start(e, h);
        s != 0 && s <= i < nsym && s >= self.symbol_base && i - self.symbol_base < self.values@.len()
        && forall|j: int| #![trigger self.value(e, j)] s <= j < i ==> self.value(e, j) & 1 == 0
    }
    /// The bloom filter admits the hash (gABI for GNU: both bits of the word are set).
    pub open spec fn admits(&self, e: Elf::Endian, h: u32) -> bool {
        let w = wsize::<Elf>(); let n = self.bloom_filters@.len() as int / w as int; let bits = (w * 8) as u32;
        n > 0 && self.bloom_shift < 32 && {
            let f = word::<Elf>(self.bloom_filters@, (((h / bits) & (n as u32 - 1) as u32) as int) * w, e);
            f.is_some() && f.unwrap() & (1u64 << ((h % bits) as u64)) != 0 && f.unwrap() & (1u64 << (((h >> self.bloom_shift) % bits) as u64)) != 0
        }
    }
//@FN file=read/elf/hash.rs name=bucket in=GnuHashTable<
//@SPEC ensures r.is_some() == (self.buckets@.len() != 0), r.is_some() ==> r.unwrap().0 == self.start(endian, hash)
//@END
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@FN file=read/elf/hash.rs name=find in=GnuHashTable<
//@SUBST symbol.name(endian, strings) == Ok(name) ==> name_is::<Elf, R>(symbol, endian, strings, name)
//@SUBST index == SymbolIndex(0) ==> index.is(SymbolIndex(0))
//@SUBST mem::size_of::<Elf::Word>() ==> word_size::<Elf>()
//@SUBST symbols.symbols().get(index.0..)? ==> tail(symbols.symbols(), index.0)?
//@SUBST self.bloom_filters.read_at::<U64<Elf::Endian>>(offset).ok()?.get(endian) ==> word64::<Elf>(self.bloom_filters, offset, endian)?
//@SUBST self.bloom_filters.read_at::<U32<Elf::Endian>>(offset).ok()?.get(endian).into() ==> u64::from(word32::<Elf>(self.bloom_filters, offset, endian)?)
//@SUBST self.values.get(index.0.checked_sub(self.symbol_base as usize)?..)? ==> tail(self.values, index.0.checked_sub(self.symbol_base as usize)?)?
//@SPEC requires self.wf(), self.bloom_filters@.len() <= 0xffff_ffff * wsize::<Elf>()
ensures
    r.is_some() ==> hit(r.unwrap().0.0 as int, symbols, endian, name@, versions, version),
    r.is_some() ==> *r.unwrap().1 == symbols.syms@[r.unwrap().0.0 as int],
    r.is_some() ==> self.admits(endian, hash),
    r.is_some() ==> self.on_chain(endian, hash, r.unwrap().0.0 as int, symbols.syms@.len() as int),
    r.is_some() ==> self.value(endian, r.unwrap().0.0 as int) | 1 == hash | 1,
    r.is_some() ==> forall|j: int| #![trigger self.value(endian, j)] self.start(endian, hash) <= j < r.unwrap().0.0 && self.value(endian, j) | 1 == hash | 1 ==> !hit(j, symbols, endian, name@, versions, version),
    r.is_none() && self.admits(endian, hash) ==> forall|i: int| #![trigger self.value(endian, i)] self.on_chain(endian, hash, i, symbols.syms@.len() as int)
        && self.value(endian, i) | 1 == hash | 1 ==> !hit(i, symbols, endian, name@, versions, version),
//@LOOP 0 zip
    invariant_except_break index.0 == self.start(endian, hash) + it0,
        forall|j: int| #![trigger self.value(endian, j)] self.start(endian, hash) <= j < index.0 ==> self.value(endian, j) & 1 == 0,
    invariant
        n0 == symbols0.syms@.len(), srca0@ == symbols0.syms@.skip(self.start(endian, hash)), srcb0@ == self.values@.skip(self.start(endian, hash) - self.symbol_base),
        it0 <= srca0@.len(), it0 <= srcb0@.len(), strings == symbols0.strings, self.admits(endian, hash),
        self.start(endian, hash) != 0, self.start(endian, hash) >= self.symbol_base,
        self.start(endian, hash) <= symbols0.syms@.len(), self.start(endian, hash) - self.symbol_base <= self.values@.len(),
        forall|j: int| #![trigger self.value(endian, j)] self.start(endian, hash) <= j < self.start(endian, hash) + it0 ==>
            (self.value(endian, j) | 1 == hash | 1 ==> !hit(j, symbols0, endian, name@, versions, version)),
    ensures
        it0 == srca0@.len() || it0 == srcb0@.len() || (it0 > 0 && self.value(endian, self.start(endian, hash) + it0 - 1) & 1 != 0),
    decreases srca0.len() - it0
//@BODY 0 proof { assert(value.val(endian) == self.value(endian, index.0 as int)); assert(*symbol == symbols0.syms@[index.0 as int]); }
//@START let ghost symbols0 = symbols; let n0 = symbols.symbols().len();
    proof {
        let w = wsize::<Elf>();
        assert(forall|a: u32, b: u32| a & b <= a && a & b <= b) by (bit_vector);
        assert(w == 4 || w == 8);
        let n = self.bloom_filters@.len() as int / w as int;
        if w == 4 { assert(n <= 0xffff_ffff); } else { assert(n <= 0xffff_ffff); }
    }
//@END
}
}
