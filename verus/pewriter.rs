use vstd::prelude::*;
verus! {
// The PE writer: where it puts headers and sections, and what becomes of the base relocations that are added to it,
// for every history of calls; and the reserving half of the COFF writer.
#[derive(Debug)]
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;
global size_of usize == 8;
#[derive(Clone, Copy)]
pub struct Le16(pub u16);
pub trait ToLe { fn le16(self) -> Le16; }
impl ToLe for u16 { fn le16(self) -> (r: Le16) ensures r.0 == self { Le16(self) } }
// Sizes of records are literals here: obligations of the Kani harnesses of C15 and C18.
pub mod pe {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub struct SectionFlags(pub u32);
    impl SectionFlags {
        pub fn contains(self, o: SectionFlags) -> (r: bool) ensures r == (self.0 & o.0 == o.0) { self.0 & o.0 == o.0 }
        pub fn with(self, o: SectionFlags) -> (r: SectionFlags) ensures r.0 == self.0 | o.0 { SectionFlags(self.0 | o.0) }
    }
    pub struct BaseRelocationType(pub u16);
    pub struct ImageBaseRelocation { pub virtual_address: u32, pub size_of_block: u32 }
//@CONSTS file=pe.rs like=IMAGE_SCN_(CNT_CODE|CNT_INITIALIZED_DATA|CNT_UNINITIALIZED_DATA|MEM_READ|MEM_WRITE|MEM_EXECUTE|MEM_DISCARDABLE)
//@CONSTS file=pe.rs like=IMAGE_DIRECTORY_ENTRY_(EXPORT|IMPORT|RESOURCE|EXCEPTION|SECURITY|BASERELOC)
//@CONSTS file=pe.rs like=IMAGE_SIZEOF_SYMBOL
}
pub open spec fn pow2(a: u32) -> bool { a != 0 && a & ((a - 1) as u32) == 0 }
pub open spec fn pow2l(a: u64) -> bool { a != 0 && a & ((a - 1) as u64) == 0 }
/// `r` is the first position from `before` on that is a multiple of the power of two `a`.
pub open spec fn placed(before: u32, a: u32, r: u32) -> bool { r >= before && r - before < a && r & ((a - 1) as u32) == 0 && (a == 1 ==> r == before) }
pub open spec fn placedl(before: u64, a: u64, r: u64) -> bool { r >= before && r - before < a && r & ((a - 1) as u64) == 0 && (a == 1 ==> r == before) }
pub open spec fn up(v: u32, a: u32) -> u32 { add(v, sub(a, 1)) & !sub(a, 1) }
pub proof fn up_is(v: u32, a: u32)
    requires pow2(a), v + a <= u32::MAX
    ensures placed(v, a, up(v, a))
{
    assert(a & sub(a, 1) == 0 && a != 0 && v <= add(v, sub(a, 1)) && sub(add(v, sub(a, 1)), v) < a ==> ({ let r = add(v, sub(a, 1)) & !sub(a, 1); r >= v && sub(r, v) < a && r & sub(a, 1) == 0 })) by (bit_vector);
    assert(a == 1 ==> (add(v, sub(a, 1)) & !sub(a, 1)) == v) by (bit_vector);
}
/// Wider positions of narrow alignments.
pub proof fn wide(v: u64, a: u32, r: u64)
    requires pow2(a), placedl(v, a as u64, r)
    ensures r <= v + a, r & ((a - 1) as u64) == 0
{}
pub proof fn wide2(a: u32) requires pow2(a) ensures pow2l(a as u64), a as u64 != 0
{ assert(a & sub(a, 1) == 0 && a != 0 ==> (a as u64) & sub(a as u64, 1) == 0) by (bit_vector); }
pub mod util { use super::*;
//@FN file=write/util.rs name=align pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires pow2l(size), offset + size <= u64::MAX ensures placedl(offset, size, r)
//@START proof { assert(size & sub(size, 1) == 0 && size != 0 && offset <= add(offset, sub(size, 1)) && sub(add(offset, sub(size, 1)), offset) < size ==> ({ let r = add(offset, sub(size, 1)) & !sub(size, 1); r >= offset && sub(r, offset) < size && r & sub(size, 1) == 0 })) by (bit_vector);
    assert(size == 1 ==> (add(offset, sub(size, 1)) & !sub(size, 1)) == offset) by (bit_vector); }
//@END
//@FN file=write/util.rs name=align_u32 pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires pow2(size), offset + size <= u32::MAX ensures r == up(offset, size), placed(offset, size, r)
//@START proof { up_is(offset, size); }
//@END
}
/// The bytes written so far.
pub struct Buffer { pub v: Vec<u8> }
pub open spec fn le32(v: u32) -> Seq<u8> { seq![(v & 0xff) as u8, (v >> 8 & 0xff) as u8, (v >> 16 & 0xff) as u8, (v >> 24) as u8] }
pub open spec fn le16(v: u16) -> Seq<u8> { seq![(v & 0xff) as u8, (v >> 8) as u8] }
pub open spec fn words(r: Seq<Le16>) -> Seq<u8> decreases r.len() { if r.len() == 0 { seq![] } else { words(r.drop_last()) + le16(r.last().0) } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// `write_pod` and `write_bytes` append the bytes of a record: C26, C01.
impl Buffer {
    #[verifier::external_body] pub fn count(&self) -> (r: u64) ensures r == self.v@.len() { unimplemented!() }
    #[verifier::external_body] pub fn resize(&mut self, n: u64) requires old(self).v@.len() <= n ensures final(self).v@ == old(self).v@ + zeros(n - old(self).v@.len()) { unimplemented!() }
    #[verifier::external_body] pub fn write_align(&mut self, n: u64) requires pow2l(n) ensures exists|z: int| 0 <= z < n && final(self).v@ == old(self).v@ + #[trigger] zeros(z) { unimplemented!() }
    #[verifier::external_body] pub fn write_pod(&mut self, b: &pe::ImageBaseRelocation) ensures final(self).v@ == old(self).v@ + le32(b.virtual_address) + le32(b.size_of_block) { unimplemented!() }
    #[verifier::external_body] pub fn write_pod_slice(&mut self, r: &[Le16]) ensures final(self).v@ == old(self).v@ + words(r@) { unimplemented!() }
}
/// `&v[at..][..n]`
#[verifier::external_body]
pub fn part(v: &Vec<Le16>, at: usize, n: usize) -> (r: &[Le16])
    requires at + n <= v@.len()
    ensures r@ == v@.subrange(at as int, at + n)
{ &v[at..][..n] }
#[derive(Clone, Copy)]
pub struct DataDirectory { pub virtual_address: u32, pub size: u32 }
/// Names are for the native round trip.
#[verifier::external_body]
pub fn a_name() -> [u8; 8] { unimplemented!() }
#[verifier::external_body]
pub fn dir_mut(v: &mut Vec<DataDirectory>, i: usize) -> (r: &mut DataDirectory)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ &mut v[i] }
#[verifier::external_body]
pub fn no_dirs(n: usize) -> (r: Vec<DataDirectory>)
    ensures r@ == Seq::new(n as nat, |i: int| DataDirectory { virtual_address: 0, size: 0 })
{ unimplemented!() }
#[verifier::external_body]
pub fn last_block(v: &mut Vec<RelocBlock>) -> (r: Option<&mut RelocBlock>)
    ensures r.is_none() ==> final(v)@ == old(v)@ && old(v)@.len() == 0,
        r.is_some() ==> old(v)@.len() > 0 && *r.unwrap() == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(r.unwrap()))
{ v.last_mut() }
#[derive(Clone, Copy)]
pub struct SectionRange { pub virtual_address: u32, pub virtual_size: u32, pub file_offset: u32, pub file_size: u32 }
pub struct Section { pub name: [u8; 8], pub characteristics: pe::SectionFlags, pub range: SectionRange }
#[derive(Clone, Copy)]
pub struct RelocBlock { pub virtual_address: u32, pub count: u32 }
pub open spec fn pages(b: Seq<RelocBlock>) -> Seq<u32> decreases b.len() {
    if b.len() == 0 { seq![] } else { pages(b.drop_last()) + Seq::new(b.last().count as nat, |i: int| b.last().virtual_address) }
}
pub open spec fn size_of(b: RelocBlock) -> int { 8 + 2 * b.count }
pub open spec fn sizes(b: Seq<RelocBlock>) -> int decreases b.len() { if b.len() == 0 { 0 } else { sizes(b.drop_last()) + size_of(b.last()) } }
/// `.iter().map(RelocBlock::size).sum()`
#[verifier::external_body]
pub fn total_size(b: &Vec<RelocBlock>) -> (r: u32)
    requires sizes(b@) <= u32::MAX
    ensures r == sizes(b@)
{ unimplemented!() }
/// What the reader makes of a relocation at a page: C18.
pub open spec fn decoded(s: Seq<(u32, u16)>) -> Seq<(u32, u16)> decreases s.len() {
    if s.len() == 0 { seq![] } else { let d = decoded(s.drop_last()); let l = s.last(); if l.1 == 0 { d } else { d.push((add(l.0, (l.1 & 0xfff) as u32), l.1 >> 12)) } }
}
pub proof fn decoded_push(s: Seq<(u32, u16)>, e: (u32, u16))
    ensures decoded(s.push(e)) == if e.1 == 0 { decoded(s) } else { decoded(s).push((add(e.0, (e.1 & 0xfff) as u32), e.1 >> 12)) }
{ assert(s.push(e).drop_last() =~= s); assert(s.push(e).last() == e); }
pub proof fn pages_push(b: Seq<RelocBlock>, n: RelocBlock)
    ensures pages(b.push(n)) == pages(b) + Seq::new(n.count as nat, |i: int| n.virtual_address), sizes(b.push(n)) == sizes(b) + size_of(n)
{ assert(b.push(n).drop_last() =~= b); assert(b.push(n).last() == n); }
pub proof fn sized(b: Seq<RelocBlock>) ensures sizes(b) == 8 * b.len() + 2 * pages(b).len(), sizes(b) >= 0 decreases b.len()
{ if b.len() > 0 { sized(b.drop_last()); } }
pub proof fn counted(b: Seq<RelocBlock>) ensures b.len() > 0 ==> b.last().count <= pages(b).len() {}
/// One more relocation in the last block.
pub proof fn grown(b: Seq<RelocBlock>, n: RelocBlock)
    requires b.len() > 0, n.virtual_address == b.last().virtual_address, n.count == b.last().count + 1
    ensures pages(b.drop_last().push(n)) == pages(b).push(n.virtual_address)
{
    pages_push(b.drop_last(), n);
    assert(pages(b.drop_last().push(n)) =~= pages(b).push(n.virtual_address));
}
/// Blocks are full pages of an even number of relocations, except for the number in the last one.
pub open spec fn blocks_ok(b: Seq<RelocBlock>) -> bool {
    forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).count > 0 && b[i].virtual_address & 0xfff == 0 && (i + 1 < b.len() ==> b[i].count & 1 == 0)
}
pub open spec fn added(b: Seq<RelocBlock>, r: Seq<Le16>) -> Seq<(u32, u16)> { Seq::new(r.len(), |i: int| (pages(b)[i], r[i].0)) }
pub open spec fn wf(w: Writer) -> bool { blocks_ok(w.reloc_blocks@) && pages(w.reloc_blocks@).len() == w.relocs@.len() }
/// Where a block's relocations start.
pub open spec fn start(b: Seq<RelocBlock>, k: int) -> int { pages(b.take(k)).len() as int }
pub open spec fn image(b: Seq<RelocBlock>, r: Seq<Le16>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { seq![] } else { image(b, r, k - 1) + le32(b[k - 1].virtual_address) + le32(size_of(b[k - 1]) as u32) + words(r.subrange(start(b, k - 1), start(b, k))) }
}
pub proof fn starts(b: Seq<RelocBlock>, k: int)
    requires 0 <= k < b.len()
    ensures start(b, k + 1) == start(b, k) + b[k].count, start(b, k + 1) <= pages(b).len(), start(b, b.len() as int) == pages(b).len()
    decreases b.len() - k
{
    assert(b.take(k + 1) =~= b.take(k).push(b[k]));
    pages_push(b.take(k), b[k]);
    assert(b.take(b.len() as int) =~= b);
    if k + 1 < b.len() { starts(b, k + 1); } else { assert(b.take(k + 1) =~= b); }
}
pub proof fn one_bit(a: u32, v: u32)
    requires v == a & !0xfffu32
    ensures v & 0xfff == 0
{ assert((a & !0xfffu32) & 0xfff == 0) by (bit_vector); }
/// The encoding of a relocation is undone by the decoding.
pub proof fn encoded(va: u32, typ: u16)
    requires typ < 16
    ensures ({ let page = va & !0xfffu32; let e = typ << 12u16 | (va & 0xfff) as u16; add(page, (e & 0xfff) as u32) == va && e >> 12 == typ && (e == 0 <==> typ == 0 && va & 0xfff == 0) })
{
    assert(typ < 16 ==> ({ let page = va & !0xfffu32; let e = typ << 12u16 | (va & 0xfff) as u16; add(page, (e & 0xfff) as u32) == va && e >> 12 == typ && (e == 0 <==> typ == 0 && va & 0xfff == 0) })) by (bit_vector);
}
pub proof fn even(a: u32) ensures a & 1 == 0 || a & 1 == 1, a & 1 != 0 && a < u32::MAX ==> add(a, 1) & 1 == 0
{ assert((a & 1 == 0 || a & 1 == 1) && (a & 1 != 0 && a < 0xffff_ffff ==> add(a, 1) & 1 == 0)) by (bit_vector); }
/// One more relocation in the last block.
pub proof fn more(b: Seq<RelocBlock>, r: Seq<Le16>, n: RelocBlock, v: Le16)
    requires b.len() > 0, pages(b).len() == r.len(), blocks_ok(b), n.virtual_address == b.last().virtual_address, n.count == b.last().count + 1
    ensures ({ let (c, s) = (b.drop_last().push(n), r.push(v)); pages(c).len() == s.len() && blocks_ok(c) && decoded(added(c, s)) == decoded(added(b, r).push((n.virtual_address, v.0))) && decoded(added(c, s)) == if v.0 == 0 { decoded(added(b, r)) } else { decoded(added(b, r)).push((add(n.virtual_address, (v.0 & 0xfff) as u32), v.0 >> 12)) } })
{
    let c = b.drop_last().push(n);
    grown(b, n);
    assert(added(c, r.push(v)) =~= added(b, r).push((n.virtual_address, v.0)));
    decoded_push(added(b, r), (n.virtual_address, v.0));
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).count > 0 && c[i].virtual_address & 0xfff == 0 && (i + 1 < c.len() ==> c[i].count & 1 == 0) by { let x = b[i]; }
}
/// A relocation in a block of its own.
pub proof fn fresh(b: Seq<RelocBlock>, r: Seq<Le16>, n: RelocBlock, v: Le16)
    requires pages(b).len() == r.len(), blocks_ok(b), b.len() > 0 ==> b.last().count & 1 == 0, n.count == 1, n.virtual_address & 0xfff == 0
    ensures ({ let (c, s) = (b.push(n), r.push(v)); pages(c).len() == s.len() && blocks_ok(c) && decoded(added(c, s)) == if v.0 == 0 { decoded(added(b, r)) } else { decoded(added(b, r)).push((add(n.virtual_address, (v.0 & 0xfff) as u32), v.0 >> 12)) } })
{
    let c = b.push(n);
    pages_push(b, n);
    assert(added(c, r.push(v)) =~= added(b, r).push((n.virtual_address, v.0)));
    decoded_push(added(b, r), (n.virtual_address, v.0));
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).count > 0 && c[i].virtual_address & 0xfff == 0 && (i + 1 < c.len() ==> c[i].count & 1 == 0) by { if i < b.len() { let x = b[i]; } }
}
impl RelocBlock {
//@FN file=write/pe.rs name=size in=RelocBlock pub=1
//@SUBST mem::size_of::<pe::ImageBaseRelocation>() as u32 ==> 8u32
//@SUBST mem::size_of::<u16>() as u32 ==> 2u32
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires size_of(*self) <= u32::MAX ensures r == size_of(*self)
//@END
}
pub struct Writer {
    pub is_64: bool, pub section_alignment: u32, pub file_alignment: u32,
    pub buffer: Buffer, pub len: u64, pub virtual_len: u32, pub headers_len: u32,
    pub code_address: u32, pub data_address: u32, pub code_len: u32, pub data_len: u32, pub bss_len: u32,
    pub nt_headers_offset: u32, pub data_directories: Vec<DataDirectory>, pub section_header_num: u16, pub sections: Vec<Section>,
    pub symbol_offset: u32, pub symbol_num: u32,
    pub reloc_blocks: Vec<RelocBlock>, pub relocs: Vec<Le16>, pub reloc_offset: u32,
}
/// In reach: images below 2^31 bytes.
pub open spec fn calm(w: Writer) -> bool { pow2(w.section_alignment) && pow2(w.file_alignment) && w.section_alignment <= 0x1000_0000 && w.file_alignment <= 0x1000_0000 && w.len < 0x4000_0000 && w.virtual_len < 0x4000_0000 && w.code_len < 0x4000_0000 && w.data_len < 0x4000_0000 && w.bss_len < 0x4000_0000 }
pub open spec fn has(c: pe::SectionFlags, f: pe::SectionFlags) -> bool { c.0 & f.0 == f.0 }
/// Room enough for any one call.
pub open spec fn low(w: Writer) -> bool { calm(w) && w.section_alignment <= 0x100_0000 && w.file_alignment <= 0x100_0000 && w.len < 0x1000_0000 && w.virtual_len < 0x1000_0000 && w.code_len < 0x1000_0000 && w.data_len < 0x1000_0000 && w.bss_len < 0x1000_0000 }
impl Writer {
/// A block of `n` bytes is at `r`, and nothing else has changed.
pub open spec fn took(&self, o: Writer, n: u32, a: u32, r: u32) -> bool {
    if n == 0 { *self == o && r == o.len } else {
        &&& *self == (Writer { len: self.len, ..o })
        &&& placedl(o.len, a as u64, r as u64)
        &&& self.len == r + n
    }
}
pub open spec fn has_section(&self, o: Writer, c: pe::SectionFlags, v: u32, d: u32, r: SectionRange) -> bool {
    let size = up(d, o.file_alignment);
    let av = up(v, o.file_alignment);
    let code = has(c, pe::IMAGE_SCN_CNT_CODE);
    let data = !code && has(c, pe::IMAGE_SCN_CNT_INITIALIZED_DATA);
    let bss = !code && !data && has(c, pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA);
    &&& r.virtual_address == o.virtual_len && r.virtual_size == v
    &&& self.virtual_len == up((o.virtual_len + v) as u32, o.section_alignment)
    &&& placed(d, o.file_alignment, size) && r.file_size == size
    &&& if size == 0 { r.file_offset == 0 && self.len == o.len } else { placedl(o.len, o.file_alignment as u64, r.file_offset as u64) && self.len == r.file_offset + size }
    &&& self.code_address == if code && o.code_address == 0 { o.virtual_len } else { o.code_address }
    &&& self.code_len == if code { o.code_len + av } else { o.code_len as int }
    &&& self.data_address == if (data || bss) && o.data_address == 0 { o.virtual_len } else { o.data_address }
    &&& self.data_len == if data { o.data_len + av } else { o.data_len as int }
    &&& self.bss_len == if bss { o.bss_len + av } else { o.bss_len as int }
    &&& self.sections@.len() == o.sections@.len() + 1 && self.sections@.drop_last() =~= o.sections@ && self.sections@.last().characteristics == c && self.sections@.last().range == r
}
pub open spec fn at(&self, o: Writer, i: int, r: SectionRange, n: u32) -> bool {
    self.data_directories@ == o.data_directories@.update(i, DataDirectory { virtual_address: r.virtual_address, size: n })
}
/// Everything but the layout.
pub open spec fn kept(&self, o: Writer) -> bool {
    *self == (Writer { virtual_len: self.virtual_len, len: self.len, code_address: self.code_address, code_len: self.code_len, data_address: self.data_address, data_len: self.data_len, bss_len: self.bss_len, sections: self.sections, ..o })
}
pub open spec fn kept_but_dir(&self, o: Writer) -> bool { self.kept(Writer { data_directories: self.data_directories, ..o }) }

//@FN file=write/pe.rs name=reserve_virtual in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires calm(*old(self)), len < 0x4000_0000 ensures r == old(self).virtual_len, *final(self) == (Writer { virtual_len: up((old(self).virtual_len + len) as u32, old(self).section_alignment), ..*old(self) }), placed((old(self).virtual_len + len) as u32, old(self).section_alignment, final(self).virtual_len)
//@END
//@FN file=write/pe.rs name=reserve_virtual_until in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires calm(*old(self)), old(self).virtual_len <= address < 0x4000_0000 ensures *final(self) == (Writer { virtual_len: up(address, old(self).section_alignment), ..*old(self) }), placed(address, old(self).section_alignment, final(self).virtual_len)
//@END
//@FN file=write/pe.rs name=virtual_len in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC ensures r == self.virtual_len
//@END
//@FN file=write/pe.rs name=reserved_len in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC ensures r == self.len
//@END
//@FN file=write/pe.rs name=len in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC ensures r == self.buffer.v@.len()
//@END
//@FN file=write/pe.rs name=reserve in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires calm(*old(self)), pow2(align_start), align_start <= 0x1000_0000 ensures final(self).took(*old(self), len, align_start, r), r <= old(self).len + align_start
//@START proof { wide2(align_start); }
//@END
//@FN file=write/pe.rs name=reserve_file in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires calm(*old(self)) ensures final(self).took(*old(self), len, old(self).file_alignment, r), r <= old(self).len + old(self).file_alignment
//@END
//@FN file=write/pe.rs name=reserve_align in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires calm(*old(self)), pow2(align_start), align_start <= 0x1000_0000 ensures *final(self) == (Writer { len: final(self).len, ..*old(self) }), placedl(old(self).len, align_start as u64, final(self).len)
//@START proof { wide2(align_start); }
//@END
//@FN file=write/pe.rs name=reserve_until in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires old(self).len <= offset ensures *final(self) == (Writer { len: offset as u64, ..*old(self) })
//@END
//@FN file=write/pe.rs name=pad_until in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires old(self).buffer.v@.len() <= offset ensures *final(self) == (Writer { buffer: final(self).buffer, ..*old(self) }), final(self).buffer.v@ == old(self).buffer.v@ + zeros(offset - old(self).buffer.v@.len())
//@END
//@FN file=write/pe.rs name=write_align in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires pow2(align_start) ensures *final(self) == (Writer { buffer: final(self).buffer, ..*old(self) }), exists|z: int| 0 <= z < align_start && final(self).buffer.v@ == old(self).buffer.v@ + #[trigger] zeros(z)
//@START proof { wide2(align_start); }
//@END
//@FN file=write/pe.rs name=reserve_dos_header in=Writer pub=1
//@SUBST mem::size_of::<pe::ImageDosHeader>() as u32 ==> 64u32
//@SUBST u32::from(section_header_num) ==> section_header_num as u32
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires old(self).len == 0, calm(*old(self)) ensures *final(self) == (Writer { len: 64, ..*old(self) })
//@START proof { assert(1u32 & 0 == 0) by (bit_vector); assert(8u32 & 7 == 0) by (bit_vector); }
//@END
//@FN file=write/pe.rs name=reserve_dos_header_and_stub in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires old(self).len == 0, calm(*old(self)) ensures *final(self) == (Writer { len: 128, ..*old(self) })
//@START proof { assert(1u32 & 0 == 0) by (bit_vector); assert(8u32 & 7 == 0) by (bit_vector); }
//@END
//@FN file=write/pe.rs name=nt_headers_size in=Writer pub=1
//@SUBST mem::size_of::<pe::ImageNtHeaders64>() as u32 ==> 136u32
//@SUBST mem::size_of::<pe::ImageNtHeaders32>() as u32 ==> 120u32
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC ensures r == if self.is_64 { 136u32 } else { 120 }
//@END
//@FN file=write/pe.rs name=nt_headers_offset in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC ensures r == self.nt_headers_offset
//@END
//@FN file=write/pe.rs name=reserve_nt_headers in=Writer pub=1
//@SUBST vec![DataDirectory::default(); data_directory_num] ==> no_dirs(data_directory_num)
//@SUBST mem::size_of::<pe::ImageDataDirectory>() as u32 ==> 8u32
//@SUBST u32::from(section_header_num) ==> section_header_num as u32
//@SUBST self.nt_headers_offset = self.reserve(self.nt_headers_size(), 8); ==> let nt_size = self.nt_headers_size(); self.nt_headers_offset = self.reserve(nt_size, 8);
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), data_directory_num <= 0x1000 ensures *final(self) == (Writer { len: final(self).len, nt_headers_offset: final(self).nt_headers_offset, data_directories: final(self).data_directories, ..*old(self) }), placedl(old(self).len, 8, final(self).nt_headers_offset as u64), final(self).len == final(self).nt_headers_offset + if old(self).is_64 { 136int } else { 120 } + 8 * data_directory_num, final(self).data_directories@ == Seq::new(data_directory_num as nat, |i: int| DataDirectory { virtual_address: 0, size: 0 })
//@START proof { assert(1u32 & 0 == 0) by (bit_vector); assert(8u32 & 7 == 0) by (bit_vector); }
//@END
//@FN file=write/pe.rs name=set_data_directory in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires index < old(self).data_directories@.len() ensures *final(self) == (Writer { data_directories: final(self).data_directories, ..*old(self) }), final(self).data_directories@ == old(self).data_directories@.update(index as int, DataDirectory { virtual_address, size })
//@END
//@FN file=write/pe.rs name=reserve_section_headers in=Writer pub=1
//@SUBST mem::size_of::<pe::ImageSectionHeader>() as u32 ==> 40u32
//@SUBST u32::from(section_header_num) ==> section_header_num as u32
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)) ensures *final(self) == (Writer { len: final(self).len, virtual_len: final(self).virtual_len, headers_len: final(self).headers_len, section_header_num, ..*old(self) }), placedl((old(self).len + 40 * section_header_num) as u64, old(self).file_alignment as u64, final(self).len), final(self).headers_len == final(self).len, final(self).virtual_len == up((old(self).virtual_len + final(self).len) as u32, old(self).section_alignment)
//@START proof { assert(1u32 & 0 == 0) by (bit_vector); assert(8u32 & 7 == 0) by (bit_vector); }
//@END
//@FN file=write/pe.rs name=reserve_section in=Writer pub=1
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), virtual_size < 0x1000_0000, data_size < 0x1000_0000 ensures final(self).has_section(*old(self), characteristics, virtual_size, data_size, r), final(self).kept(*old(self)), final(self).sections@.last().name == name
//@START proof { up_is(data_size, self.file_alignment); up_is(virtual_size, self.file_alignment); }
//@END
//@FN file=write/pe.rs name=reserve_text_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".text\0\0\0" ==> a_name()
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), size < 0x1000_0000 ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_CODE.0 | pe::IMAGE_SCN_MEM_EXECUTE.0 | pe::IMAGE_SCN_MEM_READ.0), size, size, r), final(self).kept(*old(self))
//@END
//@FN file=write/pe.rs name=reserve_data_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".data\0\0\0" ==> a_name()
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), virtual_size < 0x1000_0000, data_size < 0x1000_0000 ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_INITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0 | pe::IMAGE_SCN_MEM_WRITE.0), virtual_size, data_size, r), final(self).kept(*old(self))
//@END
//@FN file=write/pe.rs name=reserve_rdata_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".rdata\0\0" ==> a_name()
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), size < 0x1000_0000 ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_INITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0), size, size, r), final(self).kept(*old(self))
//@END
//@FN file=write/pe.rs name=reserve_bss_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".bss\0\0\0\0" ==> a_name()
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), size < 0x1000_0000 ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0 | pe::IMAGE_SCN_MEM_WRITE.0), size, 0, r), final(self).kept(*old(self))
//@END
//@FN file=write/pe.rs name=reserve_idata_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".idata\0\0" ==> a_name()
//@SUBST &mut self.data_directories[pe::IMAGE_DIRECTORY_ENTRY_IMPORT] ==> dir_mut(&mut self.data_directories, pe::IMAGE_DIRECTORY_ENTRY_IMPORT)
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), size < 0x1000_0000, pe::IMAGE_DIRECTORY_ENTRY_IMPORT < old(self).data_directories@.len() ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_INITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0 | pe::IMAGE_SCN_MEM_WRITE.0), size, size, r), final(self).kept_but_dir(*old(self)), final(self).at(*old(self), pe::IMAGE_DIRECTORY_ENTRY_IMPORT as int, r, size)
//@END
//@FN file=write/pe.rs name=reserve_edata_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".edata\0\0" ==> a_name()
//@SUBST &mut self.data_directories[pe::IMAGE_DIRECTORY_ENTRY_EXPORT] ==> dir_mut(&mut self.data_directories, pe::IMAGE_DIRECTORY_ENTRY_EXPORT)
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), size < 0x1000_0000, pe::IMAGE_DIRECTORY_ENTRY_EXPORT < old(self).data_directories@.len() ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_INITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0), size, size, r), final(self).kept_but_dir(*old(self)), final(self).at(*old(self), pe::IMAGE_DIRECTORY_ENTRY_EXPORT as int, r, size)
//@END
//@FN file=write/pe.rs name=reserve_pdata_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".pdata\0\0" ==> a_name()
//@SUBST &mut self.data_directories[pe::IMAGE_DIRECTORY_ENTRY_EXCEPTION] ==> dir_mut(&mut self.data_directories, pe::IMAGE_DIRECTORY_ENTRY_EXCEPTION)
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), size < 0x1000_0000, pe::IMAGE_DIRECTORY_ENTRY_EXCEPTION < old(self).data_directories@.len() ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_INITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0), size, size, r), final(self).kept_but_dir(*old(self)), final(self).at(*old(self), pe::IMAGE_DIRECTORY_ENTRY_EXCEPTION as int, r, size)
//@END
//@FN file=write/pe.rs name=reserve_xdata_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".xdata\0\0" ==> a_name()
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), size < 0x1000_0000 ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_INITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0), size, size, r), final(self).kept(*old(self))
//@END
//@FN file=write/pe.rs name=reserve_rsrc_section in=Writer pub=1
//@SUBST pe::IMAGE_SCN_CNT_CODE | pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_CODE.with(pe::IMAGE_SCN_MEM_EXECUTE).with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ | pe::IMAGE_SCN_MEM_WRITE, ==> pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ).with(pe::IMAGE_SCN_MEM_WRITE),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA | pe::IMAGE_SCN_MEM_READ, ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA.with(pe::IMAGE_SCN_MEM_READ),
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST *b".rsrc\0\0\0" ==> a_name()
//@SUBST &mut self.data_directories[pe::IMAGE_DIRECTORY_ENTRY_RESOURCE] ==> dir_mut(&mut self.data_directories, pe::IMAGE_DIRECTORY_ENTRY_RESOURCE)
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), size < 0x1000_0000, pe::IMAGE_DIRECTORY_ENTRY_RESOURCE < old(self).data_directories@.len() ensures final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_INITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0), size, size, r), final(self).kept_but_dir(*old(self)), final(self).at(*old(self), pe::IMAGE_DIRECTORY_ENTRY_RESOURCE as int, r, size)
//@END
//@FN file=write/pe.rs name=add_reloc in=Writer pub=1
//@SUBST let reloc = (typ.0 << 12 | (virtual_address & 0xfff) as u16).into(); ==> let ghost va = virtual_address; let ghost (b0, r0) = (self.reloc_blocks@, self.relocs@); let reloc = (typ.0 << 12 | (virtual_address & 0xfff) as u16).le16(); proof { encoded(va, typ.0); one_bit(va, va & !0xfffu32); counted(b0); assert(b0.len() > 0 ==> b0.drop_last().push(b0.last()) =~= b0); }
//@SUBST self.reloc_blocks.last_mut() ==> last_block(&mut self.reloc_blocks)
//@SUBST return; ==> proof { more(b0, r0, *block, reloc); } return;
//@SUBST self.relocs.push(0.into()); ==> self.relocs.push(0u16.le16()); proof { even(block.count); more(b0, r0, RelocBlock { virtual_address: block.virtual_address, count: (block.count + 1) as u32 }, Le16(0)); }
//@SUBST self.reloc_blocks.push(RelocBlock { ==> proof { if self.relocs@.len() == r0.len() + 1 { assert(self.relocs@.drop_last() =~= r0); } else { assert(self.relocs@.drop_last() =~= r0.push(Le16(0))); } fresh(self.reloc_blocks@, self.relocs@.drop_last(), RelocBlock { virtual_address, count: 1 }, reloc); assert(self.relocs@.drop_last().push(reloc) =~= self.relocs@); } self.reloc_blocks.push(RelocBlock {
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires wf(*old(self)), old(self).relocs@.len() < 0x1000_0000, typ.0 < 16
    ensures wf(*final(self)), *final(self) == (Writer { reloc_blocks: final(self).reloc_blocks, relocs: final(self).relocs, ..*old(self) }),
        final(self).relocs@.len() <= old(self).relocs@.len() + 2, final(self).reloc_blocks@.len() <= old(self).reloc_blocks@.len() + 1,
        decoded(added(final(self).reloc_blocks@, final(self).relocs@)) == (if typ.0 == 0 && virtual_address & 0xfff == 0 { decoded(added(old(self).reloc_blocks@, old(self).relocs@)) } else { decoded(added(old(self).reloc_blocks@, old(self).relocs@)).push((virtual_address, typ.0)) })
//@END
//@FN file=write/pe.rs name=reserve_reloc_section in=Writer pub=1
//@SUBST self.reloc_blocks.last_mut() ==> last_block(&mut self.reloc_blocks)
//@SUBST self.relocs.push(0.into()); ==> self.relocs.push(0u16.le16()); proof { even(block.count); more(b0, r0, RelocBlock { virtual_address: block.virtual_address, count: (block.count + 1) as u32 }, Le16(0)); }
//@SUBST let size = self.reloc_blocks.iter().map(RelocBlock::size).sum(); ==> proof { sized(self.reloc_blocks@); } let size = total_size(&self.reloc_blocks);
//@SUBST *b".reloc\0\0" ==> a_name()
//@SUBST pe::IMAGE_SCN_CNT_INITIALIZED_DATA ==> pe::IMAGE_SCN_CNT_INITIALIZED_DATA
//@SUBST | pe::IMAGE_SCN_MEM_READ ==> .with(pe::IMAGE_SCN_MEM_READ)
//@SUBST | pe::IMAGE_SCN_MEM_DISCARDABLE ==> .with(pe::IMAGE_SCN_MEM_DISCARDABLE)
//@SUBST &mut self.data_directories[pe::IMAGE_DIRECTORY_ENTRY_BASERELOC] ==> dir_mut(&mut self.data_directories, pe::IMAGE_DIRECTORY_ENTRY_BASERELOC)
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires low(*old(self)), wf(*old(self)), old(self).relocs@.len() < 0x100_0000, old(self).reloc_blocks@.len() < 0x100_0000, pe::IMAGE_DIRECTORY_ENTRY_BASERELOC < old(self).data_directories@.len()
    ensures wf(*final(self)), final(self).reloc_blocks@.len() > 0 ==> final(self).reloc_blocks@.last().count & 1 == 0,
        final(self).reloc_blocks@.len() == old(self).reloc_blocks@.len(),
        decoded(added(final(self).reloc_blocks@, final(self).relocs@)) == decoded(added(old(self).reloc_blocks@, old(self).relocs@)),
        r.virtual_size == sizes(final(self).reloc_blocks@), final(self).reloc_offset == r.file_offset,
        final(self).has_section(*old(self), pe::SectionFlags(pe::IMAGE_SCN_CNT_INITIALIZED_DATA.0 | pe::IMAGE_SCN_MEM_READ.0 | pe::IMAGE_SCN_MEM_DISCARDABLE.0), r.virtual_size, r.virtual_size, r),
        final(self).at(*old(self), pe::IMAGE_DIRECTORY_ENTRY_BASERELOC as int, r, r.virtual_size),
        final(self).kept_but_dir(Writer { reloc_blocks: final(self).reloc_blocks, relocs: final(self).relocs, reloc_offset: final(self).reloc_offset, ..*old(self) })
//@START proof { counted(self.reloc_blocks@); assert(self.reloc_blocks@.len() > 0 ==> self.reloc_blocks@.drop_last().push(self.reloc_blocks@.last()) =~= self.reloc_blocks@); } let ghost (b0, r0) = (self.reloc_blocks@, self.relocs@); proof { }
//@END
//@FN file=write/pe.rs name=write_reloc_section in=Writer pub=1
//@SUBST let mut total = 0; ==> let mut total: usize = 0; let ghost base = self.buffer.v@; proof { assert(self.reloc_blocks@.take(0) =~= seq![]); assert(base + seq![] =~= base); }
//@SUBST virtual_address: block.virtual_address.into(), ==> virtual_address: block.virtual_address,
//@SUBST size_of_block: block.size().into(), ==> size_of_block: block.size(),
//@SUBST &self.relocs[total..][..block.count as usize] ==> part(&self.relocs, total, block.count as usize)
//@SUBST debug_assert_eq!(self.len, 0); ==>
//@SUBST debug_assert_eq!(self.nt_headers_offset, 0); ==>
//@SUBST debug_assert_eq!(self.section_header_num, 0); ==>
//@SUBST debug_assert_eq!(dir.virtual_address, 0); ==>
//@SUBST debug_assert!(self.virtual_len <= address); ==>
//@SUBST debug_assert!(self.len <= offset as u64); ==>
//@SUBST debug_assert!(self.len <= offset); ==>
//@SUBST debug_assert!(self.buffer.count() <= offset as u64); ==>
//@SUBST debug_assert!(block.virtual_address < virtual_address); ==>
//@SUBST debug_assert_eq!(total, self.relocs.len()); ==>
//@SUBST debug_assert_eq!(self.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SPEC requires wf(*old(self)), old(self).reloc_offset == 0 || old(self).buffer.v@.len() <= old(self).reloc_offset, pow2(old(self).file_alignment), old(self).relocs@.len() < 0x1000_0000
    ensures *final(self) == (Writer { buffer: final(self).buffer, ..*old(self) }),
        old(self).reloc_offset == 0 ==> final(self).buffer == old(self).buffer,
        old(self).reloc_offset != 0 ==> exists|z: int| 0 <= z < old(self).file_alignment && final(self).buffer.v@ == old(self).buffer.v@ + zeros(old(self).reloc_offset - old(self).buffer.v@.len()) + image(old(self).reloc_blocks@, old(self).relocs@, old(self).reloc_blocks@.len() as int) + #[trigger] zeros(z)
//@LOOP 0 vec invariant it0 <= src0@.len(), src0@ == self.reloc_blocks@, wf(*self), *self == (Writer { buffer: self.buffer, ..*old(self) }), old(self).relocs@.len() < 0x1000_0000,
        total == start(self.reloc_blocks@, it0 as int), self.buffer.v@ == base + image(self.reloc_blocks@, self.relocs@, it0 as int),
        decreases src0@.len() - it0,
//@BODY 0 let ghost k = it0 - 1; let ghost before = self.buffer.v@; proof { starts(self.reloc_blocks@, k); let x = self.reloc_blocks@[k]; }
//@TAIL 0 proof { assert(self.buffer.v@ =~= base + image(self.reloc_blocks@, self.relocs@, k + 1)); }
//@END
}
}
fn main() {}
