use vstd::prelude::*;
verus! {
// The reserving half of the two-phase ELF writer, for every state and every argument in reach: a block starts at the
// next position of its alignment, after everything reserved before, and nothing else of the state changes.
#[derive(Debug)]
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;
#[derive(Debug, Default, Clone, Copy)]
pub struct StringId(pub usize);
#[derive(Debug, Default, Clone, Copy)]
pub struct SectionIndex(pub u32);
#[derive(Debug, Default, Clone, Copy)]
pub struct SymbolIndex(pub u32);
/// Sizes of records: obligations of the Kani harnesses of C14.
#[derive(Clone, Copy)]
pub struct Encoder { pub is_64: bool }
pub open spec fn pick(e: Encoder, a: u64, b: u64) -> u64 { if e.is_64 { a } else { b } }
impl Encoder {
    #[verifier::external_body] pub fn address_size(self) -> (r: u64) ensures r == pick(self, 8, 4) { unimplemented!() }
    #[verifier::external_body] pub fn file_header_size(self) -> (r: u64) ensures r == pick(self, 64, 52) { unimplemented!() }
    #[verifier::external_body] pub fn program_header_size(self) -> (r: u64) ensures r == pick(self, 56, 32) { unimplemented!() }
    #[verifier::external_body] pub fn section_header_size(self) -> (r: u64) ensures r == pick(self, 64, 40) { unimplemented!() }
    #[verifier::external_body] pub fn sym_size(self) -> (r: u64) ensures r == pick(self, 24, 16) { unimplemented!() }
    #[verifier::external_body] pub fn dyn_size(self) -> (r: u64) ensures r == pick(self, 16, 8) { unimplemented!() }
    #[verifier::external_body] pub fn rel_size(self, is_rela: bool) -> (r: u64) ensures r == rel(self, is_rela) { unimplemented!() }
    #[verifier::external_body] pub fn hash_size(self, bucket_count: u32, chain_count: u32) -> (r: u64) ensures r == 8 + 4 * bucket_count + 4 * chain_count { unimplemented!() }
    #[verifier::external_body] pub fn gnu_hash_size(self, bloom_count: u32, bucket_count: u32, symbol_count: u32) -> (r: u64) ensures r == 16 + pick(self, 8, 4) * bloom_count + 4 * bucket_count + 4 * symbol_count { unimplemented!() }
    #[verifier::external_body] pub fn gnu_versym_size(self, symbol_count: u32) -> (r: u64) ensures r == 2 * symbol_count { unimplemented!() }
    #[verifier::external_body] pub fn gnu_verdef_size(self, verdef_count: u16, verdaux_count: usize) -> (r: u64) requires verdaux_count < 0x1_0000_0000 ensures r == 20 * verdef_count + 8 * verdaux_count { unimplemented!() }
    #[verifier::external_body] pub fn gnu_verneed_size(self, verneed_count: u16, vernaux_count: usize) -> (r: u64) requires vernaux_count < 0x1_0000_0000 ensures r == 16 * verneed_count + 16 * vernaux_count { unimplemented!() }
    /// A leading null byte and `StringTable::write`, whose contract is that of C13.
    #[verifier::external_body] pub fn strtab(self, buffer: &mut Vec<u8>, strtab: &mut StringTable) -> (r: Result<u32>) ensures r.is_ok() ==> r.unwrap() == final(buffer)@.len() - old(buffer)@.len() { unimplemented!() }
}
pub open spec fn rel(e: Encoder, rela: bool) -> u64 { if rela { pick(e, 24, 12) } else { pick(e, 16, 8) } }
global size_of usize == 8;
pub struct StringTable { pub s: Vec<u8> }
impl StringTable { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() } pub uninterp spec fn none(&self) -> bool; }
//@CONSTS file=write/elf/encoder.rs like=ALIGN_[A-Z_]+
pub mod elf { use vstd::prelude::*; pub struct Shn(pub u16); impl Shn { pub fn into(self) -> (r: u32) ensures r == self.0 { self.0 as u32 } } pub const SHN_LORESERVE: Shn = Shn(0xff00); }
pub struct FileHeaderLayout { pub e_phoff: u64, pub segment_num: u32, pub e_shoff: u64, pub section_num: u32, pub shstrtab_index: u32 }
pub struct TwoPhase { pub len: u64, pub shstrtab_data: Vec<u8>, pub strtab_data: Vec<u8>, pub dynstr_data: Vec<u8> }
/// The fields that reserving uses.
pub struct Writer {
    pub mode: TwoPhase, pub encoder: Encoder, pub layout: FileHeaderLayout,
    pub shstrtab: StringTable, pub shstrtab_str_id: Option<StringId>, pub shstrtab_offset: u64, pub shstrtab_size: u32,
    pub need_strtab: bool, pub strtab: StringTable, pub strtab_str_id: Option<StringId>, pub strtab_index: SectionIndex, pub strtab_offset: u64, pub strtab_size: u32,
    pub symtab_str_id: Option<StringId>, pub symtab_index: SectionIndex, pub symtab_offset: u64, pub symtab_num: u32,
    pub need_symtab_shndx: bool, pub symtab_shndx_str_id: Option<StringId>, pub symtab_shndx_offset: u64, pub symtab_shndx_data: Vec<u8>,
    pub need_dynstr: bool, pub dynstr: StringTable, pub dynstr_str_id: Option<StringId>, pub dynstr_index: SectionIndex, pub dynstr_offset: u64, pub dynstr_size: u32,
    pub dynsym_str_id: Option<StringId>, pub dynsym_index: SectionIndex, pub dynsym_offset: u64, pub dynsym_num: u32,
    pub dynamic_str_id: Option<StringId>, pub dynamic_offset: u64, pub dynamic_num: u64,
    pub hash_str_id: Option<StringId>, pub hash_offset: u64, pub hash_size: u64,
    pub gnu_hash_str_id: Option<StringId>, pub gnu_hash_offset: u64, pub gnu_hash_size: u64,
    pub gnu_versym_str_id: Option<StringId>, pub gnu_versym_offset: u64, pub gnu_versym_num: u32,
    pub gnu_verdef_str_id: Option<StringId>, pub gnu_verdef_offset: u64, pub gnu_verdef_count: u16, pub gnu_verdaux_count: usize, pub gnu_verdef_remaining: u16,
    pub gnu_verneed_str_id: Option<StringId>, pub gnu_verneed_offset: u64, pub gnu_verneed_count: u16, pub gnu_vernaux_count: usize, pub gnu_verneed_remaining: u16,
    pub gnu_attributes_str_id: Option<StringId>, pub gnu_attributes_offset: u64, pub gnu_attributes_size: u64,
}
pub open spec fn pow2(a: u64) -> bool { a != 0 && a & ((a - 1) as u64) == 0 }
/// The first position from `before` on that is a multiple of the power of two `a`.
pub open spec fn placed(before: u64, a: u64, r: u64) -> bool {
    r >= before && if a <= 1 { r == before } else { r - before < a && r & ((a - 1) as u64) == 0 }
}
pub mod util { use super::*;
//@FN file=write/util.rs name=align pub=1
//@SPEC requires pow2(size), offset + size <= u64::MAX ensures placed(offset, size, r)
//@START assert(size & sub(size, 1) == 0 && size != 0 && offset <= add(offset, sub(size, 1)) && sub(add(offset, sub(size, 1)), offset) < size ==> ({ let r = add(offset, sub(size, 1)) & !sub(size, 1); r >= offset && sub(r, offset) < size && r & sub(size, 1) == 0 })) by (bit_vector);
    assert(size == 1 ==> (add(offset, sub(size, 1)) & !sub(size, 1)) == offset) by (bit_vector);
//@END
}
#[verifier::external_body]
fn room(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@ { unimplemented!() }
proof fn words() ensures pow2(1), pow2(2), pow2(4), pow2(8) {
    assert(1u64 & 0 == 0) by (bit_vector); assert(2u64 & 1 == 0) by (bit_vector); assert(4u64 & 3 == 0) by (bit_vector); assert(8u64 & 7 == 0) by (bit_vector);
}
/// In reach: files below 2^62 bytes and indices below 2^32 - 1.
pub open spec fn calm(w: Writer) -> bool { w.mode.len < 0x4000_0000_0000_0000 }
impl Writer {
/// The name goes to the table of section names, and nothing else changes.
#[verifier::external_body]
pub fn add_section_name(&mut self, name: &[u8]) -> (r: StringId)
    ensures *final(self) == (Writer { shstrtab: final(self).shstrtab, ..*old(self) })
{ unimplemented!() }
/// Whether everything is as it was, with a block of `z` bytes at `r`.
pub open spec fn took(&self, old: Writer, a: u64, z: int, r: u64) -> bool {
    &&& placed(old.mode.len, a, r)
    &&& self.mode.len == r + z
    &&& self.mode == (TwoPhase { len: self.mode.len, ..old.mode })
}

//@FN file=write/elf/writer.rs name=reserved_len in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r == self.mode.len
//@END
//@FN file=write/elf/writer.rs name=reserve in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), align_start <= 1 || pow2(align_start), align_start <= 0x4000_0000_0000_0000, len <= 0x4000_0000_0000_0000 ensures final(self).took(*old(self), align_start, len as int, r), *final(self) == (Writer { mode: final(self).mode, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=reserve_until in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires old(self).mode.len <= offset ensures *final(self) == (Writer { mode: TwoPhase { len: offset, ..old(self).mode }, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_file_header in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)) ensures final(self).took(*old(self), 1, pick(old(self).encoder, 64, 52) as int, old(self).mode.len), *final(self) == (Writer { mode: final(self).mode, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=reserve_program_headers in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self))
    ensures num == 0 ==> *final(self) == *old(self),
        num > 0 ==> final(self).took(*old(self), pick(old(self).encoder, 8, 4), num * pick(old(self).encoder, 56, 32), final(self).layout.e_phoff)
            && *final(self) == (Writer { mode: final(self).mode, layout: FileHeaderLayout { e_phoff: final(self).layout.e_phoff, segment_num: num, ..old(self).layout }, ..*old(self) })
//@START proof { words(); assert(num * 56 <= 56 * 0xffff_ffff && num * 32 <= 32 * 0xffff_ffff) by (nonlinear_arith) requires num <= 0xffff_ffff; }
//@END
//@FN file=write/elf/writer.rs name=reserve_null_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r.0 == 0, *final(self) == (Writer { layout: FileHeaderLayout { section_num: if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }, ..old(self).layout }, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_section_headers in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self))
    ensures old(self).layout.section_num == 0 ==> *final(self) == *old(self),
        old(self).layout.section_num > 0 ==> final(self).took(*old(self), pick(old(self).encoder, 8, 4), old(self).layout.section_num * pick(old(self).encoder, 64, 40), final(self).layout.e_shoff)
            && *final(self) == (Writer { mode: final(self).mode, layout: FileHeaderLayout { e_shoff: final(self).layout.e_shoff, ..old(self).layout }, ..*old(self) })
//@START proof { words(); let n = self.layout.section_num; assert(n * 64 <= 64 * 0xffff_ffff && n * 40 <= 40 * 0xffff_ffff) by (nonlinear_arith) requires n <= 0xffff_ffff; }
//@END
//@FN file=write/elf/writer.rs name=reserve_shstrtab in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), old(self).mode.shstrtab_data@.len() == 0
    ensures !(old(self).layout.section_num != 0) ==> *final(self) == *old(self) && r.is_ok(),
        (old(self).layout.section_num != 0) && r.is_ok() ==>  final(self).shstrtab_offset == old(self).mode.len
            // the block is as long as the table
            && final(self).shstrtab_size == final(self).mode.shstrtab_data@.len()
            && final(self).mode.len == old(self).mode.len + final(self).shstrtab_size
            && *final(self) == (Writer { mode: TwoPhase { len: final(self).mode.len, shstrtab_data: final(self).mode.shstrtab_data, ..old(self).mode }, shstrtab: final(self).shstrtab, shstrtab_offset: final(self).shstrtab_offset, shstrtab_size: final(self).shstrtab_size, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=strtab_needed in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r == (self.need_strtab || !self.strtab.none())
//@END
//@FN file=write/elf/writer.rs name=require_strtab in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures *final(self) == (Writer { need_strtab: true, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_strtab in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), old(self).mode.strtab_data@.len() == 0
    ensures !(old(self).need_strtab || !old(self).strtab.none()) ==> *final(self) == *old(self) && r.is_ok(),
        (old(self).need_strtab || !old(self).strtab.none()) && r.is_ok() ==>  final(self).strtab_offset == old(self).mode.len
            // the block is as long as the table
            && final(self).strtab_size == final(self).mode.strtab_data@.len()
            && final(self).mode.len == old(self).mode.len + final(self).strtab_size
            && *final(self) == (Writer { mode: TwoPhase { len: final(self).mode.len, strtab_data: final(self).mode.strtab_data, ..old(self).mode }, strtab: final(self).strtab, strtab_offset: final(self).strtab_offset, strtab_size: final(self).strtab_size, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=dynstr_needed in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r == (self.need_dynstr || !self.dynstr.none())
//@END
//@FN file=write/elf/writer.rs name=require_dynstr in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures *final(self) == (Writer { need_dynstr: true, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_dynstr in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), old(self).mode.dynstr_data@.len() == 0
    ensures !(old(self).need_dynstr || !old(self).dynstr.none()) ==> *final(self) == *old(self) && r.is_ok() && r.unwrap() == 0,
        (old(self).need_dynstr || !old(self).dynstr.none()) && r.is_ok() ==> r.unwrap() == final(self).dynstr_offset && final(self).dynstr_offset == old(self).mode.len
            // the block is as long as the table
            && final(self).dynstr_size == final(self).mode.dynstr_data@.len()
            && final(self).mode.len == old(self).mode.len + final(self).dynstr_size
            && *final(self) == (Writer { mode: TwoPhase { len: final(self).mode.len, dynstr_data: final(self).mode.dynstr_data, ..old(self).mode }, dynstr: final(self).dynstr, dynstr_offset: final(self).dynstr_offset, dynstr_size: final(self).dynstr_size, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=dynstr_len in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST debug_assert_ne!(self.dynstr_offset, 0); ==> 
//@SPEC requires !(self.need_dynstr || !self.dynstr.none()) || self.dynstr_offset != 0 ensures r == if self.need_dynstr || !self.dynstr.none() { self.dynstr_size } else { 0 }
//@END
//@FN file=write/elf/writer.rs name=reserve_shstrtab_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).shstrtab_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, shstrtab_index: r.0, ..old(self).layout }, shstrtab: final(self).shstrtab, shstrtab_str_id: final(self).shstrtab_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_strtab_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).strtab_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, strtab_str_id: final(self).strtab_str_id, strtab_index: r, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_symtab_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).symtab_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, symtab_str_id: final(self).symtab_str_id, symtab_index: r, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_dynstr_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).dynstr_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, dynstr_str_id: final(self).dynstr_str_id, dynstr_index: r, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_dynsym_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).dynsym_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, dynsym_str_id: final(self).dynsym_str_id, dynsym_index: r, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_symtab_shndx_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).symtab_shndx_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, symtab_shndx_str_id: final(self).symtab_shndx_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_dynamic_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).dynamic_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, dynamic_str_id: final(self).dynamic_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_hash_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).hash_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, hash_str_id: final(self).hash_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_hash_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).gnu_hash_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, gnu_hash_str_id: final(self).gnu_hash_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_versym_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).gnu_versym_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, gnu_versym_str_id: final(self).gnu_versym_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_verdef_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).gnu_verdef_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, gnu_verdef_str_id: final(self).gnu_verdef_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_verneed_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).gnu_verneed_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, gnu_verneed_str_id: final(self).gnu_verneed_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_attributes_section_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST &b".dynamic"[..] ==> b".dynamic"
//@SPEC requires old(self).layout.section_num < u32::MAX ensures r.0 == (if old(self).layout.section_num == 0 { 1 } else { old(self).layout.section_num }), final(self).gnu_attributes_str_id.is_some(), *final(self) == (Writer { layout: FileHeaderLayout { section_num: (r.0 + 1) as u32, ..old(self).layout }, shstrtab: final(self).shstrtab, gnu_attributes_str_id: final(self).gnu_attributes_str_id, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_null_symbol_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r.0 == 0, *final(self) == (Writer { symtab_num: 1, need_strtab: true, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_symbol_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires old(self).symtab_num < u32::MAX
    ensures r.0 == (if old(self).symtab_num == 0 { 1 } else { old(self).symtab_num }),
        // extended section indices are needed when one does not fit
        *final(self) == (Writer { symtab_num: (r.0 + 1) as u32, need_strtab: old(self).need_strtab || old(self).symtab_num == 0, need_symtab_shndx: old(self).need_symtab_shndx || (section_index.is_some() && section_index.unwrap().0 >= 0xff00), ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=symbol_count in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r == self.symtab_num
//@END
//@FN file=write/elf/writer.rs name=reserve_symtab in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self))
    ensures !(old(self).symtab_num != 0) ==> *final(self) == *old(self),
        (old(self).symtab_num != 0) ==> final(self).took(*old(self), pick(old(self).encoder, 8, 4), old(self).symtab_num * pick(old(self).encoder, 24, 16), final(self).symtab_offset)
            && *final(self) == (Writer { mode: final(self).mode, symtab_offset: final(self).symtab_offset, ..*old(self) })
//@START proof { words(); let n = self.symtab_num; assert(n * 24 <= 24 * 0xffff_ffff && n * 16 <= 16 * 0xffff_ffff) by (nonlinear_arith) requires n <= 0xffff_ffff; }
//@END
//@FN file=write/elf/writer.rs name=symtab_shndx_needed in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r == self.need_symtab_shndx
//@END
//@FN file=write/elf/writer.rs name=require_symtab_shndx in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures *final(self) == (Writer { need_symtab_shndx: true, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_symtab_shndx in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SUBST self.symtab_shndx_data.reserve(self.symtab_num as usize * 4); ==> room(&mut self.symtab_shndx_data, self.symtab_num as usize * 4);
//@SPEC requires calm(*old(self))
    ensures !old(self).need_symtab_shndx ==> *final(self) == *old(self),
        old(self).need_symtab_shndx ==> final(self).took(*old(self), 4, old(self).symtab_num * 4, final(self).symtab_shndx_offset)
            && final(self).symtab_shndx_data@ == old(self).symtab_shndx_data@
            && *final(self) == (Writer { mode: final(self).mode, symtab_shndx_offset: final(self).symtab_shndx_offset, symtab_shndx_data: final(self).symtab_shndx_data, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=reserve_null_dynamic_symbol_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r.0 == 0, *final(self) == (Writer { dynsym_num: 1, need_dynstr: true, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=reserve_dynamic_symbol_index in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires old(self).dynsym_num < u32::MAX
    ensures r.0 == (if old(self).dynsym_num == 0 { 1 } else { old(self).dynsym_num }), *final(self) == (Writer { dynsym_num: (r.0 + 1) as u32, need_dynstr: old(self).need_dynstr || old(self).dynsym_num == 0, ..*old(self) })
//@END
//@FN file=write/elf/writer.rs name=dynamic_symbol_count in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC ensures r == old(self).dynsym_num, *final(self) == *old(self)
//@END
//@FN file=write/elf/writer.rs name=reserve_dynsym in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self))
    ensures !(old(self).dynsym_num != 0) ==> r == 0 && *final(self) == *old(self),
        (old(self).dynsym_num != 0) ==> r == final(self).dynsym_offset && final(self).took(*old(self), pick(old(self).encoder, 8, 4), old(self).dynsym_num * pick(old(self).encoder, 24, 16), final(self).dynsym_offset)
            && *final(self) == (Writer { mode: final(self).mode, dynsym_offset: final(self).dynsym_offset, ..*old(self) })
//@START proof { words(); let n = self.dynsym_num; assert(n * 24 <= 24 * 0xffff_ffff && n * 16 <= 16 * 0xffff_ffff) by (nonlinear_arith) requires n <= 0xffff_ffff; }
//@END
//@FN file=write/elf/writer.rs name=reserve_dynamic in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), dynamic_num < 0x1_0000_0000
    ensures !(dynamic_num != 0) ==> r == 0 && *final(self) == *old(self),
        (dynamic_num != 0) ==> r == final(self).dynamic_offset && final(self).took(*old(self), pick(old(self).encoder, 8, 4), dynamic_num * pick(old(self).encoder, 16, 8), final(self).dynamic_offset)
            && *final(self) == (Writer { mode: final(self).mode, dynamic_offset: final(self).dynamic_offset, dynamic_num: dynamic_num as u64, ..*old(self) })
//@START proof { words(); assert(dynamic_num * 16 <= 16 * 0xffff_ffff && dynamic_num * 8 <= 8 * 0xffff_ffff) by (nonlinear_arith) requires dynamic_num <= 0xffff_ffff; }
//@END
//@FN file=write/elf/writer.rs name=reserve_hash in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self))
    ensures !(true) ==> r == 0 && *final(self) == *old(self),
        (true) ==> r == final(self).hash_offset && final(self).took(*old(self), 4, 8 + 4 * bucket_count + 4 * symbol_count, final(self).hash_offset)
            && *final(self) == (Writer { mode: final(self).mode, hash_offset: final(self).hash_offset, hash_size: (8 + 4 * bucket_count + 4 * symbol_count) as u64, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_hash in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self))
    ensures !(true) ==> r == 0 && *final(self) == *old(self),
        (true) ==> r == final(self).gnu_hash_offset && final(self).took(*old(self), pick(old(self).encoder, 8, 4), 16 + pick(old(self).encoder, 8, 4) * bloom_count + 4 * bucket_count + 4 * symbol_count, final(self).gnu_hash_offset)
            && *final(self) == (Writer { mode: final(self).mode, gnu_hash_offset: final(self).gnu_hash_offset, gnu_hash_size: (16 + pick(old(self).encoder, 8, 4) * bloom_count + 4 * bucket_count + 4 * symbol_count) as u64, ..*old(self) })
//@START proof { words(); assert(8 * bloom_count <= 8 * 0xffff_ffff && 4 * bloom_count <= 4 * 0xffff_ffff); }
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_versym in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self))
    ensures !(old(self).dynsym_num != 0) ==> r == 0 && *final(self) == *old(self),
        (old(self).dynsym_num != 0) ==> r == final(self).gnu_versym_offset && final(self).took(*old(self), 2, 2 * old(self).dynsym_num, final(self).gnu_versym_offset)
            && *final(self) == (Writer { mode: final(self).mode, gnu_versym_offset: final(self).gnu_versym_offset, gnu_versym_num: old(self).dynsym_num, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_verdef in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), verdaux_count < 0x1_0000_0000
    ensures !(verdef_count != 0) ==> r == 0 && *final(self) == *old(self),
        (verdef_count != 0) ==> r == final(self).gnu_verdef_offset && final(self).took(*old(self), 4, 20 * verdef_count + 8 * verdaux_count, final(self).gnu_verdef_offset)
            && *final(self) == (Writer { mode: final(self).mode, gnu_verdef_offset: final(self).gnu_verdef_offset, gnu_verdef_count: verdef_count, gnu_verdaux_count: verdaux_count, gnu_verdef_remaining: verdef_count, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_verneed in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), vernaux_count < 0x1_0000_0000
    ensures !(verneed_count != 0) ==> r == 0 && *final(self) == *old(self),
        (verneed_count != 0) ==> r == final(self).gnu_verneed_offset && final(self).took(*old(self), 4, 16 * verneed_count + 16 * vernaux_count, final(self).gnu_verneed_offset)
            && *final(self) == (Writer { mode: final(self).mode, gnu_verneed_offset: final(self).gnu_verneed_offset, gnu_verneed_count: verneed_count, gnu_vernaux_count: vernaux_count, gnu_verneed_remaining: verneed_count, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=reserve_gnu_attributes in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), gnu_attributes_size <= 0x4000_0000_0000_0000
    ensures !(gnu_attributes_size != 0) ==> r == 0 && *final(self) == *old(self),
        (gnu_attributes_size != 0) ==> r == final(self).gnu_attributes_offset && final(self).took(*old(self), 1, gnu_attributes_size as int, final(self).gnu_attributes_offset)
            && *final(self) == (Writer { mode: final(self).mode, gnu_attributes_offset: final(self).gnu_attributes_offset, gnu_attributes_size: gnu_attributes_size, ..*old(self) })
//@START proof { words(); }
//@END
//@FN file=write/elf/writer.rs name=reserve_relocations in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), count < 0x1_0000_0000 ensures final(self).took(*old(self), pick(old(self).encoder, 8, 4), count * rel(old(self).encoder, is_rela), r), *final(self) == (Writer { mode: final(self).mode, ..*old(self) })
//@START proof { words(); let z = rel(self.encoder, is_rela); assert(count * z <= 24 * 0xffff_ffff) by (nonlinear_arith) requires count <= 0xffff_ffff, z <= 24; }
//@END
//@FN file=write/elf/writer.rs name=reserve_comdat in=TwoPhase>
//@SUBST debug_assert_eq!(self.mode.len, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_phoff, 0); ==>
//@SUBST debug_assert_eq!(self.layout.section_num, 0); ==>
//@SUBST debug_assert_eq!(self.layout.e_shoff, 0); ==>
//@SUBST debug_assert_eq!(self.shstrtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.layout.shstrtab_index, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_offset, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_num, 0); ==>
//@SUBST debug_assert_eq!(self.symtab_shndx_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynstr_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.dynsym_num, 0); ==>
//@SUBST debug_assert_eq!(self.dynamic_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_versym_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verdef_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_verneed_offset, 0); ==>
//@SUBST debug_assert_eq!(self.gnu_attributes_offset, 0); ==>
//@SUBST debug_assert_eq!(self.strtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.symtab_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynstr_index, SectionIndex(0)); ==>
//@SUBST debug_assert_eq!(self.dynsym_index, SectionIndex(0)); ==>
//@SUBST debug_assert!(self.symtab_shndx_str_id.is_none()); ==>
//@SUBST debug_assert!(self.dynamic_str_id.is_none()); ==>
//@SUBST debug_assert!(self.hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_hash_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_versym_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verdef_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_verneed_str_id.is_none()); ==>
//@SUBST debug_assert!(self.gnu_attributes_str_id.is_none()); ==>
//@SUBST debug_assert!(self.mode.len <= offset); ==>
//@SPEC requires calm(*old(self)), count < 0x1_0000_0000 ensures final(self).took(*old(self), 4, 4 * count + 4, r), *final(self) == (Writer { mode: final(self).mode, ..*old(self) })
//@START proof { words(); }
//@END
}
}
fn main() {}
