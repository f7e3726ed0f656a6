use vstd::prelude::*;
verus! {
// The ranges of a segment of an ELF file that is being edited, for every list of sections.
global size_of usize == 8;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProgramType(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SectionType(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SectionId(pub usize);
//@CONSTS file=elf.rs like=PT_LOAD|PT_DYNAMIC
//@CONSTS file=elf.rs like=SHT_NOBITS|SHT_PROGBITS
/// The fields that these functions use.
pub struct Section { pub id: SectionId, pub sh_type: SectionType, pub sh_addr: u64, pub sh_offset: u64, pub sh_size: u64, pub sh_addralign: u64 }
pub struct Segment { pub p_type: ProgramType, pub p_offset: u64, pub p_vaddr: u64, pub p_paddr: u64, pub p_filesz: u64, pub p_memsz: u64, pub p_align: u64, pub sections: Vec<SectionId> }
/// Stands for `Table<Section>`.
pub struct Sections { v: Vec<Section> }
impl Sections {
    pub uninterp spec fn view(&self) -> Seq<Section>;
    #[verifier::external_body] pub fn get(&self, id: SectionId) -> (r: &Section) requires id.0 < self@.len() ensures *r == self@[id.0 as int] { unimplemented!() }
}
#[verifier::external_body] pub fn take(v: &mut Vec<SectionId>) -> (r: Vec<SectionId>) ensures r@ == old(v)@, final(v)@.len() == 0 { core::mem::take(v) }
pub open spec fn max(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn min(a: u64, b: u64) -> u64 { if a < b { a } else { b } }
/// How much of a section is in the file.
// An alignment of 0 means no alignment constraint.
pub open spec fn al(c: Section) -> u64 { if c.sh_addralign == 0 { 1 } else { c.sh_addralign } }
pub open spec fn bits(s: Section) -> int { if s.sh_type == SHT_NOBITS { 0 } else { s.sh_size as int } }
pub spec const FAR: int = 0x4000_0000_0000_0000;
pub open spec fn placed(s: Section) -> bool { s.sh_offset + s.sh_size <= FAR && s.sh_addr + s.sh_size <= FAR }
pub open spec fn bounded(g: Segment) -> bool { g.p_offset + g.p_filesz <= FAR && g.p_vaddr + g.p_memsz <= FAR }
/// A segment has all bytes of a section, in the file and in memory.
pub open spec fn covers(g: Segment, s: Section) -> bool {
    s.sh_size > 0 ==> g.p_memsz > 0
        && (bits(s) > 0 ==> g.p_offset <= s.sh_offset && s.sh_offset + bits(s) <= g.p_offset + g.p_filesz)
        && g.p_vaddr <= s.sh_addr && s.sh_addr + s.sh_size <= g.p_vaddr + g.p_memsz
}
/// Everything that a segment had, it has.
pub open spec fn keeps(a: Segment, b: Segment) -> bool { forall|s: Section| covers(a, s) ==> #[trigger] covers(b, s) }
pub open spec fn pow2(a: u64) -> bool { a != 0 && a & sub(a, 1) == 0 }
pub open spec fn next(before: int, a: u64, r: u64) -> bool { r >= before && r - before < a && r % a == 0 }
pub proof fn round_up(v: u64, a: u64)
    requires pow2(a), v + a <= u64::MAX
    ensures next(v as int, a, ((v + (a - 1)) as u64) & !((a - 1) as u64))
{
    let w = (v + (a - 1)) as u64;
    let m = (a - 1) as u64;
    let r = w & !m;
    assert(r == sub(w, w & m) && w & m <= m && w & m <= w) by (bit_vector) requires r == w & !m;
    assert(w & m == w % a) by (bit_vector) requires a != 0, a & sub(a, 1) == 0, m == sub(a, 1);
    let q = w / a;
    assert(r == q * a) by (nonlinear_arith) requires a > 0, r == w - w % a, q == w / a;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q as int, a as int);
}
impl Segment {
//@FN file=build/elf.rs name=is_load in=Segment pub=1
//@SUBST elf:: ==>
//@SPEC ensures r == (self.p_type == PT_LOAD)
//@END
//@FN file=build/elf.rs name=contains_offset in=Segment pub=1
//@SPEC ensures r == (self.p_offset <= offset < self.p_offset + self.p_filesz)
//@END
//@FN file=build/elf.rs name=contains_address in=Segment pub=1
//@SPEC ensures r == (self.p_vaddr <= address < self.p_vaddr + self.p_memsz)
//@END
//@FN file=build/elf.rs name=address_from_offset in=Segment pub=1
//@SPEC ensures self.p_offset <= offset && self.p_vaddr + (offset - self.p_offset) <= u64::MAX ==> r == self.p_vaddr + (offset - self.p_offset)
//@END
//@FN file=build/elf.rs name=remove_sections in=Segment pub=1
//@SPEC ensures *final(self) == (Segment { p_filesz: 0, p_memsz: 0, sections: final(self).sections, ..*old(self) }), final(self).sections@.len() == 0
//@END
//@FN file=build/elf.rs name=append_section_range in=Segment pub=1
//@SUBST elf:: ==>
//@SUBST Section<'_> ==> Section
//@SPEC requires bounded(*old(self)), placed(*section)
    ensures bounded(*final(self)),
        *final(self) == (Segment { p_offset: final(self).p_offset, p_filesz: final(self).p_filesz, p_vaddr: final(self).p_vaddr, p_paddr: final(self).p_paddr, p_memsz: final(self).p_memsz, ..*old(self) }),
        // An empty segment becomes the section's range.
        old(self).p_memsz == 0 ==> final(self).p_offset == section.sh_offset && final(self).p_filesz == bits(*section) && final(self).p_vaddr == section.sh_addr && final(self).p_paddr == section.sh_addr && final(self).p_memsz == section.sh_size,
        // Another segment becomes the smallest one that has both.
        old(self).p_memsz != 0 ==> final(self).p_offset == min(old(self).p_offset, section.sh_offset) && final(self).p_vaddr == min(old(self).p_vaddr, section.sh_addr)
            && final(self).p_vaddr + final(self).p_memsz == max(old(self).p_vaddr + old(self).p_memsz, section.sh_addr + section.sh_size)
            && (old(self).p_filesz != 0 ==> final(self).p_offset + final(self).p_filesz == max(old(self).p_offset + old(self).p_filesz, section.sh_offset + bits(*section)))
            && final(self).p_paddr == (if section.sh_addr < old(self).p_vaddr { section.sh_addr } else { old(self).p_paddr }),
        covers(*final(self), *section), keeps(*old(self), *final(self)),
//@END
//@FN file=build/elf.rs name=append_section in=Segment pub=1
//@SUBST elf:: ==>
//@SUBST Section<'_> ==> Section
//@SUBST debug_assert_eq!(self.p_filesz, self.p_memsz); ==>
//@SPEC requires bounded(*old(self)), old(section).sh_size <= 0x1000_0000_0000, pow2(al(*old(section))), old(section).sh_addralign <= 0x1000_0000_0000, old(self).p_offset + old(self).p_filesz <= 0x1000_0000_0000_0000, old(self).p_paddr + old(self).p_memsz <= 0x1000_0000_0000_0000,
        old(self).p_type != PT_LOAD ==> placed(*old(section))
    ensures bounded(*final(self)), final(self).sections@ == old(self).sections@.push(old(section).id),
        *final(section) == (Section { sh_offset: final(section).sh_offset, sh_addr: final(section).sh_addr, ..*old(section) }),
        // A loaded section is placed at the end of the segment, at the next aligned position.
        old(self).p_type == PT_LOAD ==> next(old(self).p_offset + old(self).p_filesz, al(*old(section)), final(section).sh_offset) && next(old(self).p_paddr + old(self).p_memsz, al(*old(section)), final(section).sh_addr),
        old(self).p_type != PT_LOAD ==> *final(section) == *old(section),
        final(self).p_type == old(self).p_type, final(self).p_align == old(self).p_align,
        covers(*final(self), *final(section)), keeps(*old(self), *final(self)),
//@START proof { if self.p_type == PT_LOAD { round_up((self.p_offset + self.p_filesz) as u64, al(*section)); round_up((self.p_paddr + self.p_memsz) as u64, al(*section)); } }
//@END
//@FN file=build/elf.rs name=recalculate_ranges in=Segment pub=1
//@SUBST Sections<'data> ==> Sections
//@SUBST core::mem::take ==> take
//@SUBST get(*id) ==> get(id)
//@SPEC requires forall|i: int| 0 <= i < old(self).sections@.len() ==> (#[trigger] old(self).sections@[i]).0 < sections@.len() && placed(sections@[old(self).sections@[i].0 as int])
    ensures bounded(*final(self)), final(self).sections@ == old(self).sections@, final(self).p_type == old(self).p_type, final(self).p_align == old(self).p_align,
        // The ranges have every section of the segment.
        forall|i: int| 0 <= i < old(self).sections@.len() ==> covers(*final(self), sections@[(#[trigger] old(self).sections@[i]).0 as int]),
        old(self).sections@.len() == 0 ==> final(self).p_memsz == 0 && final(self).p_filesz == 0,
//@LOOP 0 vec invariant it0 <= src0@.len(), src0@ == ids@, ids@ == old(self).sections@, bounded(*self), self.p_type == old(self).p_type, self.p_align == old(self).p_align,
        forall|i: int| 0 <= i < ids@.len() ==> (#[trigger] ids@[i]).0 < sections@.len() && placed(sections@[ids@[i].0 as int]),
        forall|i: int| 0 <= i < it0 ==> covers(*self, sections@[(#[trigger] ids@[i]).0 as int]),
        it0 == 0 ==> self.p_memsz == 0 && self.p_filesz == 0,
        decreases src0@.len() - it0,
//@END
}
/// A segment built from any two sections has both, whichever comes first.
pub fn two(g: &mut Segment, a: &Section, b: &Section) requires bounded(*old(g)), placed(*a), placed(*b), old(g).p_memsz == 0 ensures covers(*final(g), *a), covers(*final(g), *b)
{ g.append_section_range(a); g.append_section_range(b); }
fn main() {}
}
