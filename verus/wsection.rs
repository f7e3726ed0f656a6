use vstd::prelude::*;
verus! {
// The data of a section that is being built, for every history of appended pieces.
global size_of usize == 8;
/// The bytes of a section; stands for `Cow<[u8]>` and for the `Vec` behind it.
pub struct Bytes { v: Vec<u8> }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.is_empty() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { self.v.len() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, b: u8)
        ensures final(self)@.len() == n, forall|i: int| 0 <= i < n && i < old(self)@.len() ==> final(self)@[i] == old(self)@[i], forall|i: int| old(self)@.len() <= i < n ==> final(self)@[i] == b
    { self.v.resize(n, b) }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@, final(self)@.len() <= isize::MAX { self.v.extend_from_slice(s) }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ITEM file=common.rs name=SectionKind
//@END
impl SectionKind {
//@FN file=common.rs name=is_bss in=SectionKind pub=1
//@SPEC ensures r == (self == SectionKind::UninitializedData || self == SectionKind::UninitializedTls)
//@END
}
pub struct Section { pub kind: SectionKind, pub size: u64, pub align: u64, pub data: Bytes }
pub open spec fn pow2(a: u64) -> bool { a != 0 && a & sub(a, 1) == 0 }
/// `r` is the first position from `before` on that is a multiple of `a`.
pub open spec fn placed(before: u64, a: u64, r: u64) -> bool { r >= before && r - before < a && r % a == 0 }
pub proof fn first_multiple(v: u64, a: u64)
    requires pow2(a), v + a <= u64::MAX
    ensures
        v & sub(a, 1) == 0 ==> placed(v, a, v),
        v & sub(a, 1) != 0 ==> v & sub(a, 1) <= a && placed(v, a, (v + (a - (v & sub(a, 1)))) as u64),
{
    assert(a & sub(a, 1) == 0 && a != 0 ==> v & sub(a, 1) == v % a) by (bit_vector);
    if v & sub(a, 1) != 0 {
        let m = v % a;
        assert(m < a) by (nonlinear_arith) requires a > 0, m == v % a;
        let q = v / a;
        assert(v == q * a + m) by (nonlinear_arith) requires a > 0, m == v % a, q == v / a;
        let r = (v + (a - m)) as u64;
        assert(r == (q + 1) * a) by (nonlinear_arith) requires v == q * a + m, r == v + (a - m);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic((q + 1) as int, a as int);
    }
}
impl Section {
//@FN file=write/mod.rs name=is_bss in=Section pub=1
//@SPEC ensures r == (self.kind == SectionKind::UninitializedData || self.kind == SectionKind::UninitializedTls)
//@END
//@FN file=write/mod.rs name=append_data in=Section pub=1
//@SUBST debug_assert!(!self.is_bss()); ==>
//@SUBST debug_assert_eq!(align & (align - 1), 0); ==>
//@SUBST let data = self.data.to_mut(); ==> let data = &mut self.data;
//@SPEC requires pow2(align), old(self).data@.len() + align <= isize::MAX ensures
    placed(old(self).data@.len() as u64, align, r),
    final(self).align == (if old(self).align < align { align } else { old(self).align }),
    final(self).size == final(self).data@.len(), final(self).kind == old(self).kind,
    final(self).data@.len() == r + append_data@.len(),
    // What was there stays, the gap is zero, and the new data is at the returned position.
    forall|i: int| 0 <= i < old(self).data@.len() ==> final(self).data@[i] == old(self).data@[i],
    forall|i: int| old(self).data@.len() <= i < r ==> final(self).data@[i] == 0,
    forall|i: int| 0 <= i < append_data@.len() ==> final(self).data@[r + i] == append_data@[i],
//@START proof { first_multiple(old(self).data@.len() as u64, align); }
    let ghost align0 = align; let ghost len0 = old(self).data@.len() as u64;
    proof { assert((len0 as usize) & ((align0 as usize) - 1) as usize == (len0 & sub(align0, 1)) as usize) by (bit_vector) requires align0 != 0; }
//@END
//@FN file=write/mod.rs name=append_bss in=Section pub=1
//@SUBST debug_assert!(self.is_bss()); ==>
//@SUBST debug_assert_eq!(align & (align - 1), 0); ==>
//@SPEC requires pow2(align), old(self).size + align + size <= u64::MAX ensures
    placed(old(self).size, align, r),
    final(self).align == (if old(self).align < align { align } else { old(self).align }),
    final(self).size == r + size, final(self).kind == old(self).kind, final(self).data == old(self).data,
//@START proof { first_multiple(old(self).size, align); }
//@END
//@FN file=write/mod.rs name=set_data in=Section pub=1
//@SUBST <T> ==>
//@SUBST data: T ==> data: Bytes
//@SUBST where T: Into<Cow<'a, [u8]>>, ==>
//@SUBST data.into() ==> data
//@SUBST debug_assert!(!self.is_bss()); ==>
//@SUBST debug_assert!(self.data.is_empty()); ==>
//@SUBST debug_assert_eq!(align & (align - 1), 0); ==>
//@SPEC requires pow2(align) ensures final(self).data@ == data@, final(self).size == data@.len(), final(self).align == align, final(self).kind == old(self).kind
//@END
}
/// What was appended before is still at its position after any number of further pieces.
pub fn history(s: &mut Section, first: &[u8], second: &[u8], a: u64, b: u64)
    requires pow2(a), pow2(b), a <= 0x1_0000_0000, b <= 0x1_0000_0000, old(s).data@.len() <= 0x1000_0000_0000, first@.len() <= 0x1000_0000_0000, second@.len() <= 0x1000_0000_0000
{
    let at = s.append_data(first, a);
    let at2 = s.append_data(second, b);
    assert(at % a == 0 && at2 % b == 0 && at2 >= at + first@.len());
    assert(forall|i: int| 0 <= i < first@.len() ==> s.data@[at + i] == #[trigger] first@[i]);
    assert(forall|i: int| 0 <= i < second@.len() ==> s.data@[at2 + i] == #[trigger] second@[i]);
    assert(s.align >= a && s.align >= b);
}
fn main() {}
}
