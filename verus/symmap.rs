use vstd::prelude::*;
verus! {
pub trait SymbolMapEntry {
    spec fn addr(&self) -> u64;
    spec fn extent(&self) -> u64;
    fn address(&self) -> (r: u64) ensures r == self.addr();
    fn size(&self) -> (r: u64) ensures r == self.extent();
}
pub struct SymbolMap<T: SymbolMapEntry> { pub symbols: Vec<T> }
pub open spec fn ascending<T: SymbolMapEntry>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).addr() <= (#[trigger] s[j]).addr() }
/// slice::sort_by_key
#[verifier::external_body]
fn sorted<T: SymbolMapEntry>(s: &mut Vec<T>)
    ensures ascending(final(s)@), final(s)@.to_multiset() == old(s)@.to_multiset() { unimplemented!() }
/// slice::binary_search_by_key
#[verifier::external_body]
fn search<T: SymbolMapEntry>(s: &Vec<T>, a: u64) -> (r: Result<usize, usize>)
    requires ascending(s@)
    ensures match r {
        Ok(i) => i < s@.len() && s@[i as int].addr() == a,
        Err(i) => i <= s@.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] s@[j]).addr() < a) && (forall|j: int| i <= j < s@.len() ==> (#[trigger] s@[j]).addr() > a),
    } { unimplemented!() }
impl<T: SymbolMapEntry> SymbolMap<T> {
    pub open spec fn wf(&self) -> bool { ascending(self.symbols@) }
    /// The nearest preceding entry, or none if all lie above.
    pub open spec fn nearest(&self, a: u64, r: Option<&T>) -> bool {
        match r {
            Some(e) => self.symbols@.contains(*e) && e.addr() <= a && forall|j: int| 0 <= j < self.symbols@.len() ==> (#[trigger] self.symbols@[j]).addr() <= e.addr() || self.symbols@[j].addr() > a,
            None => forall|j: int| 0 <= j < self.symbols@.len() ==> (#[trigger] self.symbols@[j]).addr() > a,
        }
    }
//@FN file=read/symbol_map.rs name=new in=SymbolMap<T>
//@SUBST symbols.sort_by_key(|s| s.address()); ==> sorted(&mut symbols);
//@SPEC ensures r.wf(), r.symbols@.to_multiset() == symbols@.to_multiset()
//@END
//@FN file=read/symbol_map.rs name=before in=SymbolMap<T>
//@SUBST self.symbols.binary_search_by_key(&address, |symbol| symbol.address()) ==> search(&self.symbols, address)
//@SPEC requires self.wf() ensures self.nearest(address, r)
//@SUBST self.symbols.get(index) ==> self.symbols.as_slice().get(index)
//@END
//@FN file=read/symbol_map.rs name=containing in=SymbolMap<T>
//@SUBST self.before(address).filter(|entry| { ==> let near = self.before(address); match near { None => None, Some(entry) => if ({
//@SUBST }) ==> }) { Some(entry) } else { None } }
//@SPEC requires self.wf()
    ensures exists|n: Option<&T>| #[trigger] self.nearest(address, n) && r == (match n {
        None => None,
        // an entry of size zero goes on to the next one
        Some(e) => if e.extent() == 0 || address - e.addr() < e.extent() { Some(e) } else { None },
    })
//@END
}
}
