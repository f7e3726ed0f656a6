use vstd::prelude::*;
verus! {
// The ordinal of a PE export forwarder: decimal digits below 2^16, for every string.
pub struct ExportOrdinal(pub u16);
pub open spec fn val(d: Seq<u8>, i: int, acc: nat) -> Option<nat>
    decreases d.len() - i
{
    if i < 0 || i >= d.len() { Some(acc) }
    else if !(48 <= d[i] && d[i] <= 57) { None }
    else { let a = acc * 10 + (d[i] - 48) as nat; if a > u16::MAX { None } else { val(d, i + 1, a) } }
}
pub open spec fn ordinal(d: Seq<u8>) -> Option<nat> { if d.len() == 0 { None } else { val(d, 0, 0) } }
/// `char::to_digit` on a Latin-1 character.
#[verifier::external_body]
fn to_digit(c: u8, radix: u32) -> (r: Option<u32>)
    ensures radix <= 10 ==> r == if 48 <= c && c - 48 < radix { Some((c - 48) as u32) } else { None::<u32> }
{ (c as char).to_digit(radix) }

// ---- /repo ----
//@FN file=read/pe/export.rs name=parse_ordinal
//@SUBST (c as char).to_digit(10) ==> to_digit(c, 10)
//@SUBST digits.is_empty() ==> digits.len() == 0
//@SUBST for &c in digits ==> for c in digits
//@SPEC ensures r.is_some() == ordinal(digits@).is_some(), r.is_some() ==> r.unwrap().0 as nat == ordinal(digits@).unwrap(),
//@LOOP 0 vec invariant it0 <= src0@.len(), src0@ == digits@, digits@.len() > 0, ordinal(digits@) == val(digits@, it0 as int, result as nat),
    decreases src0@.len() - it0,
//@BODY 0 proof { reveal_with_fuel(val, 2); }
//@END
}
fn main() {}
