use vstd::prelude::*;
verus! {
/// One step of the System V gABI hash function:
///   h = (h << 4) + c; if (g = h & 0xf0000000) h ^= g >> 24; h &= ~g;
pub open spec fn sysv_step(h: u32, c: u8) -> u32 {
    let t = add(h << 4, c as u32);
    let g = t & 0xf000_0000u32;
    (t ^ (g >> 24)) & !g
}
pub open spec fn sysv(s: Seq<u8>) -> u32 decreases s.len() {
    if s.len() == 0 { 0 } else { sysv_step(sysv(s.drop_last()), s.last()) }
}
/// GNU: h = 5381; h = h * 33 + c (modulo 2^32)
pub open spec fn gnu(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 5381 } else { (gnu(s.drop_last()) * 33 + s.last() as int) % 0x1_0000_0000 }
}
proof fn step(h: u32, b: u8, m: u32, x: u32)
    requires
        m as int == (h as int * 16) % 0x1_0000_0000,
        x as int == (m as int + b as int) % 0x1_0000_0000,
    ensures
        (x ^ ((x >> 24) & 0xf0u32)) & 0x0fff_ffffu32 == sysv_step(h & 0x0fff_ffffu32, b),
{
    assert(mul(h as u64, 16u64) % 0x1_0000_0000u64 == (h << 4) as u64) by (bit_vector);
    assert(m == h << 4);
    assert(add(m as u64, b as u64) % 0x1_0000_0000u64 == add(m, b as u32) as u64) by (bit_vector);
    assert(x == add(m, b as u32));
    assert(m == h << 4 && x == add(m, b as u32) ==>
        (x ^ ((x >> 24) & 0xf0u32)) & 0x0fff_ffffu32
        == ({ let t = add((h & 0x0fff_ffffu32) << 4, b as u32); let g = t & 0xf000_0000u32; (t ^ (g >> 24)) & !g })) by (bit_vector);
}
proof fn mask(h: u32) ensures h & 0x0fff_ffffu32 == 0 <== h == 0 { assert(0u32 & 0x0fff_ffffu32 == 0) by (bit_vector); }
//@FN file=elf.rs name=hash
//@SPEC ensures r == sysv(name@)
//@LOOP 0 slice
    invariant src0@ == name@, it0 <= src0.len(), hash & 0x0fff_ffffu32 == sysv(name@.take(it0 as int))
    decreases src0.len() - it0
//@BEFORE 0 proof { mask(0); assert(name@.take(0) =~= Seq::empty()); }
//@BODY 0 let ghost h0 = hash;
//@TAIL 0 proof { let m = ((h0 as int * 16) % 0x1_0000_0000) as u32; let x = ((m as int + *byte as int) % 0x1_0000_0000) as u32; step(h0, *byte, m, x); assert(hash == x ^ ((x >> 24) & 0xf0u32)); assert(name@.take(it0 as int).drop_last() =~= name@.take(it0 as int - 1)); }
//@AFTER 0 proof { assert(name@.take(name@.len() as int) =~= name@); }
//@END
//@FN file=elf.rs name=gnu_hash
//@SPEC ensures r as int == gnu(name@)
//@LOOP 0 slice
    invariant src0@ == name@, it0 <= src0.len(), hash as int == gnu(name@.take(it0 as int))
    decreases src0.len() - it0
//@TAIL 0 proof { assert(name@.take(it0 as int).drop_last() =~= name@.take(it0 as int - 1)); }
//@AFTER 0 proof { assert(name@.take(name@.len() as int) =~= name@); }
//@END
}
