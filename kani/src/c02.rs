//! Endian-tagged integers.
use crate::shim::*;
use object::endian::*;
use object::pod::bytes_of;
use object::elf;

/// The contract of one integer width for one byte order given by `e` / `big`.
macro_rules! width {
    ($name:ident, $t:ty, $W:ident, $n:literal, $read:ident, $write:ident) => {
        fn $name<E: Endian>(e: E, big: bool) {
            let v: $t = any();
            let spec = if big { v.to_be_bytes() } else { v.to_le_bytes() };
            let b: [u8; $n] = any_array();
            let spec_rd = if big { <$t>::from_be_bytes(b) } else { <$t>::from_le_bytes(b) };
            ensure!(e.$write(v) == spec, "stored bytes are the value's bytes in the byte order");
            ensure!(e.$read(b) == spec_rd, "loaded value is the value of the bytes in the byte order");
            let mut f = $W::<E>::new(e, v);
            ensure!(bytes_of(&f) == &spec[..], "field stores the value's bytes");
            ensure!(f.get(e) == v, "field loads the value stored");
            let g = $W::<E>::from_bytes(b);
            ensure!(g.get(e) == spec_rd, "field loads its bytes");
            ensure!(bytes_of(&g) == &b[..], "field keeps its bytes");
            let v2: $t = any();
            f.set(e, v2);
            ensure!(f.get(e) == v2, "set then get");
            ensure!(bytes_of(&f) == &(if big { v2.to_be_bytes() } else { v2.to_le_bytes() })[..], "set stores the value's bytes");
            ensure!(core::mem::size_of::<$W<E>>() == $n && core::mem::align_of::<$W<E>>() == 1, "field layout");
        }
    };
}
width!(w16, u16, U16, 2, read_u16, write_u16);
width!(w32, u32, U32, 4, read_u32, write_u32);
width!(w64, u64, U64, 8, read_u64, write_u64);
width!(s16, i16, I16, 2, read_i16, write_i16);
width!(s32, i32, I32, 4, read_i32, write_i32);
width!(s64, i64, I64, 8, read_i64, write_i64);

fn order<E: Endian>(e: E, big: bool) {
    ensure!(e.is_big_endian() == big && e.is_little_endian() == !big, "byte order reported");
}
fn runtime() -> (Endianness, bool) {
    let big = any_bool();
    let e = if any_bool() {
        Endianness::from_big_endian(big)
    } else {
        Endianness::from_little_endian(!big)
    };
    let e = e.expect("run-time byte order exists for both");
    ensure!(e == if big { Endianness::Big } else { Endianness::Little }, "run-time byte order selected");
    (e, big)
}

/// 64-bit values in 32-bit fields.
fn narrow<E: Endian>(e: E) {
    let v: u64 = any();
    let r = U32::<E, u64>::new_u64(e, v);
    ensure!(r.is_ok() == (v <= u32::MAX as u64), "narrowing fails exactly when the value does not fit");
    if let Ok(f) = r {
        reach!(true, "narrow ok");
        ensure!(f.get_u64(e) == v, "narrowed value loads back");
    }
    ensure!(U32::<E, u64>::new_u64_truncate(e, v).get_u64(e) == v & 0xffff_ffff, "truncation keeps the low half");
    let old: u64 = any::<u32>() as u64;
    let mut f = U32::<E, u64>::new_u64_truncate(e, old);
    ensure!(f.set_u64(e, v).is_ok() == (v <= u32::MAX as u64), "set fails exactly when the value does not fit");
    ensure!(f.get_u64(e) == if v <= u32::MAX as u64 { v } else { old }, "failed set leaves the field");
    f.set_u64_truncate(e, v);
    ensure!(f.get_u64(e) == v & 0xffff_ffff, "set truncates");

    let v: i64 = any();
    let fits = v >= i32::MIN as i64 && v <= i32::MAX as i64;
    let r = I32::<E, i64>::new_i64(e, v);
    ensure!(r.is_ok() == fits, "signed narrowing fails exactly when the value does not fit");
    if let Ok(f) = r {
        ensure!(f.get_i64(e) == v, "signed narrowed value loads back with its sign");
    }
    ensure!(I32::<E, i64>::new_i64_truncate(e, v).get_i64(e) == v as i32 as i64, "signed truncation");
    let old = any::<i32>() as i64;
    let mut f = I32::<E, i64>::new_i64_truncate(e, old);
    ensure!(f.set_i64(e, v).is_ok() == fits, "signed set fails exactly when the value does not fit");
    ensure!(f.get_i64(e) == if fits { v } else { old }, "failed signed set leaves the field");
    f.set_i64_truncate(e, v);
    ensure!(f.get_i64(e) == v as i32 as i64, "signed set truncates");
}

harnesses! {
    fn little() {
        let e = LittleEndian; order(e, false);
        ensure!(LittleEndian::from_big_endian(true).is_none() && LittleEndian::from_big_endian(false).is_some(), "fixed little");
        ensure!(LittleEndian::from_little_endian(true).is_some() && LittleEndian::from_little_endian(false).is_none(), "fixed little");
        w16(e, false); w32(e, false); w64(e, false); s16(e, false); s32(e, false); s64(e, false);
    }
    fn big() {
        let e = BigEndian; order(e, true);
        ensure!(BigEndian::from_big_endian(false).is_none() && BigEndian::from_big_endian(true).is_some(), "fixed big");
        ensure!(BigEndian::from_little_endian(true).is_none() && BigEndian::from_little_endian(false).is_some(), "fixed big");
        w16(e, true); w32(e, true); w64(e, true); s16(e, true); s32(e, true); s64(e, true);
    }
    fn run_time() {
        let (e, big) = runtime(); order(e, big);
        w16(e, big); w32(e, big); w64(e, big); s16(e, big); s32(e, big); s64(e, big);
    }
    fn narrowing_fixed() { narrow(LittleEndian); narrow(BigEndian); }
    fn narrowing_run_time() { narrow(runtime().0); }
    /// Conversions for fixed byte orders, native order, and typed constants.
    fn conversions() {
        let v: u16 = any();
        ensure!(u16::from(U16::<BigEndian>::from(v)) == v && bytes_of(&U16::<BigEndian>::from(v)) == v.to_be_bytes(), "u16 big From");
        ensure!(u16::from(U16::<LittleEndian>::from(v)) == v && bytes_of(&U16::<LittleEndian>::from(v)) == v.to_le_bytes(), "u16 little From");
        let v: u32 = any();
        ensure!(u32::from(U32::<BigEndian>::from(v)) == v && bytes_of(&U32::<BigEndian>::from(v)) == v.to_be_bytes(), "u32 big From");
        ensure!(u32::from(U32::<LittleEndian>::from(v)) == v && bytes_of(&U32::<LittleEndian>::from(v)) == v.to_le_bytes(), "u32 little From");
        let v: u64 = any();
        ensure!(u64::from(U64::<BigEndian>::from(v)) == v && bytes_of(&U64::<BigEndian>::from(v)) == v.to_be_bytes(), "u64 big From");
        ensure!(u64::from(U64::<LittleEndian>::from(v)) == v && bytes_of(&U64::<LittleEndian>::from(v)) == v.to_le_bytes(), "u64 little From");
        let v: i16 = any();
        ensure!(i16::from(I16::<BigEndian>::from(v)) == v && bytes_of(&I16::<BigEndian>::from(v)) == v.to_be_bytes(), "i16 big From");
        ensure!(i16::from(I16::<LittleEndian>::from(v)) == v && bytes_of(&I16::<LittleEndian>::from(v)) == v.to_le_bytes(), "i16 little From");
        let v: i32 = any();
        ensure!(i32::from(I32::<BigEndian>::from(v)) == v && bytes_of(&I32::<BigEndian>::from(v)) == v.to_be_bytes(), "i32 big From");
        ensure!(i32::from(I32::<LittleEndian>::from(v)) == v && bytes_of(&I32::<LittleEndian>::from(v)) == v.to_le_bytes(), "i32 little From");
        let v: i64 = any();
        ensure!(i64::from(I64::<BigEndian>::from(v)) == v && bytes_of(&I64::<BigEndian>::from(v)) == v.to_be_bytes(), "i64 big From");
        ensure!(i64::from(I64::<LittleEndian>::from(v)) == v && bytes_of(&I64::<LittleEndian>::from(v)) == v.to_le_bytes(), "i64 little From");
        // this target is little-endian
        ensure!(NativeEndian::default().is_little_endian() && Endianness::default() == Endianness::Little, "native order");
        ensure!(<BigEndian as FixedEndian>::FIXED.is_big_endian() && <LittleEndian as FixedEndian>::FIXED.is_little_endian(), "fixed order");
        let m: u16 = any();
        ensure!(U16::<BigEndian, elf::Machine>::new(BigEndian, elf::Machine(m)).get(BigEndian) == elf::Machine(m), "typed constant round trip");
        let m: u32 = any();
        ensure!(U32::<LittleEndian, elf::SectionType>::new(LittleEndian, elf::SectionType(m)).get(LittleEndian) == elf::SectionType(m), "typed constant round trip");
    }
}

natives! {}
