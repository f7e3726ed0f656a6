//! The bit-fields of Mach-O pointer words, for C19 and C22.
use crate::shim::*;
use object::macho;

/// A getter of `bits` bits at `lo`.
macro_rules! bits {
    ($x:expr, $w:expr, $t:ty, $lo:expr, $n:expr, $m:literal) => {
        ensure!(($x) as u64 == (($w as u64) >> $lo) & (u64::MAX >> (64 - $n)), $m)
    };
}

/// Shared-cache pointer layouts, from <mach-o/dyld_cache_format.h>.
pub fn slide_pointers() {
    use macho::*;
    let w: u64 = any();
    let p = DyldCacheSlidePointer3(w);
    bits!(p.is_auth(), w, u64, 63, 1, "slide3 auth");
    bits!(p.target(), w, u64, 0, 43, "slide3 target");
    bits!(p.high8(), w, u64, 43, 8, "slide3 high8");
    bits!(p.runtime_offset(), w, u64, 0, 32, "slide3 runtime offset");
    bits!(p.diversity(), w, u64, 32, 16, "slide3 diversity");
    bits!(p.addr_div(), w, u64, 48, 1, "slide3 addr_div");
    bits!(p.key(), w, u64, 49, 2, "slide3 key");
    bits!(p.next(), w, u64, 51, 11, "slide3 next");
    let p = DyldCacheSlidePointer5(w);
    bits!(p.is_auth(), w, u64, 63, 1, "slide5 auth");
    bits!(p.runtime_offset(), w, u64, 0, 34, "slide5 runtime offset");
    bits!(p.high8(), w, u64, 34, 8, "slide5 high8");
    bits!(p.diversity(), w, u64, 34, 16, "slide5 diversity");
    bits!(p.addr_div(), w, u64, 50, 1, "slide5 addr_div");
    bits!(p.key_is_data(), w, u64, 51, 1, "slide5 key");
    bits!(p.next(), w, u64, 52, 11, "slide5 next");
    reach!(true, "end");
}

/// Chained-fixup pointer layouts, bit by bit, from <mach-o/fixup-chains.h>.
pub fn chained_pointers() {
    use macho::*;
    let w: u64 = any();
    let p = DyldChainedPtrArm64e(w);
    bits!(p.next(), w, u64, 51, 11, "arm64e next");
    bits!(p.is_bind(), w, u64, 62, 1, "arm64e bind");
    bits!(p.is_auth(), w, u64, 63, 1, "arm64e auth");
    bits!(p.rebase().target(), w, u64, 0, 43, "arm64e rebase target");
    bits!(p.rebase().high8(), w, u64, 43, 8, "arm64e rebase high8");
    let a = p.auth_rebase();
    bits!(a.runtime_offset(), w, u64, 0, 32, "arm64e auth rebase target");
    bits!(a.diversity(), w, u64, 32, 16, "arm64e auth rebase diversity");
    bits!(a.addr_div(), w, u64, 48, 1, "arm64e auth rebase addr_div");
    bits!(a.key(), w, u64, 49, 2, "arm64e auth rebase key");
    bits!(p.bind().ordinal(), w, u64, 0, 16, "arm64e bind ordinal");
    let add = ((w << 13) as i64 >> 45) as i32; // bits 32..51, sign-extended
    ensure!(p.bind().addend() == add, "arm64e bind addend is the signed 19-bit field");
    let a = p.auth_bind();
    bits!(a.ordinal(), w, u64, 0, 16, "arm64e auth bind ordinal");
    bits!(a.diversity(), w, u64, 32, 16, "arm64e auth bind diversity");
    bits!(a.addr_div(), w, u64, 48, 1, "arm64e auth bind addr_div");
    bits!(a.key(), w, u64, 49, 2, "arm64e auth bind key");
    bits!(p.bind24().ordinal(), w, u64, 0, 24, "arm64e bind24 ordinal");
    ensure!(p.bind24().addend() == add, "arm64e bind24 addend is the signed 19-bit field");
    let a = p.auth_bind24();
    bits!(a.ordinal(), w, u64, 0, 24, "arm64e auth bind24 ordinal");
    bits!(a.diversity(), w, u64, 32, 16, "arm64e auth bind24 diversity");
    bits!(a.addr_div(), w, u64, 48, 1, "arm64e auth bind24 addr_div");
    bits!(a.key(), w, u64, 49, 2, "arm64e auth bind24 key");
    let p = DyldChainedPtrArm64eSegmentedRebase(w);
    bits!(p.next(), w, u64, 51, 12, "segmented next");
    bits!(p.is_auth(), w, u64, 63, 1, "segmented auth");
    bits!(p.target_seg_offset(), w, u64, 0, 28, "segmented offset");
    bits!(p.target_seg_index(), w, u64, 28, 4, "segmented index");
    bits!(p.diversity(), w, u64, 32, 16, "segmented diversity");
    bits!(p.addr_div(), w, u64, 48, 1, "segmented addr_div");
    bits!(p.key(), w, u64, 49, 2, "segmented key");
    let p = DyldChainedPtr64(w);
    bits!(p.next(), w, u64, 51, 12, "ptr64 next");
    bits!(p.is_bind(), w, u64, 63, 1, "ptr64 bind");
    bits!(p.rebase().target(), w, u64, 0, 36, "ptr64 target");
    bits!(p.rebase().high8(), w, u64, 36, 8, "ptr64 high8");
    bits!(p.bind().ordinal(), w, u64, 0, 24, "ptr64 ordinal");
    bits!(p.bind().addend(), w, u64, 24, 8, "ptr64 addend");
    let p = DyldChainedPtr64KernelCacheRebase(w);
    bits!(p.next(), w, u64, 51, 12, "kernel cache next");
    bits!(p.is_auth(), w, u64, 63, 1, "kernel cache auth");
    bits!(p.target(), w, u64, 0, 30, "kernel cache target");
    bits!(p.cache_level(), w, u64, 30, 2, "kernel cache level");
    bits!(p.diversity(), w, u64, 32, 16, "kernel cache diversity");
    bits!(p.addr_div(), w, u64, 48, 1, "kernel cache addr_div");
    bits!(p.key(), w, u64, 49, 2, "kernel cache key");
    let p = DyldChainedPtrArm64eSharedCache(w);
    bits!(p.next(), w, u64, 52, 11, "shared cache next");
    bits!(p.is_auth(), w, u64, 63, 1, "shared cache auth");
    bits!(p.rebase().runtime_offset(), w, u64, 0, 34, "shared cache target");
    bits!(p.rebase().high8(), w, u64, 34, 8, "shared cache high8");
    let a = p.auth_rebase();
    bits!(a.runtime_offset(), w, u64, 0, 34, "shared cache auth target");
    bits!(a.diversity(), w, u64, 34, 16, "shared cache auth diversity");
    bits!(a.addr_div(), w, u64, 50, 1, "shared cache auth addr_div");
    bits!(a.key_is_data(), w, u64, 51, 1, "shared cache auth key");
    let x: u32 = any();
    let p = DyldChainedPtr32(x);
    bits!(p.next(), x, u32, 26, 5, "ptr32 next");
    bits!(p.is_bind(), x, u32, 31, 1, "ptr32 bind");
    bits!(p.rebase().target(), x, u32, 0, 26, "ptr32 target");
    bits!(p.bind().ordinal(), x, u32, 0, 20, "ptr32 ordinal");
    bits!(p.bind().addend(), x, u32, 20, 6, "ptr32 addend");
    let p = DyldChainedPtr32CacheRebase(x);
    bits!(p.target(), x, u32, 0, 30, "ptr32 cache target");
    bits!(p.next(), x, u32, 30, 2, "ptr32 cache next");
    let p = DyldChainedPtr32FirmwareRebase(x);
    bits!(p.target(), x, u32, 0, 26, "ptr32 firmware target");
    bits!(p.next(), x, u32, 26, 6, "ptr32 firmware next");
    let i = DyldChainedImport32(x);
    bits!(i.lib_ordinal(), x, u32, 0, 8, "import32 library");
    bits!(i.weak_import(), x, u32, 8, 1, "import32 weak");
    bits!(i.name_offset(), x, u32, 9, 23, "import32 name");
    let l = x & 0xff;
    ensure!(i.dylib().0 == if l > 0xf0 { l as i32 - 256 } else { l as i32 }, "import32 special libraries are negative");
    let i = DyldChainedImport64(w);
    bits!(i.lib_ordinal(), w, u64, 0, 16, "import64 library");
    bits!(i.weak_import(), w, u64, 16, 1, "import64 weak");
    bits!(i.name_offset(), w, u64, 32, 32, "import64 name");
    let l = w & 0xffff;
    ensure!(i.dylib().0 == if l > 0xfff0 { l as i32 - 65536 } else { l as i32 }, "import64 special libraries are negative");
    reach!(true, "end");
}
