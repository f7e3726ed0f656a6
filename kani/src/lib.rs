//! Contracts over the public functions of /repo's `object` crate.
//! Each harness states `requires` (assume) / `ensures` (check) around the real function.
#![allow(clippy::all, unused_imports, dead_code, unused_macros)]

#[macro_use]
pub mod shim;
pub mod craft;
pub mod fuzz;
pub mod ptrs;
#[cfg(feature = "w")]
pub mod rec;

macro_rules! props {
    ($($feat:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $feat)] pub mod $m; )*
        pub fn all() -> Vec<(&'static str, &'static [(&'static str, fn())])> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, &'static [(&'static str, fn())])> = Vec::new();
            $( #[cfg(feature = $feat)] { v.push((stringify!($m), $m::ALL)); v.push((stringify!($m), $m::NAT)); } )*
            v
        }
    };
}

props! {
    "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c22" c22, "c28" c28, "c14" c14, "c15" c15, "c21" c21, "c27" c27, "c20" c20, "c19" c19, "c18" c18, "c08" c08, "c17" c17, "c07" c07, "c06" c06, "c05" c05, "c12" c12, "c11" c11, "c13" c13, "c16" c16, "c26" c26, "c23" c23, "c25" c25, "c24" c24, "c10" c10,
    "c09" c09,
}
