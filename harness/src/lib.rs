#![allow(dead_code)]
#[macro_use]
pub mod sym;
pub mod fields;
pub mod frames;
pub mod kinds;
pub mod messages;
pub mod shapes;
pub mod spec;
pub mod texts;

macro_rules! modules {
    ($($m:ident $f:literal)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        /// Every harness by name.
        pub fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, extern "C-unwind" fn())> = Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::ALL);)*
            v
        }
    }
}
modules! { c01 "c01" c02 "c02" c03 "c03" c04 "c04" c05 "c05" c06 "c06" c07 "c07" c08 "c08" c09 "c09" c10 "c10" c11 "c11" c12 "c12" c13 "c13" c14 "c14" c15 "c15" c16 "c16" c17 "c17" c18 "c18" c19 "c19" c20 "c20" c21 "c21" c22 "c22" c23 "c23" c24 "c24" }
