#![allow(dead_code, unused_imports, unused_variables, unused_mut, static_mut_refs, unexpected_cfgs, mismatched_lifetime_syntaxes)]
#[macro_use]
pub mod mac;
pub mod nd;
pub mod ser;
pub mod aio;
#[macro_use]
pub mod lazy;
#[macro_use]
pub mod opt;
#[macro_use]
pub mod cells;
#[cfg(feature = "model")]
pub mod sched;

/// Length of symbolic histories.
pub const K: usize = if cfg!(feature = "thorough") { 6 } else { 4 };

macro_rules! modules {
    ($($m:ident $f:literal $(needs $g:literal)?),* $(,)?) => {
        $( #[cfg(all(feature = $f $(, feature = $g)?))] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = vec![];
            $( #[cfg(all(feature = $f $(, feature = $g)?))] v.extend($m::ALL.iter().map(|(n, f)| (n.split_once("::").unwrap().1, *f))); )*
            v
        }
    };
}
modules! { c01 "c01", c02 "c02", c03 "c03" needs "model", c04 "c04", c05 "c05" needs "model", c06 "c06", c07 "c07", c08 "c08" needs "model", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17" needs "model", c18 "c18", c19 "c19", c20 "c20" }
