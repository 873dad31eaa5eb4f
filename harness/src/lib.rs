//! Harnesses: each `h_*` function states a property of the public API of essay-tensor over symbolic
//! inputs. They are compiled together with /repo's current source to LLVM IR and executed symbolically
//! by /verif/engine; `bin/replay.rs` runs the same functions natively on a solver model.
#![allow(clippy::all)]
pub mod rt;

macro_rules! props {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn table() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $( #[cfg(feature = $f)] v.extend_from_slice($m::TABLE); )*
            v
        }
    }
}

/// harnesses! { fn h_a() {..} fn h_b() {..} }
#[macro_export]
macro_rules! harnesses {
    ($($(#[$a:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$a])* #[no_mangle] pub fn $n() $b )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    }
}

props! {
    "c01" c01,
    "c02" c02,
    "c03" c03,
    "c04" c04,
    "c05" c05,
    "c06" c06,
    "c07" c07,
    "c08" c08,
    "c09" c09,
    "c10" c10,
    "c11" c11,
    "c12" c12,
    "c13" c13,
    "c14" c14,
    "c15" c15,
    "c16" c16,
    "c17" c17,
    "c18" c18,
    "c19" c19,
    "c20" c20,
    "c25" c25,
    "c21" c21,
    "c22" c22,
    "c23" c23,
    "c24" c24,
    "c26" c26,
    "c27" c27,
    "c28" c28,
    "c29" c29,
    "c30" c30,
}
