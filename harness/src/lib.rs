//! One entry function per check (`h_*`). Each is executed symbolically from LLVM IR by /verif/engine, and
//! natively, on concrete bytes, by the replayer (src/bin/replay.rs).
#![allow(dead_code, static_mut_refs)]
pub mod reference;
pub mod mini;
pub mod decode;
pub mod iters;
pub mod parts;
pub mod grep;
pub mod gen;
pub mod many;
pub mod world;

#[macro_export]
macro_rules! entries {
    ($($name:ident => $e:expr),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $e; })*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
pub mod tools;
pub mod ripdlt;
pub fn table() -> Vec<(&'static str, extern "C" fn())> { [decode::TABLE, iters::TABLE, parts::TABLE, grep::TABLE, gen::TABLE, tools::TABLE, ripdlt::TABLE, many::TABLE].concat() }
