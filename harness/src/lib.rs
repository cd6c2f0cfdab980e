//! Symbolic harnesses over the real nt-hive code.  The same functions are executed symbolically (as LLVM IR, by
//! /verif/engine) and natively (src/replay.rs) on a concrete counterexample.

#[macro_use]
pub mod sym;

pub mod upper;
pub mod img;

pub type Table = &'static [(&'static str, extern "C" fn())];

macro_rules! topics {
    ($($f:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn tables() -> Vec<Table> { vec![$(#[cfg(feature = $f)] $m::TABLE),*] }
    };
}
topics!("t_c02t" c02, "t_keys" keys, "t_names" names, "t_values" values, "t_keyname" keyname, "t_base" base, "t_data" data, "t_big" big, "t_strs" strs, "t_lookup" lookup, "t_path" path, "t_clear" clear, "t_iters" iters, "t_eq" eq, "t_long" long, "t_show" show);
