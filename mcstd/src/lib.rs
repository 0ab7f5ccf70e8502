//! A `std` whose `sync` and `thread` are controlled by an interleaving explorer.
//!
//! The crate under test is compiled with `--extern std=libmcstd.rlib --extern core=libmccore.rlib`
//! (see `/verif/rustc-wrap.sh`), so that its `std::sync::..` paths resolve to the shims below.
//! While no exploration is running on this OS thread the shims behave exactly as std does.
#![feature(coerce_unsized, unsize, dispatch_from_dyn)]
#![allow(clippy::all, unused_features, internal_features)]

pub use std::*;

pub mod rt;
pub mod sync;
pub mod thread;

pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        crate::rt::yield_point();
    }
}
