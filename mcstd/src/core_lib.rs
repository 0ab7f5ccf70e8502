//! A `core` whose atomics are controlled by the explorer; see `lib.rs`.
#![no_std]
pub use core::*;
pub mod sync {
    pub use core::sync::*;
    pub mod atomic {
        pub use mcstd::sync::atomic::*;
    }
}
pub mod hint {
    pub use core::hint::*;
    pub fn spin_loop() {
        mcstd::hint::spin_loop();
    }
}
