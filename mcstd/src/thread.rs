pub use std::thread::*;

pub fn yield_now() {
    if crate::rt::active() {
        crate::rt::yield_point();
    } else {
        std::thread::yield_now();
    }
}

pub fn sleep(d: std::time::Duration) {
    if crate::rt::active() {
        crate::rt::yield_point();
    } else {
        std::thread::sleep(d);
    }
}
