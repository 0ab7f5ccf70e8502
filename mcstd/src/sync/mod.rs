pub use std::sync::*;

pub mod atomic;
mod arc;
mod locks;
mod once;

pub use arc::{Arc, Weak};
pub use locks::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
pub use once::{LazyLock, OnceLock};
