use crate::rt::{self, ObjCell};
use std::cell::Cell;
use std::fmt;
use std::ops::Deref;
use std::sync as real;

pub struct OnceLock<T> {
    cell: ObjCell,
    inner: real::OnceLock<T>,
}
struct Exit<'a>(&'a ObjCell);
impl Drop for Exit<'_> {
    fn drop(&mut self) {
        if rt::active() {
            rt::once_exit(self.0);
        }
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { cell: ObjCell::new(), inner: real::OnceLock::new() }
    }
    #[track_caller]
    fn enter(&self) -> Option<Exit<'_>> {
        if rt::active() {
            rt::once_enter(&self.cell);
            Some(Exit(&self.cell))
        } else {
            None
        }
    }
    #[track_caller]
    pub fn get(&self) -> Option<&T> {
        let _e = self.enter();
        self.inner.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.inner.get_mut()
    }
    #[track_caller]
    pub fn set(&self, v: T) -> Result<(), T> {
        let _e = self.enter();
        self.inner.set(v)
    }
    #[track_caller]
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let e = self.enter();
        if self.inner.get().is_none() {
            let v = f();
            let _ = self.inner.set(v);
        }
        drop(e);
        self.inner.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.inner.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.inner.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock { cell: ObjCell::new(), inner: self.inner.clone() }
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    once: OnceLock<T>,
    init: Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { once: OnceLock::new(), init: Cell::new(Some(f)) }
    }
    #[track_caller]
    pub fn force(this: &Self) -> &T {
        this.once.get_or_init(|| (this.init.take().expect("LazyLock"))())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}
