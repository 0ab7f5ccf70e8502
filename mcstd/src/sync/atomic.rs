pub use std::sync::atomic::*;

use crate::rt::{self, ObjCell, Ord2};
pub use std::sync::atomic::Ordering;

pub fn fence(o: Ordering) {
    if rt::active() {
        rt::fence();
    } else {
        std::sync::atomic::fence(o)
    }
}

pub fn spin_loop_hint() {
    rt::yield_point();
}

macro_rules! common {
    ($name:ident, $ty:ty, [$($g:tt)*], [$($ga:tt)*], $std:ty, $to:expr, $from:expr) => {
        impl $($g)* $name $($ga)* {
            pub const fn new(v: $ty) -> Self {
                Self { cell: ObjCell::new(), inner: <$std>::new(v) }
            }
            pub fn get_mut(&mut self) -> &mut $ty {
                self.inner.get_mut()
            }
            pub fn into_inner(self) -> $ty {
                self.inner.into_inner()
            }
            fn raw(&self) -> u64 {
                $to(self.inner.load(Ordering::SeqCst))
            }
            #[track_caller]
            pub fn load(&self, o: Ordering) -> $ty {
                if rt::active() {
                    $from(rt::atomic_load(&self.cell, || self.raw(), Ord2::of(o)))
                } else {
                    self.inner.load(o)
                }
            }
            #[track_caller]
            pub fn store(&self, v: $ty, o: Ordering) {
                if rt::active() {
                    rt::atomic_store(&self.cell, || self.raw(), $to(v), Ord2::of(o), || self.inner.store(v, Ordering::SeqCst))
                } else {
                    self.inner.store(v, o)
                }
            }
            #[track_caller]
            fn rmw(&self, o: Ordering, real: impl FnOnce() -> $ty) -> $ty {
                rt::atomic_rmw(&self.cell, || self.raw(), Ord2::of(o), Ord2::of(o), || {
                    let r = real();
                    (r, Some(self.raw()))
                })
            }
            #[track_caller]
            pub fn swap(&self, v: $ty, o: Ordering) -> $ty {
                if rt::active() {
                    self.rmw(o, || self.inner.swap(v, Ordering::SeqCst))
                } else {
                    self.inner.swap(v, o)
                }
            }
            #[track_caller]
            pub fn compare_exchange(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                if rt::active() {
                    rt::atomic_rmw(&self.cell, || self.raw(), Ord2::of(s), Ord2::of(f), || {
                        let r = self.inner.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst);
                        (r, if r.is_ok() { Some(self.raw()) } else { None })
                    })
                } else {
                    self.inner.compare_exchange(a, b, s, f)
                }
            }
            #[track_caller]
            pub fn compare_exchange_weak(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                self.compare_exchange(a, b, s, f)
            }
            #[track_caller]
            pub fn fetch_update<F: FnMut($ty) -> Option<$ty>>(&self, s: Ordering, fo: Ordering, mut f: F) -> Result<$ty, $ty> {
                let mut prev = self.load(fo);
                while let Some(next) = f(prev) {
                    match self.compare_exchange(prev, next, s, fo) {
                        Ok(x) => return Ok(x),
                        Err(x) => prev = x,
                    }
                }
                Err(prev)
            }
            #[track_caller]
            pub fn try_update(&self, s: Ordering, fo: Ordering, f: impl FnMut($ty) -> Option<$ty>) -> Result<$ty, $ty> {
                self.fetch_update(s, fo, f)
            }
            #[track_caller]
            pub fn update(&self, s: Ordering, fo: Ordering, mut f: impl FnMut($ty) -> $ty) -> $ty {
                self.fetch_update(s, fo, |x| Some(f(x))).ok().unwrap()
            }
        }
        impl $($g)* std::fmt::Debug for $name $($ga)* {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.inner.fmt(f)
            }
        }
        impl $($g)* From<$ty> for $name $($ga)* {
            fn from(v: $ty) -> Self {
                Self::new(v)
            }
        }
    };
}

macro_rules! fetch {
    ($ty:ty, $($f:ident),*) => {
        $(
            #[track_caller]
            pub fn $f(&self, v: $ty, o: Ordering) -> $ty {
                if rt::active() {
                    self.rmw(o, || self.inner.$f(v, Ordering::SeqCst))
                } else {
                    self.inner.$f(v, o)
                }
            }
        )*
    };
}

macro_rules! int {
    ($name:ident, $ty:ty) => {
        #[derive(Default)]
        pub struct $name {
            cell: ObjCell,
            inner: std::sync::atomic::$name,
        }
        common!($name, $ty, [], [], std::sync::atomic::$name, |v: $ty| v as u64, |v: u64| v as $ty);
        impl $name {
            fetch!($ty, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
        }
    };
}
int!(AtomicUsize, usize);
int!(AtomicIsize, isize);
int!(AtomicU64, u64);
int!(AtomicI64, i64);
int!(AtomicU32, u32);
int!(AtomicI32, i32);
int!(AtomicU16, u16);
int!(AtomicI16, i16);
int!(AtomicU8, u8);
int!(AtomicI8, i8);

#[derive(Default)]
pub struct AtomicBool {
    cell: ObjCell,
    inner: std::sync::atomic::AtomicBool,
}
common!(AtomicBool, bool, [], [], std::sync::atomic::AtomicBool, |v: bool| v as u64, |v: u64| v != 0);
impl AtomicBool {
    fetch!(bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
    #[track_caller]
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}

pub struct AtomicPtr<T> {
    cell: ObjCell,
    inner: std::sync::atomic::AtomicPtr<T>,
}
common!(AtomicPtr, *mut T, [<T>], [<T>], std::sync::atomic::AtomicPtr<T>, |v: *mut T| v as usize as u64, |v: u64| v as usize as *mut T);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
