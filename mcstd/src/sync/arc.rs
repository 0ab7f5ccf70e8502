//! `Arc` and `Weak` whose reference counts are observed by the explorer.
//!
//! Counting is a scheduling point only while weak handles exist, because otherwise nobody but the
//! owners themselves can observe it (`get_mut` and friends are points in any case).

use crate::rt::{self, Kind};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::Unsize;
use std::mem::ManuallyDrop;
use std::ops::{CoerceUnsized, Deref, DispatchFromDyn};
use std::pin::Pin;
use std::sync as real;

pub struct Arc<T: ?Sized> {
    inner: real::Arc<T>,
}

pub struct Weak<T: ?Sized> {
    inner: real::Weak<T>,
}

impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}

fn addr<T: ?Sized>(a: &real::Arc<T>) -> usize {
    real::Arc::as_ptr(a) as *const () as usize
}

fn wrap<T: ?Sized>(a: real::Arc<T>) -> Arc<T> {
    Arc { inner: a }
}

impl<T> Arc<T> {
    pub fn new(v: T) -> Self {
        wrap(real::Arc::new(v))
    }
    pub fn pin(v: T) -> Pin<Self> {
        unsafe { Pin::new_unchecked(Self::new(v)) }
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
        wrap(real::Arc::new_cyclic(|w| {
            let w = Weak { inner: w.clone() };
            f(&w)
        }))
    }
    fn into_real(self) -> real::Arc<T> {
        let this = ManuallyDrop::new(self);
        unsafe { std::ptr::read(&this.inner) }
    }
    #[track_caller]
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        Self::look(&this);
        let a = addr(&this.inner);
        let n = real::Arc::strong_count(&this.inner) as u64;
        match real::Arc::try_unwrap(this.into_real()) {
            Ok(v) => {
                if rt::active() {
                    rt::arc_written(a, n, 0, Kind::ArcDrop);
                    rt::arc_gone(a);
                }
                Ok(v)
            }
            Err(e) => Err(wrap(e)),
        }
    }
    #[track_caller]
    pub fn into_inner(this: Self) -> Option<T> {
        match Self::try_unwrap(this) {
            Ok(v) => Some(v),
            Err(a) => {
                drop(a);
                None
            }
        }
    }
    #[track_caller]
    pub fn unwrap_or_clone(this: Self) -> T
    where
        T: Clone,
    {
        Self::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
    pub fn into_raw(this: Self) -> *const T {
        real::Arc::into_raw(this.into_real())
    }
    pub unsafe fn from_raw(p: *const T) -> Self {
        wrap(real::Arc::from_raw(p))
    }
}

impl<T: Clone> Arc<T> {
    #[track_caller]
    pub fn make_mut(this: &mut Self) -> &mut T {
        if Self::get_mut(this).is_none() {
            *this = Arc::new((**this).clone());
        }
        Self::get_mut(this).unwrap()
    }
}

impl<T: ?Sized> Arc<T> {
    #[track_caller]
    fn look(this: &Self) -> u64 {
        let n = real::Arc::strong_count(&this.inner) as u64;
        if rt::active() {
            let a = addr(&this.inner);
            rt::arc_point(a, n, Kind::ArcCount);
            let n = real::Arc::strong_count(&this.inner) as u64;
            rt::arc_looked(a, n);
            n
        } else {
            n
        }
    }
    pub fn as_ptr(this: &Self) -> *const T {
        real::Arc::as_ptr(&this.inner)
    }
    #[track_caller]
    pub fn strong_count(this: &Self) -> usize {
        if rt::active() {
            let a = addr(&this.inner);
            rt::arc_point(a, real::Arc::strong_count(&this.inner) as u64, Kind::ArcCount);
            rt::arc_count(a, real::Arc::strong_count(&this.inner) as u64) as usize
        } else {
            real::Arc::strong_count(&this.inner)
        }
    }
    #[track_caller]
    pub fn weak_count(this: &Self) -> usize {
        Self::look(this);
        real::Arc::weak_count(&this.inner)
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        real::Arc::ptr_eq(&a.inner, &b.inner)
    }
    #[track_caller]
    pub fn downgrade(this: &Self) -> Weak<T> {
        Weak { inner: real::Arc::downgrade(&this.inner) }
    }
    #[track_caller]
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        Self::look(this);
        real::Arc::get_mut(&mut this.inner)
    }
}

fn watched<T: ?Sized>(a: &real::Arc<T>) -> bool {
    rt::active() && real::Arc::weak_count(a) > 0
}

impl<T: ?Sized> Clone for Arc<T> {
    #[track_caller]
    fn clone(&self) -> Self {
        if watched(&self.inner) {
            let a = addr(&self.inner);
            rt::arc_point(a, real::Arc::strong_count(&self.inner) as u64, Kind::ArcClone);
            let n = real::Arc::strong_count(&self.inner) as u64;
            let c = real::Arc::clone(&self.inner);
            rt::arc_written(a, n, n + 1, Kind::ArcClone);
            return wrap(c);
        }
        wrap(real::Arc::clone(&self.inner))
    }
}

impl<T: ?Sized> Drop for Arc<T> {
    #[track_caller]
    fn drop(&mut self) {
        let a = addr(&self.inner);
        if rt::active() && !std::thread::panicking() {
            if watched(&self.inner) {
                rt::arc_point(a, real::Arc::strong_count(&self.inner) as u64, Kind::ArcDrop);
                let n = real::Arc::strong_count(&self.inner) as u64;
                // account first: destroying the data may run further operations
                rt::arc_written(a, n, n - 1, Kind::ArcDrop);
                if n == 1 {
                    rt::arc_gone(a);
                }
            } else if real::Arc::strong_count(&self.inner) == 1 {
                rt::arc_gone(a);
            }
        }
        // `inner` is dropped from here on
    }
}

impl<T> Weak<T> {
    pub const fn new() -> Self {
        Weak { inner: real::Weak::new() }
    }
}
impl<T: ?Sized> Weak<T> {
    fn addr(&self) -> usize {
        real::Weak::as_ptr(&self.inner) as *const () as usize
    }
    #[track_caller]
    pub fn upgrade(&self) -> Option<Arc<T>> {
        if rt::active() {
            let a = self.addr();
            rt::arc_point(a, self.inner.strong_count() as u64, Kind::ArcUpgrade);
            let n = self.inner.strong_count() as u64;
            let r = self.inner.upgrade();
            if r.is_some() {
                rt::arc_written(a, n, n + 1, Kind::ArcUpgrade);
            } else {
                rt::arc_looked(a, n);
            }
            return r.map(wrap);
        }
        self.inner.upgrade().map(wrap)
    }
    #[track_caller]
    pub fn strong_count(&self) -> usize {
        if rt::active() {
            let a = self.addr();
            rt::arc_point(a, self.inner.strong_count() as u64, Kind::ArcCount);
            return rt::arc_count(a, self.inner.strong_count() as u64) as usize;
        }
        self.inner.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        self.inner.weak_count()
    }
    pub fn ptr_eq(&self, o: &Self) -> bool {
        self.inner.ptr_eq(&o.inner)
    }
    pub fn as_ptr(&self) -> *const T {
        self.inner.as_ptr()
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        Weak { inner: self.inner.clone() }
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "(Weak)")
    }
}

impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T> From<T> for Arc<T> {
    fn from(v: T) -> Self {
        Arc::new(v)
    }
}
impl From<&str> for Arc<str> {
    fn from(v: &str) -> Self {
        wrap(v.into())
    }
}
impl From<String> for Arc<str> {
    fn from(v: String) -> Self {
        wrap(v.into())
    }
}
impl<T> From<Vec<T>> for Arc<[T]> {
    fn from(v: Vec<T>) -> Self {
        wrap(v.into())
    }
}
impl<T: Clone> From<&[T]> for Arc<[T]> {
    fn from(v: &[T]) -> Self {
        wrap(v.into())
    }
}
impl<T: ?Sized> From<Box<T>> for Arc<T> {
    fn from(v: Box<T>) -> Self {
        wrap(v.into())
    }
}
impl<T> FromIterator<T> for Arc<[T]> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        wrap(i.into_iter().collect())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&Self::as_ptr(self), f)
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl<T: ?Sized + std::error::Error> std::error::Error for Arc<T> {}
