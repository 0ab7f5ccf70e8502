use crate::rt::{self, ObjCell};
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
use std::sync as real;
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

fn map<G, H>(r: LockResult<G>, f: impl FnOnce(G) -> H) -> LockResult<H> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(e) => Err(PoisonError::new(f(e.into_inner()))),
    }
}

fn map_try<G, H>(r: TryLockResult<G>, f: impl FnOnce(G) -> H) -> TryLockResult<H> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(f(e.into_inner())))),
        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
}

// ------------------------------------------------------------------ Mutex

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    cell: ObjCell,
    inner: real::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    inner: ManuallyDrop<real::MutexGuard<'a, T>>,
    modelled: bool,
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { cell: ObjCell::new(), inner: real::Mutex::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    #[track_caller]
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let modelled = rt::active();
        if modelled {
            rt::lock(&self.cell);
        }
        map(self.inner.lock(), |g| MutexGuard { lock: self, inner: ManuallyDrop::new(g), modelled })
    }
    #[track_caller]
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let modelled = rt::active();
        if modelled && !rt::try_lock(&self.cell) {
            return Err(TryLockError::WouldBlock);
        }
        map_try(self.inner.try_lock(), |g| MutexGuard { lock: self, inner: ManuallyDrop::new(g), modelled })
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.inner) };
        if self.modelled && rt::active() {
            rt::unlock(&self.lock.cell);
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.inner
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}

// ------------------------------------------------------------------ RwLock

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    cell: ObjCell,
    inner: real::RwLock<T>,
}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    inner: ManuallyDrop<real::RwLockReadGuard<'a, T>>,
    modelled: bool,
}

pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    inner: ManuallyDrop<real::RwLockWriteGuard<'a, T>>,
    modelled: bool,
}

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { cell: ObjCell::new(), inner: real::RwLock::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    #[track_caller]
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let modelled = rt::active();
        if modelled {
            rt::read(&self.cell);
        }
        map(self.inner.read(), |g| RwLockReadGuard { lock: self, inner: ManuallyDrop::new(g), modelled })
    }
    #[track_caller]
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let modelled = rt::active();
        if modelled {
            rt::write(&self.cell);
        }
        map(self.inner.write(), |g| RwLockWriteGuard { lock: self, inner: ManuallyDrop::new(g), modelled })
    }
    #[track_caller]
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let modelled = rt::active();
        if modelled && !rt::try_read(&self.cell) {
            return Err(TryLockError::WouldBlock);
        }
        map_try(self.inner.try_read(), |g| RwLockReadGuard { lock: self, inner: ManuallyDrop::new(g), modelled })
    }
    #[track_caller]
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let modelled = rt::active();
        if modelled && !rt::try_lock(&self.cell) {
            return Err(TryLockError::WouldBlock);
        }
        map_try(self.inner.try_write(), |g| RwLockWriteGuard { lock: self, inner: ManuallyDrop::new(g), modelled })
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.inner) };
        if self.modelled && rt::active() {
            rt::unlock_read(&self.lock.cell);
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.inner) };
        if self.modelled && rt::active() {
            rt::unlock(&self.lock.cell);
        }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let mut s = ManuallyDrop::new(s);
        unsafe { ManuallyDrop::drop(&mut s.inner) };
        let inner = s.lock.inner.read().unwrap_or_else(|e| e.into_inner());
        if s.modelled && rt::active() {
            rt::downgrade(&s.lock.cell);
        }
        RwLockReadGuard { lock: s.lock, inner: ManuallyDrop::new(inner), modelled: s.modelled }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.inner
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}

// ------------------------------------------------------------------ Condvar

#[derive(Default)]
pub struct Condvar {
    cell: ObjCell,
    inner: real::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { cell: ObjCell::new(), inner: real::Condvar::new() }
    }
    #[track_caller]
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let mut g = ManuallyDrop::new(g);
        let lock = g.lock;
        let inner = unsafe { ManuallyDrop::take(&mut g.inner) };
        if g.modelled && rt::active() {
            drop(inner);
            rt::cond_wait(&self.cell, &lock.cell);
            map(lock.inner.lock(), |g| MutexGuard { lock, inner: ManuallyDrop::new(g), modelled: true })
        } else {
            map(self.inner.wait(inner), |g| MutexGuard { lock, inner: ManuallyDrop::new(g), modelled: false })
        }
    }
    #[track_caller]
    pub fn wait_while<'a, T>(&self, mut g: MutexGuard<'a, T>, mut c: impl FnMut(&mut T) -> bool) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    #[track_caller]
    pub fn notify_one(&self) {
        if rt::active() {
            rt::cond_notify(&self.cell, false);
        }
        self.inner.notify_one();
    }
    #[track_caller]
    pub fn notify_all(&self) {
        if rt::active() {
            rt::cond_notify(&self.cell, true);
        }
        self.inner.notify_all();
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Condvar")
    }
}
