//! Runtimes (buffer backends) for the programs under exploration.

use craballoc::prelude::*;
use craballoc::slab::SlabAllocatorError;
use std::future::Future;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};

#[cfg(feature = "mc")]
pub use mcstd::rt::{access, active, Kind, ObjCell};
#[cfg(not(feature = "mc"))]
pub use plain::*;
#[cfg(not(feature = "mc"))]
mod plain {
    #[derive(Default)]
    pub struct ObjCell;
    impl ObjCell {
        pub const fn new() -> Self {
            ObjCell
        }
    }
    pub enum Kind {
        Acc,
        AccR,
    }
    pub fn access(_: &ObjCell, _: Kind) {}
    pub fn active() -> bool {
        false
    }
}

pub trait Rtm: IsRuntime<Buffer: Send + Sync + 'static, BufferUsages: Send + Sync + 'static> + AsRef<Self> + Send + Sync + 'static {
    fn make() -> Self;
    fn usages() -> Self::BufferUsages;
    fn words(b: &Self::Buffer) -> Vec<u32>;
}

/// A device whose every transfer is one step of the explorer.
#[derive(Clone)]
pub struct Mc {
    live: Arc<AtomicI64>,
}
impl AsRef<Mc> for Mc {
    fn as_ref(&self) -> &Mc {
        self
    }
}
pub struct McBuffer {
    cell: ObjCell,
    words: Mutex<Vec<u32>>,
    live: Arc<AtomicI64>,
}
impl Drop for McBuffer {
    fn drop(&mut self) {
        self.live.fetch_sub(1, Ordering::SeqCst);
    }
}
fn step(b: &McBuffer, k: Kind) {
    if active() {
        access(&b.cell, k);
    }
}
impl IsRuntime for Mc {
    type Buffer = McBuffer;
    type BufferUsages = ();

    fn buffer_create(&self, capacity: usize, _label: Option<&str>, _usages: ()) -> McBuffer {
        assert!(capacity > 0, "device: a buffer without words");
        self.live.fetch_add(1, Ordering::SeqCst);
        McBuffer { cell: ObjCell::new(), words: Mutex::new(vec![0; capacity]), live: self.live.clone() }
    }
    fn buffer_copy(&self, s: &McBuffer, d: &McBuffer, _label: Option<&str>) {
        step(s, Kind::AccR);
        let src = s.words.lock().unwrap().clone();
        step(d, Kind::Acc);
        let mut d = d.words.lock().unwrap();
        assert!(src.len() <= d.len(), "device: copy of {} words into {}", src.len(), d.len());
        d[..src.len()].copy_from_slice(&src);
    }
    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, b: &McBuffer) {
        for u in updates {
            step(b, Kind::Acc);
            let mut d = b.words.lock().unwrap();
            let (i, n) = (u.array.starting_index(), u.array.len());
            assert_eq!(n, u.elements.len(), "device: update of {n} words with {} elements", u.elements.len());
            assert!(i + n <= d.len(), "device: write of words {i}..{} into {} words", i + n, d.len());
            d[i..i + n].copy_from_slice(&u.elements);
        }
    }
    fn buffer_read(
        &self,
        b: &McBuffer,
        len: usize,
        range: impl std::ops::RangeBounds<usize>,
    ) -> impl Future<Output = Result<Vec<u32>, SlabAllocatorError>> {
        let w = Self::words(b);
        let s = match range.start_bound() {
            std::ops::Bound::Included(i) => *i,
            std::ops::Bound::Excluded(i) => *i + 1,
            std::ops::Bound::Unbounded => 0,
        };
        let e = match range.end_bound() {
            std::ops::Bound::Included(i) => *i + 1,
            std::ops::Bound::Excluded(i) => *i,
            std::ops::Bound::Unbounded => len,
        };
        std::future::ready(Ok(w[s..e].to_vec()))
    }
}
impl Rtm for Mc {
    fn make() -> Self {
        Mc { live: Default::default() }
    }
    fn usages() {}
    fn words(b: &McBuffer) -> Vec<u32> {
        step(b, Kind::AccR);
        b.words.lock().unwrap().clone()
    }
}

impl Rtm for CpuRuntime {
    fn make() -> Self {
        CpuRuntime
    }
    fn usages() {}
    fn words(b: &VecSlab) -> Vec<u32> {
        b.as_vec().clone()
    }
}
