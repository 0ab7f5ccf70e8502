//! The runtimes whose buffers the histories are played on.

use craballoc::prelude::*;
use craballoc::runtime::SlabUpdate;
use crabslab::{Array, SlabItem};
use std::future::Future;
use std::ops::Bound;
use std::pin::pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub type Bounds = (Bound<usize>, Bound<usize>);

pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    fn noop(_: *const ()) {}
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut f = pin!(f);
    for _ in 0..1000 {
        if let Poll::Ready(t) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return t;
        }
    }
    panic!("a future makes no progress")
}

pub trait Rt: IsRuntime + AsRef<Self> + 'static {
    const GPU: bool;
    fn make() -> Self;
    fn usages(variant: usize) -> Self::BufferUsages;
    fn words(b: &Self::Buffer) -> Vec<u32>;
    fn id(b: &Self::Buffer) -> usize;
    /// How many buffers exist.
    fn live(&self) -> usize;
    /// Read back; None when there is nothing to read from.
    fn read(a: &SlabAllocator<Self>, r: Bounds) -> Result<Vec<u32>, String>;
    fn read_array<T: SlabItem + Default>(a: &SlabAllocator<Self>, r: Array<T>) -> Option<Result<Vec<T>, String>>;
    /// Writes all words of a buffer without the allocator.
    fn poke(&self, b: &Self::Buffer, ws: &[u32]);
    /// What the allocator asked the runtime to do, since the last time this was called.
    fn calls(&self) -> Vec<Call> {
        vec![]
    }
}

/// A call of the runtime.
#[derive(Clone, Debug)]
pub enum Call {
    Create { id: usize, capacity: usize, label: Option<String>, usages: usize },
    Copy { src: usize, dst: usize },
    /// indices and lengths of the updates, and the numbers of words they bring
    Write { buf: usize, updates: Vec<(u32, u32, usize)> },
    Read,
}

#[derive(Default)]
pub struct Log {
    next: AtomicUsize,
    live: AtomicUsize,
    calls: Mutex<Option<Vec<Call>>>,
}

impl Log {
    fn note(&self, c: impl FnOnce() -> Call) {
        if let Some(v) = self.calls.lock().unwrap().as_mut() {
            v.push(c());
        }
    }
}

/// The repository's CPU runtime, with its buffers counted and numbered.
#[derive(Clone)]
pub struct Cpu(pub Arc<Log>);

impl AsRef<Cpu> for Cpu {
    fn as_ref(&self) -> &Cpu {
        self
    }
}

/// Some number that buffers are to be created with.
#[derive(Clone)]
pub struct Usages(usize);

pub struct CpuBuf {
    id: usize,
    log: Arc<Log>,
    inner: VecSlab,
}

impl Drop for CpuBuf {
    fn drop(&mut self) {
        self.log.live.fetch_sub(1, Ordering::Relaxed);
    }
}

impl IsRuntime for Cpu {
    type Buffer = CpuBuf;
    type BufferUsages = Usages;

    fn buffer_create(&self, capacity: usize, label: Option<&str>, usages: Usages) -> CpuBuf {
        self.0.live.fetch_add(1, Ordering::Relaxed);
        let id = self.0.next.fetch_add(1, Ordering::Relaxed);
        self.0.note(|| Call::Create { id, capacity, label: label.map(|l| l.into()), usages: usages.0 });
        CpuBuf {
            id,
            log: self.0.clone(),
            inner: CpuRuntime.buffer_create(capacity, label, ()),
        }
    }

    fn buffer_copy(&self, s: &CpuBuf, d: &CpuBuf, label: Option<&str>) {
        self.0.note(|| Call::Copy { src: s.id, dst: d.id });
        CpuRuntime.buffer_copy(&s.inner, &d.inner, label)
    }

    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, b: &CpuBuf) {
        if self.0.calls.lock().unwrap().is_none() {
            return CpuRuntime.buffer_write(updates, &b.inner);
        }
        let updates: Vec<SlabUpdate> = updates.collect();
        self.0.note(|| Call::Write { buf: b.id, updates: updates.iter().map(|u| (u.array.index, u.array.len, u.elements.len())).collect() });
        CpuRuntime.buffer_write(updates.into_iter(), &b.inner)
    }

    async fn buffer_read(
        &self,
        buffer: &CpuBuf,
        buffer_len: usize,
        range: impl std::ops::RangeBounds<usize>,
    ) -> Result<Vec<u32>, SlabAllocatorError> {
        self.0.note(|| Call::Read);
        CpuRuntime.buffer_read(&buffer.inner, buffer_len, range).await
    }
}

impl Rt for Cpu {
    const GPU: bool = false;
    fn make() -> Self {
        Cpu(Default::default())
    }
    fn usages(variant: usize) -> Usages {
        Usages(variant)
    }
    fn poke(&self, b: &CpuBuf, ws: &[u32]) {
        let array = Array::new(0, ws.len() as u32);
        CpuRuntime.buffer_write(std::iter::once(SlabUpdate { array, elements: ws.to_vec() }), &b.inner)
    }
    fn calls(&self) -> Vec<Call> {
        // from the first time on
        self.0.calls.lock().unwrap().replace(vec![]).unwrap_or_default()
    }
    fn words(b: &CpuBuf) -> Vec<u32> {
        b.inner.as_vec().clone()
    }
    fn id(b: &CpuBuf) -> usize {
        b.id
    }
    fn live(&self) -> usize {
        self.0.live.load(Ordering::Relaxed)
    }
    fn read(a: &SlabAllocator<Self>, r: Bounds) -> Result<Vec<u32>, String> {
        let Some(b) = a.get_buffer() else {
            return Err("no buffer".into());
        };
        let n = b.inner.as_vec().len();
        block_on(a.runtime().buffer_read(&b, n, r)).map_err(|e| e.to_string())
    }
    fn read_array<T: SlabItem + Default>(_: &SlabAllocator<Self>, _: Array<T>) -> Option<Result<Vec<T>, String>> {
        None
    }
}

#[cfg(feature = "wgpu")]
impl Rt for WgpuRuntime {
    const GPU: bool = true;
    fn make() -> Self {
        let (device, queue) = wgpu::mc_device();
        WgpuRuntime { device: Arc::new(device), queue: Arc::new(queue) }
    }
    fn usages(variant: usize) -> wgpu::BufferUsages {
        use wgpu::BufferUsages as U;
        match variant {
            0 => U::empty(),
            1 => U::STORAGE,
            2 => U::VERTEX | U::INDEX | U::UNIFORM | U::INDIRECT,
            3 => U::COPY_SRC,
            4 => U::COPY_DST | U::STORAGE,
            _ => U::COPY_SRC | U::COPY_DST | U::QUERY_RESOLVE,
        }
    }
    fn poke(&self, b: &wgpu::Buffer, ws: &[u32]) {
        let bytes: Vec<u8> = ws.iter().flat_map(|w| w.to_ne_bytes()).collect();
        self.queue.write_buffer(b, 0, &bytes);
        self.queue.submit([]);
    }
    fn words(b: &wgpu::Buffer) -> Vec<u32> {
        assert!(b.size() % 4 == 0, "the buffer's size {} is not a multiple of a word", b.size());
        assert!(!b.mc_is_mapped(), "the slab's buffer has been left mapped or destroyed");
        b.mc_contents()
    }
    fn id(b: &wgpu::Buffer) -> usize {
        b.mc_id()
    }
    fn live(&self) -> usize {
        self.device.mc_live_buffers()
    }
    fn read(a: &SlabAllocator<Self>, r: Bounds) -> Result<Vec<u32>, String> {
        block_on(a.read(r)).map_err(|e| e.to_string())
    }
    fn read_array<T: SlabItem + Default>(a: &SlabAllocator<Self>, r: Array<T>) -> Option<Result<Vec<T>, String>> {
        Some(block_on(a.read_array(r)).map_err(|e| e.to_string()))
    }
}
