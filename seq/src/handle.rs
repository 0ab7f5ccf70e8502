//! Handles of values and arrays behind one interface.

use crate::rt::Rt;
use craballoc::prelude::*;
use crabslab::SlabItem;
use std::marker::PhantomData;

pub trait Item: SlabItem + Default + Clone + Send + Sync + std::fmt::Debug + 'static {
    fn of(w: &[u32]) -> Self;
    fn w(&self) -> Vec<u32>;
}
impl Item for u32 {
    fn of(w: &[u32]) -> Self {
        w[0]
    }
    fn w(&self) -> Vec<u32> {
        vec![*self]
    }
}
impl Item for (u32, u32) {
    fn of(w: &[u32]) -> Self {
        (w[0], w[1])
    }
    fn w(&self) -> Vec<u32> {
        vec![self.0, self.1]
    }
}
impl Item for (u32, u32, u32) {
    fn of(w: &[u32]) -> Self {
        (w[0], w[1], w[2])
    }
    fn w(&self) -> Vec<u32> {
        vec![self.0, self.1, self.2]
    }
}
/// Five words, of which one is on the heap.
#[derive(Default, Clone, Debug)]
pub struct Big(Box<u32>, [u32; 4]);
impl SlabItem for Big {
    const SLAB_SIZE: usize = 5;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        Big(Box::new(u32::read_slab(index, slab)), <[u32; 4]>::read_slab(index + 1, slab))
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        let n = self.0.write_slab(index, slab);
        self.1.write_slab(n, slab)
    }
}
impl Item for Big {
    fn of(w: &[u32]) -> Self {
        Big(Box::new(w[0]), w[1..].try_into().unwrap())
    }
    fn w(&self) -> Vec<u32> {
        let mut v = vec![*self.0];
        v.extend(self.1);
        v
    }
}
thread_local! {
    static FUSE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Runs something in which the n-th piece of user code panics. None if it did.
pub fn with_fuse<T>(n: u32, f: impl FnOnce() -> T) -> Option<T> {
    FUSE.with(|x| x.set(n));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let left = FUSE.with(|x| x.replace(0));
    match r {
        Ok(t) if left > 0 => Some(t),
        Ok(_) => panic!("a panic of user code was swallowed"),
        // not ours
        Err(e) if left > 0 => std::panic::resume_unwind(e),
        Err(_) => None,
    }
}
/// Runs something in a destructor while a panic unwinds.
pub fn while_unwinding<T>(f: impl FnOnce() -> T) -> T {
    struct Late<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for Late<F> {
        fn drop(&mut self) {
            (self.0.take().unwrap())()
        }
    }
    let mut out = None;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _late = Late(Some(|| out = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)))));
        std::panic::resume_unwind(Box::new(()));
    }));
    debug_assert!(r.is_err());
    match out.unwrap() {
        Ok(t) => t,
        Err(e) => std::panic::resume_unwind(e),
    }
}
pub fn tick() {
    FUSE.with(|x| {
        let n = x.get();
        x.set(n.saturating_sub(1));
        if n == 1 {
            panic!("user code panics");
        }
    })
}
/// Four words, and code that may panic.
#[derive(Default, Debug)]
pub struct Touchy([u32; 4]);
impl Clone for Touchy {
    fn clone(&self) -> Self {
        tick();
        Touchy(self.0)
    }
}
impl SlabItem for Touchy {
    const SLAB_SIZE: usize = 4;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        Touchy(<[u32; 4]>::read_slab(index, slab))
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        let n = self.0.write_slab(index, slab);
        tick();
        n
    }
}
impl Item for Touchy {
    fn of(w: &[u32]) -> Self {
        tick();
        Touchy(w.try_into().unwrap())
    }
    fn w(&self) -> Vec<u32> {
        self.0.to_vec()
    }
}
/// Many words.
#[derive(Clone, Debug)]
pub struct Wide<const N: usize>(Box<[u32; N]>);
impl<const N: usize> Default for Wide<N> {
    fn default() -> Self {
        Wide(Box::new([0; N]))
    }
}
impl<const N: usize> SlabItem for Wide<N> {
    const SLAB_SIZE: usize = N;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        let mut w = Self::default();
        for (i, x) in w.0.iter_mut().enumerate() {
            *x = u32::read_slab(index + i, slab);
        }
        w
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        self.0.iter().fold(index, |i, x| x.write_slab(i, slab))
    }
}
impl<const N: usize> Item for Wide<N> {
    fn of(w: &[u32]) -> Self {
        Wide(Box::new(w.try_into().unwrap()))
    }
    fn w(&self) -> Vec<u32> {
        self.0.to_vec()
    }
}
impl Item for PhantomData<u32> {
    fn of(_: &[u32]) -> Self {
        PhantomData
    }
    fn w(&self) -> Vec<u32> {
        vec![]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Hyb,
    Gpu,
    WHyb,
    WGpu,
    HArr,
    GArr,
}

type B = Box<dyn Handle>;
pub type Prev = Option<Vec<u32>>;

pub trait Handle {
    fn kind(&self) -> Kind;
    fn uid(&self) -> usize;
    fn loc(&self) -> Option<u32> {
        None
    }
    /// Length, emptiness, and the length of the array
    fn len(&self) -> Option<(usize, bool, usize)> {
        None
    }
    fn owners(&self) -> Option<usize> {
        None
    }
    fn items(&self) -> Option<Vec<Vec<u32>>> {
        None
    }
    fn item(&self, _i: usize) -> Option<Prev> {
        None
    }
    fn item_id(&self, _i: usize) -> Option<u32> {
        None
    }
    /// What the API reports as the previous value, if it does
    fn set(&self, i: usize, w: &[u32]) -> Option<Prev>;
    /// The value before, as seen by the closure
    fn modify(&self, _i: usize, _w: &[u32], _f: &mut dyn FnMut()) -> Prev {
        unreachable!()
    }
    /// The value before, as seen through the guard
    fn guard(&self, _w: Option<&[u32]>, _f: &mut dyn FnMut()) -> Vec<u32> {
        unreachable!()
    }
    fn dup(&self) -> B;
    fn weak(&self, _gpu: bool) -> B {
        unreachable!()
    }
    fn up(&self) -> Option<B> {
        unreachable!()
    }
    fn gpu_only(self: Box<Self>) -> B {
        unreachable!()
    }
    fn dbg(&self) -> String {
        String::new()
    }
    fn as_any(&self) -> &dyn std::any::Any;
}

impl<T: Item> Handle for Hybrid<T> {
    fn kind(&self) -> Kind {
        Kind::Hyb
    }
    fn uid(&self) -> usize {
        self.notifier_index()
    }
    fn loc(&self) -> Option<u32> {
        Some(self.id().inner())
    }
    fn owners(&self) -> Option<usize> {
        Some(self.ref_count())
    }
    fn items(&self) -> Option<Vec<Vec<u32>>> {
        Some(vec![self.get().w()])
    }
    fn set(&self, _: usize, w: &[u32]) -> Option<Prev> {
        Hybrid::set(self, T::of(w));
        None
    }
    fn modify(&self, _: usize, w: &[u32], f: &mut dyn FnMut()) -> Prev {
        let r: (u32, Vec<u32>) = Hybrid::modify(self, |t| {
            let old = t.w();
            *t = T::of(w);
            f();
            (77, old)
        });
        assert_eq!(r.0, 77, "modify returned something else than the closure's result");
        Some(r.1)
    }
    fn guard(&self, w: Option<&[u32]>, f: &mut dyn FnMut()) -> Vec<u32> {
        let mut g = self.lock();
        let old = g.w();
        if let Some(w) = w {
            *g = T::of(w);
            assert_eq!(g.w(), w, "a guard does not show its own mutation");
        }
        f();
        old
    }
    fn dup(&self) -> B {
        Box::new(self.clone())
    }
    fn weak(&self, gpu: bool) -> B {
        if gpu {
            Box::new(WeakHybrid::from_hybrid(self).weak_gpu().clone())
        } else {
            Box::new(WeakHybrid::from_hybrid(self))
        }
    }
    fn gpu_only(self: Box<Self>) -> B {
        Box::new(self.into_gpu_only())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self)
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

impl<T: Item> Handle for Gpu<T> {
    fn kind(&self) -> Kind {
        Kind::Gpu
    }
    fn uid(&self) -> usize {
        self.notifier_index()
    }
    fn loc(&self) -> Option<u32> {
        Some(self.id().inner())
    }
    fn set(&self, _: usize, w: &[u32]) -> Option<Prev> {
        Gpu::set(self, T::of(w));
        None
    }
    fn dup(&self) -> B {
        Box::new(self.clone())
    }
    fn weak(&self, _: bool) -> B {
        Box::new(WeakGpu::from_gpu(self))
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

impl<T: Item> Handle for WeakHybrid<T> {
    fn kind(&self) -> Kind {
        Kind::WHyb
    }
    fn uid(&self) -> usize {
        let u = self.notifier_index();
        assert_eq!(u, self.weak_gpu().notifier_index(), "a weak hybrid and its GPU part have different ids");
        u
    }
    fn loc(&self) -> Option<u32> {
        Some(self.id().inner())
    }
    fn owners(&self) -> Option<usize> {
        let n = self.strong_count();
        assert_eq!(n > 0, self.has_external_references(), "has_external_references disagrees with strong_count");
        Some(n)
    }
    fn set(&self, _: usize, _: &[u32]) -> Option<Prev> {
        unreachable!()
    }
    fn dup(&self) -> B {
        Box::new(self.clone())
    }
    fn weak(&self, _: bool) -> B {
        Box::new(self.weak_gpu().clone())
    }
    fn up(&self) -> Option<B> {
        self.upgrade().map(|h| Box::new(h) as B)
    }
    fn dbg(&self) -> String {
        format!("{:?}", self)
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

impl<T: Item> Handle for WeakGpu<T> {
    fn kind(&self) -> Kind {
        Kind::WGpu
    }
    fn uid(&self) -> usize {
        self.notifier_index()
    }
    fn set(&self, _: usize, _: &[u32]) -> Option<Prev> {
        unreachable!()
    }
    fn dup(&self) -> B {
        Box::new(self.clone())
    }
    fn up(&self) -> Option<B> {
        self.upgrade().map(|h| Box::new(h) as B)
    }
    fn dbg(&self) -> String {
        format!("{:?}", self)
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

impl<T: Item> Handle for HybridArray<T> {
    fn kind(&self) -> Kind {
        Kind::HArr
    }
    fn uid(&self) -> usize {
        self.notifier_index()
    }
    fn loc(&self) -> Option<u32> {
        Some(self.array().index)
    }
    fn len(&self) -> Option<(usize, bool, usize)> {
        Some((HybridArray::len(self), self.is_empty(), self.array().len()))
    }
    fn owners(&self) -> Option<usize> {
        Some(self.ref_count())
    }
    fn items(&self) -> Option<Vec<Vec<u32>>> {
        Some(self.get_vec().iter().map(|t| t.w()).collect())
    }
    fn item(&self, i: usize) -> Option<Prev> {
        Some(self.get(i).map(|t| t.w()))
    }
    fn item_id(&self, i: usize) -> Option<u32> {
        Some(self.get_id(i).inner())
    }
    fn set(&self, i: usize, w: &[u32]) -> Option<Prev> {
        Some(self.set_item(i, T::of(w)).map(|t| t.w()))
    }
    fn modify(&self, i: usize, w: &[u32], f: &mut dyn FnMut()) -> Prev {
        HybridArray::modify(self, i, |t| {
            let old = t.w();
            *t = T::of(w);
            f();
            old
        })
    }
    fn dup(&self) -> B {
        Box::new(self.clone())
    }
    fn gpu_only(self: Box<Self>) -> B {
        Box::new(self.into_gpu_only())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self)
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

impl<T: Item> Handle for GpuArray<T> {
    fn kind(&self) -> Kind {
        Kind::GArr
    }
    fn uid(&self) -> usize {
        self.notifier_index()
    }
    fn loc(&self) -> Option<u32> {
        Some(self.array().index)
    }
    fn len(&self) -> Option<(usize, bool, usize)> {
        Some((GpuArray::len(self), self.is_empty(), self.array().len()))
    }
    fn item_id(&self, i: usize) -> Option<u32> {
        Some(self.get_id(i).inner())
    }
    fn set(&self, i: usize, w: &[u32]) -> Option<Prev> {
        self.set_item(i, &T::of(w));
        None
    }
    fn dup(&self) -> B {
        Box::new(self.clone())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self)
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

/// Type of a new value or array: words per item, and number of items of an array.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Shape {
    pub isz: usize,
    pub n: Option<usize>,
}

fn create1<R: Rt, T: Item>(a: &SlabAllocator<R>, s: Shape, w: &[Vec<u32>], gpu: bool, it: usize, f: &mut dyn FnMut()) -> B {
    match (s.n, gpu) {
        (None, false) => Box::new(a.new_value(T::of(&w[0]))),
        (None, true) => Box::new(Gpu::new(a, T::of(&w[0]))),
        (Some(n), false) => {
            // iterators that know how many items there are, and others
            let mut v = w.iter().map(|w| {
                f();
                T::of(w)
            });
            Box::new(match it % 6 {
                0 => a.new_array(v),
                1 => a.new_array(v.collect::<Vec<_>>()),
                2 => a.new_array(v.filter(|_| true)),
                3 => a.new_array(std::iter::from_fn(move || v.next())),
                4 => a.new_array(v.map(Some).chain([None]).flatten()),
                _ => {
                    let mut left = n;
                    a.new_array(std::iter::repeat(()).map_while(move |_| {
                        left = left.checked_sub(1)?;
                        v.next()
                    }))
                }
            })
        }
        (Some(_), true) => Box::new(GpuArray::new(a, &w.iter().map(|w| T::of(w)).collect::<Vec<_>>())),
    }
}

pub fn create<R: Rt>(a: &SlabAllocator<R>, s: Shape, w: &[Vec<u32>], gpu: bool, it: usize, f: &mut dyn FnMut()) -> B {
    match s.isz {
        0 => create1::<R, PhantomData<u32>>(a, s, w, gpu, it, f),
        1 => create1::<R, u32>(a, s, w, gpu, it, f),
        2 => create1::<R, (u32, u32)>(a, s, w, gpu, it, f),
        3 => create1::<R, (u32, u32, u32)>(a, s, w, gpu, it, f),
        4 => create1::<R, Touchy>(a, s, w, gpu, it, f),
        5 => create1::<R, Big>(a, s, w, gpu, it, f),
        8 => create1::<R, Wide<8>>(a, s, w, gpu, it, f),
        16 => create1::<R, Wide<16>>(a, s, w, gpu, it, f),
        17 => create1::<R, Wide<17>>(a, s, w, gpu, it, f),
        18 => create1::<R, Wide<18>>(a, s, w, gpu, it, f),
        32 => create1::<R, Wide<32>>(a, s, w, gpu, it, f),
        33 => create1::<R, Wide<33>>(a, s, w, gpu, it, f),
        64 => create1::<R, Wide<64>>(a, s, w, gpu, it, f),
        65 => create1::<R, Wide<65>>(a, s, w, gpu, it, f),
        100 => create1::<R, Wide<100>>(a, s, w, gpu, it, f),
        128 => create1::<R, Wide<128>>(a, s, w, gpu, it, f),
        256 => create1::<R, Wide<256>>(a, s, w, gpu, it, f),
        257 => create1::<R, Wide<257>>(a, s, w, gpu, it, f),
        300 => create1::<R, Wide<300>>(a, s, w, gpu, it, f),
        _ => unreachable!(),
    }
}

fn read1<R: Rt, T: Item>(a: &SlabAllocator<R>, h: &dyn Handle) -> Option<Result<Vec<Vec<u32>>, String>> {
    let arr = if let Some(x) = h.as_any().downcast_ref::<HybridArray<T>>() {
        x.array()
    } else if let Some(x) = h.as_any().downcast_ref::<GpuArray<T>>() {
        x.array()
    } else if let Some(x) = h.as_any().downcast_ref::<Hybrid<T>>() {
        x.id().into()
    } else {
        return None;
    };
    R::read_array(a, arr).map(|r| r.map(|v| v.iter().map(|t| t.w()).collect()))
}

/// Read the items of a handle's array (or of the array that its id converts to) back from the GPU.
pub fn read_typed<R: Rt>(a: &SlabAllocator<R>, h: &dyn Handle) -> Option<Result<Vec<Vec<u32>>, String>> {
    read1::<R, u32>(a, h)
        .or_else(|| read1::<R, (u32, u32)>(a, h))
        .or_else(|| read1::<R, (u32, u32, u32)>(a, h))
        .or_else(|| read1::<R, Touchy>(a, h))
        .or_else(|| read1::<R, Big>(a, h))
        .or_else(|| read1::<R, PhantomData<u32>>(a, h))
        .or_else(|| read1::<R, Wide<8>>(a, h))
        .or_else(|| read1::<R, Wide<16>>(a, h))
        .or_else(|| read1::<R, Wide<17>>(a, h))
        .or_else(|| read1::<R, Wide<18>>(a, h))
        .or_else(|| read1::<R, Wide<32>>(a, h))
        .or_else(|| read1::<R, Wide<33>>(a, h))
        .or_else(|| read1::<R, Wide<64>>(a, h))
        .or_else(|| read1::<R, Wide<65>>(a, h))
        .or_else(|| read1::<R, Wide<100>>(a, h))
        .or_else(|| read1::<R, Wide<128>>(a, h))
        .or_else(|| read1::<R, Wide<256>>(a, h))
        .or_else(|| read1::<R, Wide<257>>(a, h))
        .or_else(|| read1::<R, Wide<300>>(a, h))
}
