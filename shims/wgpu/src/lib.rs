//! A simulated wgpu, as far as buffers are concerned.
//!
//! Buffers are words of memory. `write_buffer` is staged and executed by the next submission,
//! before that submission's command buffers, as in wgpu. Mapping completes when the device is
//! polled. Whatever wgpu would reject is recorded as an error and panics, as wgpu's default
//! error handler does.

use std::collections::BTreeMap;
use std::fmt;
use std::num::NonZeroU64;
use std::ops::{Bound, Deref, DerefMut, Range, RangeBounds};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard, Weak};

pub use wgpu_types as wgt;
pub use wgpu_types::{
    BufferAddress, BufferUsages, Features, Limits, MaintainResult, COPY_BUFFER_ALIGNMENT,
    MAP_ALIGNMENT,
};

pub type BufferSize = NonZeroU64;
pub type Label<'a> = Option<&'a str>;
pub type BufferDescriptor<'a> = wgt::BufferDescriptor<Label<'a>>;
pub type CommandEncoderDescriptor<'a> = wgt::CommandEncoderDescriptor<Label<'a>>;
pub type CommandBufferDescriptor<'a> = wgt::CommandBufferDescriptor<Label<'a>>;
pub type Maintain = wgt::Maintain<SubmissionIndex>;

#[derive(Clone, Debug)]
pub struct SubmissionIndex {
    index: u64,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BufferAsyncError;
impl fmt::Display for BufferAsyncError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error occurred when trying to async map a buffer")
    }
}
impl std::error::Error for BufferAsyncError {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MapMode {
    Read,
    Write,
}

type Callback = Box<dyn FnOnce(Result<(), BufferAsyncError>) + Send>;

/// What becomes of a request to map a buffer.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum McFate {
    Mapped,
    Failed,
    /// the device is gone: the callback is dropped without being called
    Lost,
}

struct BufState {
    usage: BufferUsages,
    /// in words, the last one only partially used if size is not a multiple of 4
    mem: Vec<u32>,
    size: u64,
    mapped: Option<Range<u64>>,
    mapped_at_creation: bool,
    pending_map: bool,
    destroyed: bool,
}

#[derive(Clone)]
enum Cmd {
    Copy { src: usize, so: u64, dst: usize, d_o: u64, size: u64 },
    Clear { dst: usize, offset: u64, size: u64 },
}

#[derive(Default)]
struct State {
    next_buffer: usize,
    bufs: BTreeMap<usize, BufState>,
    handles: BTreeMap<usize, Weak<BufHandle>>,
    staged: Vec<(usize, u64, Vec<u8>)>,
    submissions: u64,
    callbacks: Vec<(usize, Range<u64>, Callback)>,
    /// the number of each of the callbacks
    map_ids: Vec<usize>,
    next_map: usize,
    /// polling does nothing to requests to map buffers, as on the web; or what it does to them
    on_poll: Option<Option<McFate>>,
    done: Vec<Box<dyn FnOnce() + Send>>,
    polls: usize,
    errors: Vec<String>,
    submitted_writes: u64,
}

pub struct World {
    state: Mutex<State>,
    live: AtomicUsize,
}

impl World {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
}

fn fail(mut s: MutexGuard<'_, State>, msg: String) -> ! {
    s.errors.push(msg.clone());
    drop(s);
    panic!("wgpu error: Validation Error: {msg}")
}

impl State {
    fn write_bytes(&mut self, buf: usize, offset: u64, data: &[u8]) {
        let mem = &mut self.bufs.get_mut(&buf).unwrap().mem;
        for (i, b) in data.iter().enumerate() {
            let o = offset as usize + i;
            let w = &mut mem[o / 4];
            let mut bytes = w.to_le_bytes();
            bytes[o % 4] = *b;
            *w = u32::from_le_bytes(bytes);
        }
    }

    fn flush(&mut self) {
        for (b, o, d) in std::mem::take(&mut self.staged) {
            self.submitted_writes += 1;
            self.write_bytes(b, o, &d);
        }
    }

    fn mapped(&mut self, buffer: usize, range: &Range<u64>, fate: McFate) {
        if let Some(b) = self.bufs.get_mut(&buffer) {
            b.pending_map = false;
            b.mapped = (fate == McFate::Mapped).then(|| range.clone());
        }
    }

    /// Forget buffers without handles that nothing pending refers to
    fn collect(&mut self) {
        let dead: Vec<usize> = self
            .handles
            .iter()
            .filter(|(_, w)| w.strong_count() == 0)
            .map(|(k, _)| *k)
            .collect();
        for k in dead {
            if self.staged.iter().any(|s| s.0 == k) {
                continue;
            }
            self.handles.remove(&k);
            self.bufs.remove(&k);
        }
    }
}

fn call(c: Callback, fate: McFate) {
    match fate {
        McFate::Mapped => c(Ok(())),
        McFate::Failed => c(Err(BufferAsyncError)),
        McFate::Lost => drop(c),
    }
}

struct BufHandle {
    id: usize,
    world: Arc<World>,
}

impl Drop for BufHandle {
    fn drop(&mut self) {
        self.world.live.fetch_sub(1, Ordering::SeqCst);
    }
}

#[derive(Clone)]
pub struct Device {
    world: Arc<World>,
}

#[derive(Clone)]
pub struct Queue {
    world: Arc<World>,
}

impl fmt::Debug for Device {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Device")
    }
}
impl fmt::Debug for Queue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Queue")
    }
}

/// Makes a simulated device and its queue.
pub fn mc_device() -> (Device, Queue) {
    let world = Arc::new(World {
        state: Mutex::new(State::default()),
        live: AtomicUsize::new(0),
    });
    (Device { world: world.clone() }, Queue { world })
}

impl Device {
    pub fn features(&self) -> Features {
        Features::empty()
    }

    pub fn limits(&self) -> Limits {
        Limits::default()
    }

    pub fn create_buffer(&self, desc: &BufferDescriptor<'_>) -> Buffer {
        let mut s = self.world.lock();
        let u = desc.usage;
        if u.is_empty() {
            fail(s, "buffer usages must not be empty".into());
        }
        if BufferUsages::from_bits(u.bits()).is_none() {
            fail(s, format!("invalid usage {u:?}"));
        }
        if u.contains(BufferUsages::MAP_READ) && !(BufferUsages::MAP_READ | BufferUsages::COPY_DST).contains(u) {
            fail(s, format!("usage flags {u:?}: `MAP` usage can only be combined with the opposite `COPY`"));
        }
        if u.contains(BufferUsages::MAP_WRITE) && !(BufferUsages::MAP_WRITE | BufferUsages::COPY_SRC).contains(u) {
            fail(s, format!("usage flags {u:?}: `MAP` usage can only be combined with the opposite `COPY`"));
        }
        if desc.size > Limits::default().max_buffer_size {
            fail(s, format!("buffer size {} is greater than the maximum buffer size", desc.size));
        }
        if desc.mapped_at_creation && desc.size % COPY_BUFFER_ALIGNMENT != 0 {
            fail(s, "buffers that are mapped at creation have to be aligned to COPY_BUFFER_ALIGNMENT".into());
        }
        let id = s.next_buffer;
        s.next_buffer += 1;
        s.bufs.insert(
            id,
            BufState {
                usage: u,
                mem: vec![0; desc.size.div_ceil(4) as usize],
                size: desc.size,
                mapped: desc.mapped_at_creation.then_some(0..desc.size),
                mapped_at_creation: desc.mapped_at_creation,
                pending_map: false,
                destroyed: false,
            },
        );
        self.world.live.fetch_add(1, Ordering::SeqCst);
        let handle = Arc::new(BufHandle { id, world: self.world.clone() });
        s.handles.insert(id, Arc::downgrade(&handle));
        s.collect();
        Buffer { handle, size: desc.size, usage: u }
    }

    pub fn create_command_encoder(&self, _desc: &CommandEncoderDescriptor<'_>) -> CommandEncoder {
        CommandEncoder { world: self.world.clone(), cmds: vec![], keep: vec![] }
    }

    pub fn poll(&self, maintain: Maintain) -> MaintainResult {
        let (callbacks, done): (Vec<(Callback, McFate)>, Vec<_>) = {
            let mut s = self.world.lock();
            let fire = match maintain {
                Maintain::Wait => true,
                Maintain::WaitForSubmissionIndex(i) => {
                    if i.index > s.submissions {
                        fail(s, "waiting for a submission that does not exist".into());
                    }
                    true
                }
                // the GPU may be busy for a while
                Maintain::Poll => {
                    s.polls += 1;
                    s.polls % 3 == 0
                }
            };
            let fate = s.on_poll.unwrap_or(Some(McFate::Mapped));
            if let (true, Some(fate)) = (fire, fate) {
                let cbs = std::mem::take(&mut s.callbacks);
                s.map_ids.clear();
                for (b, r, _) in &cbs {
                    s.mapped(*b, r, fate);
                }
                (cbs.into_iter().map(|c| (c.2, fate)).collect(), std::mem::take(&mut s.done))
            } else {
                (vec![], vec![])
            }
        };
        for (c, f) in callbacks {
            call(c, f);
        }
        for d in done {
            d();
        }
        MaintainResult::SubmissionQueueEmpty
    }

    /// From now on, what becomes of requests to map a buffer while polling.
    pub fn mc_on_poll(&self, fate: Option<McFate>) {
        self.world.lock().on_poll = Some(fate);
    }

    /// The requests to map a buffer that have not been answered, in order.
    pub fn mc_pending_maps(&self) -> Vec<usize> {
        self.world.lock().map_ids.clone()
    }

    /// The number of requests to map a buffer so far.
    pub fn mc_maps(&self) -> usize {
        self.world.lock().next_map
    }

    /// Answers one of them.
    pub fn mc_map(&self, id: usize, fate: McFate) {
        let c = {
            let mut s = self.world.lock();
            let k = s.map_ids.iter().position(|m| *m == id).expect("a pending request");
            s.map_ids.remove(k);
            let (b, r, c) = s.callbacks.remove(k);
            s.mapped(b, &r, fate);
            c
        };
        call(c, fate);
    }

    /// The number of buffers that someone holds.
    pub fn mc_live_buffers(&self) -> usize {
        self.world.live.load(Ordering::SeqCst)
    }

    /// Validation errors so far.
    pub fn mc_errors(&self) -> Vec<String> {
        self.world.lock().errors.clone()
    }
}

impl Queue {
    fn check_write(&self, buffer: &Buffer, offset: u64, len: u64) {
        let s = self.world.lock();
        let b = &s.bufs[&buffer.handle.id];
        if b.destroyed {
            fail(s, "buffer is destroyed".into());
        }
        if b.mapped.is_some() || b.pending_map {
            fail(s, "buffer is still mapped".into());
        }
        if !b.usage.contains(BufferUsages::COPY_DST) {
            fail(s, "usage of the buffer must contain COPY_DST".into());
        }
        if len % COPY_BUFFER_ALIGNMENT != 0 {
            fail(s, format!("copy size {len} does not respect COPY_BUFFER_ALIGNMENT"));
        }
        if offset % COPY_BUFFER_ALIGNMENT != 0 {
            fail(s, format!("buffer offset {offset} is not aligned to COPY_BUFFER_ALIGNMENT"));
        }
        if offset.checked_add(len).is_none_or(|e| e > b.size) {
            let size = b.size;
            fail(s, format!("copy of {offset}..{} would end up overrunning the bounds of the destination buffer of size {size}", offset.wrapping_add(len)));
        }
    }

    pub fn write_buffer(&self, buffer: &Buffer, offset: BufferAddress, data: &[u8]) {
        if data.is_empty() {
            return;
        }
        self.check_write(buffer, offset, data.len() as u64);
        self.world.lock().staged.push((buffer.handle.id, offset, data.to_vec()));
    }

    pub fn write_buffer_with<'a>(
        &'a self,
        buffer: &'a Buffer,
        offset: BufferAddress,
        size: BufferSize,
    ) -> Option<QueueWriteBufferView<'a>> {
        self.check_write(buffer, offset, size.get());
        Some(QueueWriteBufferView {
            queue: self,
            buffer,
            offset,
            mem: vec![0; size.get().div_ceil(4) as usize],
            len: size.get() as usize,
        })
    }

    pub fn submit<I: IntoIterator<Item = CommandBuffer>>(&self, command_buffers: I) -> SubmissionIndex {
        let cbs: Vec<CommandBuffer> = command_buffers.into_iter().collect();
        let mut s = self.world.lock();
        s.flush();
        for cb in &cbs {
            for c in &cb.cmds {
                let used: Vec<usize> = match c {
                    Cmd::Copy { src, dst, .. } => vec![*src, *dst],
                    Cmd::Clear { dst, .. } => vec![*dst],
                };
                for u in used {
                    let b = &s.bufs[&u];
                    if b.destroyed {
                        fail(s, "buffer used in submit has been destroyed".into());
                    }
                    if b.mapped.is_some() || b.pending_map {
                        fail(s, "buffer used in submit is still mapped".into());
                    }
                }
                match c.clone() {
                    Cmd::Copy { src, so, dst, d_o, size } => {
                        let words: Vec<u32> = s.bufs[&src].mem[so as usize / 4..((so + size) / 4) as usize].to_vec();
                        s.bufs.get_mut(&dst).unwrap().mem[d_o as usize / 4..((d_o + size) / 4) as usize]
                            .copy_from_slice(&words);
                    }
                    Cmd::Clear { dst, offset, size } => {
                        s.bufs.get_mut(&dst).unwrap().mem[offset as usize / 4..((offset + size) / 4) as usize].fill(0);
                    }
                }
            }
        }
        s.submissions += 1;
        let index = s.submissions;
        drop(s);
        drop(cbs);
        self.world.lock().collect();
        SubmissionIndex { index }
    }

    pub fn get_timestamp_period(&self) -> f32 {
        1.0
    }

    pub fn on_submitted_work_done(&self, callback: impl FnOnce() + Send + 'static) {
        self.world.lock().done.push(Box::new(callback));
    }
}

pub struct QueueWriteBufferView<'a> {
    queue: &'a Queue,
    buffer: &'a Buffer,
    offset: u64,
    mem: Vec<u32>,
    len: usize,
}

fn bytes(mem: &[u32], len: usize) -> &[u8] {
    unsafe { std::slice::from_raw_parts(mem.as_ptr().cast(), len) }
}

fn bytes_mut(mem: &mut [u32], len: usize) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr().cast(), len) }
}

impl Deref for QueueWriteBufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        bytes(&self.mem, self.len)
    }
}
impl DerefMut for QueueWriteBufferView<'_> {
    fn deref_mut(&mut self) -> &mut [u8] {
        let n = self.len;
        bytes_mut(&mut self.mem, n)
    }
}
impl AsMut<[u8]> for QueueWriteBufferView<'_> {
    fn as_mut(&mut self) -> &mut [u8] {
        self
    }
}
impl Drop for QueueWriteBufferView<'_> {
    fn drop(&mut self) {
        self.queue.write_buffer(self.buffer, self.offset, bytes(&self.mem, self.len));
    }
}

pub struct CommandEncoder {
    world: Arc<World>,
    cmds: Vec<Cmd>,
    keep: Vec<Buffer>,
}

pub struct CommandBuffer {
    cmds: Vec<Cmd>,
    #[allow(dead_code)]
    keep: Vec<Buffer>,
}

impl CommandEncoder {
    pub fn copy_buffer_to_buffer(
        &mut self,
        source: &Buffer,
        source_offset: BufferAddress,
        destination: &Buffer,
        destination_offset: BufferAddress,
        copy_size: BufferAddress,
    ) {
        let s = self.world.lock();
        if source.handle.id == destination.handle.id {
            fail(s, "source and destination cannot be the same buffer".into());
        }
        if !source.usage.contains(BufferUsages::COPY_SRC) {
            fail(s, "usage of the source must contain COPY_SRC".into());
        }
        if !destination.usage.contains(BufferUsages::COPY_DST) {
            fail(s, "usage of the destination must contain COPY_DST".into());
        }
        for (what, v) in [("size", copy_size), ("source offset", source_offset), ("destination offset", destination_offset)] {
            if v % COPY_BUFFER_ALIGNMENT != 0 {
                fail(s, format!("copy {what} {v} is not aligned to COPY_BUFFER_ALIGNMENT"));
            }
        }
        if source_offset.checked_add(copy_size).is_none_or(|e| e > source.size) {
            fail(s, format!("copy of {source_offset}..+{copy_size} would end up overrunning the bounds of the source buffer of size {}", source.size));
        }
        if destination_offset.checked_add(copy_size).is_none_or(|e| e > destination.size) {
            fail(s, format!("copy of {destination_offset}..+{copy_size} would end up overrunning the bounds of the destination buffer of size {}", destination.size));
        }
        drop(s);
        if copy_size == 0 {
            return;
        }
        self.cmds.push(Cmd::Copy {
            src: source.handle.id,
            so: source_offset,
            dst: destination.handle.id,
            d_o: destination_offset,
            size: copy_size,
        });
        self.keep.push(source.clone());
        self.keep.push(destination.clone());
    }

    pub fn clear_buffer(&mut self, buffer: &Buffer, offset: BufferAddress, size: Option<BufferAddress>) {
        let size = size.unwrap_or(buffer.size - offset);
        let s = self.world.lock();
        if !buffer.usage.contains(BufferUsages::COPY_DST) {
            fail(s, "usage of the buffer must contain COPY_DST".into());
        }
        if offset % 4 != 0 || size % 4 != 0 || offset + size > buffer.size {
            fail(s, format!("clear of {offset}..+{size} is unaligned or out of bounds"));
        }
        drop(s);
        self.cmds.push(Cmd::Clear { dst: buffer.handle.id, offset, size });
        self.keep.push(buffer.clone());
    }

    pub fn insert_debug_marker(&mut self, _label: &str) {}
    pub fn push_debug_group(&mut self, _label: &str) {}
    pub fn pop_debug_group(&mut self) {}

    pub fn finish(self) -> CommandBuffer {
        CommandBuffer { cmds: self.cmds, keep: self.keep }
    }
}

#[derive(Clone)]
pub struct Buffer {
    handle: Arc<BufHandle>,
    size: u64,
    usage: BufferUsages,
}

impl fmt::Debug for Buffer {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Buffer({})", self.handle.id)
    }
}
impl PartialEq for Buffer {
    fn eq(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.handle, &o.handle)
    }
}
impl Eq for Buffer {}
impl std::hash::Hash for Buffer {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.handle.id.hash(h)
    }
}

#[derive(Clone, Debug)]
pub struct BufferBinding<'a> {
    pub buffer: &'a Buffer,
    pub offset: BufferAddress,
    pub size: Option<BufferSize>,
}

#[derive(Clone, Debug)]
pub enum BindingResource<'a> {
    Buffer(BufferBinding<'a>),
}

impl Buffer {
    pub fn as_entire_binding(&self) -> BindingResource<'_> {
        BindingResource::Buffer(self.as_entire_buffer_binding())
    }

    pub fn as_entire_buffer_binding(&self) -> BufferBinding<'_> {
        BufferBinding { buffer: self, offset: 0, size: None }
    }

    pub fn slice<S: RangeBounds<BufferAddress>>(&self, bounds: S) -> BufferSlice<'_> {
        let start = match bounds.start_bound() {
            Bound::Included(s) => *s,
            Bound::Excluded(s) => *s + 1,
            Bound::Unbounded => 0,
        };
        let size = match bounds.end_bound() {
            Bound::Included(e) => Some(*e + 1 - start),
            Bound::Excluded(e) => Some(*e - start),
            Bound::Unbounded => None,
        };
        let size = size.map(|s| BufferSize::new(s).expect("buffer slices can not be empty"));
        let end = start + size.map_or(1, |s| s.get());
        assert!(
            start < self.size && end <= self.size,
            "slice {start}..{end} is out of range for a buffer of size {}",
            self.size
        );
        BufferSlice { buffer: self, offset: start, size }
    }

    pub fn unmap(&self) {
        let world = &self.handle.world;
        let mut s = world.lock();
        let b = s.bufs.get_mut(&self.handle.id).unwrap();
        if b.mapped.is_none() && !b.pending_map {
            fail(s, "buffer is not mapped".into());
        }
        b.mapped = None;
        b.mapped_at_creation = false;
        let aborted = b.pending_map;
        b.pending_map = false;
        let mut cbs = vec![];
        if aborted {
            while let Some(k) = s.callbacks.iter().position(|c| c.0 == self.handle.id) {
                s.map_ids.remove(k);
                cbs.push(s.callbacks.remove(k));
            }
        }
        drop(s);
        for (_, _, c) in cbs {
            c(Err(BufferAsyncError));
        }
    }

    pub fn destroy(&self) {
        self.handle.world.lock().bufs.get_mut(&self.handle.id).unwrap().destroyed = true;
    }

    pub fn size(&self) -> BufferAddress {
        self.size
    }

    pub fn usage(&self) -> BufferUsages {
        self.usage
    }

    /// A number that identifies this buffer, in order of creation.
    pub fn mc_id(&self) -> usize {
        self.handle.id
    }

    /// What any later use of the buffer by the GPU will find in it.
    pub fn mc_contents(&self) -> Vec<u32> {
        let s = self.handle.world.lock();
        let mut mem = s.bufs[&self.handle.id].mem.clone();
        for (b, o, d) in &s.staged {
            if *b == self.handle.id {
                for (i, x) in d.iter().enumerate() {
                    let at = *o as usize + i;
                    let mut w = mem[at / 4].to_le_bytes();
                    w[at % 4] = *x;
                    mem[at / 4] = u32::from_le_bytes(w);
                }
            }
        }
        mem
    }

    pub fn mc_is_mapped(&self) -> bool {
        let s = self.handle.world.lock();
        let b = &s.bufs[&self.handle.id];
        b.mapped.is_some() || b.pending_map || b.destroyed
    }
}

#[derive(Copy, Clone, Debug)]
pub struct BufferSlice<'a> {
    buffer: &'a Buffer,
    offset: BufferAddress,
    size: Option<BufferSize>,
}

impl<'a> BufferSlice<'a> {
    fn range(&self) -> Range<u64> {
        self.offset..self.size.map_or(self.buffer.size, |s| self.offset + s.get())
    }

    pub fn map_async(
        &self,
        mode: MapMode,
        callback: impl FnOnce(Result<(), BufferAsyncError>) + Send + 'static,
    ) {
        let mut s = self.buffer.handle.world.lock();
        let need = match mode {
            MapMode::Read => BufferUsages::MAP_READ,
            MapMode::Write => BufferUsages::MAP_WRITE,
        };
        if !self.buffer.usage.contains(need) {
            fail(s, format!("usage of the buffer must contain {need:?} to be mapped"));
        }
        let r = self.range();
        if r.start % MAP_ALIGNMENT != 0 || r.end % COPY_BUFFER_ALIGNMENT != 0 {
            fail(s, format!("mapping {r:?} is not aligned"));
        }
        let b = s.bufs.get_mut(&self.buffer.handle.id).unwrap();
        if b.destroyed || b.mapped.is_some() || b.pending_map {
            fail(s, "buffer is already mapped or destroyed".into());
        }
        b.pending_map = true;
        s.callbacks.push((self.buffer.handle.id, r, Box::new(callback)));
        let id = s.next_map;
        s.next_map += 1;
        s.map_ids.push(id);
    }

    fn view(&self, write: bool) -> Vec<u32> {
        let s = self.buffer.handle.world.lock();
        let b = &s.bufs[&self.buffer.handle.id];
        let r = self.range();
        match &b.mapped {
            Some(m) if m.start <= r.start && r.end <= m.end => {
                if write && !b.mapped_at_creation && !b.usage.contains(BufferUsages::MAP_WRITE) {
                    fail(s, "buffer is not mapped for writing".into());
                }
                b.mem[r.start as usize / 4..r.end.div_ceil(4) as usize].to_vec()
            }
            _ => fail(s, format!("the range {r:?} of the buffer is not mapped")),
        }
    }

    pub fn get_mapped_range(&self) -> BufferView<'a> {
        BufferView { mem: self.view(false), len: (self.range().end - self.range().start) as usize, slice: *self }
    }

    pub fn get_mapped_range_mut(&self) -> BufferViewMut<'a> {
        BufferViewMut { mem: self.view(true), len: (self.range().end - self.range().start) as usize, slice: *self }
    }
}

pub struct BufferView<'a> {
    mem: Vec<u32>,
    len: usize,
    #[allow(dead_code)]
    slice: BufferSlice<'a>,
}
impl Deref for BufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        bytes(&self.mem, self.len)
    }
}
impl AsRef<[u8]> for BufferView<'_> {
    fn as_ref(&self) -> &[u8] {
        self
    }
}

pub struct BufferViewMut<'a> {
    mem: Vec<u32>,
    len: usize,
    slice: BufferSlice<'a>,
}
impl Deref for BufferViewMut<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        bytes(&self.mem, self.len)
    }
}
impl DerefMut for BufferViewMut<'_> {
    fn deref_mut(&mut self) -> &mut [u8] {
        let n = self.len;
        bytes_mut(&mut self.mem, n)
    }
}
impl AsMut<[u8]> for BufferViewMut<'_> {
    fn as_mut(&mut self) -> &mut [u8] {
        self
    }
}
impl Drop for BufferViewMut<'_> {
    fn drop(&mut self) {
        let r = self.slice.range();
        let b = self.slice.buffer;
        let data = bytes(&self.mem, self.len).to_vec();
        b.handle.world.lock().write_bytes(b.handle.id, r.start, &data);
    }
}

pub mod util {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct BufferInitDescriptor<'a> {
        pub label: crate::Label<'a>,
        pub contents: &'a [u8],
        pub usage: crate::BufferUsages,
    }

    pub trait DeviceExt {
        fn create_buffer_init(&self, desc: &BufferInitDescriptor<'_>) -> crate::Buffer;
    }

    impl DeviceExt for crate::Device {
        fn create_buffer_init(&self, d: &BufferInitDescriptor<'_>) -> crate::Buffer {
            let n = d.contents.len() as u64;
            let buffer = self.create_buffer(&crate::BufferDescriptor {
                label: d.label,
                size: n.div_ceil(4) * 4,
                usage: d.usage,
                mapped_at_creation: n > 0,
            });
            if n > 0 {
                buffer.slice(..).get_mapped_range_mut()[..n as usize].copy_from_slice(d.contents);
                buffer.unmap();
            }
            buffer
        }
    }
}
