//! Small concurrent programs over the public API, their execution and their oracles.

use crate::rtm::{access, active, Kind, ObjCell, Rtm};
use craballoc::prelude::*;
use crabslab::Id;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// Properties whose oracles are in force (bit per property C30..).
pub static ORACLES: AtomicUsize = AtomicUsize::new(usize::MAX);

pub const C30: usize = 1 << 0;
pub const C31: usize = 1 << 1;
pub const C32: usize = 1 << 2;
pub const C33: usize = 1 << 3;
pub const C34: usize = 1 << 4;
pub const C35: usize = 1 << 5;
pub const C36: usize = 1 << 6;
pub const C37: usize = 1 << 7;

fn on(tags: usize) -> bool {
    ORACLES.load(Ordering::Relaxed) & tags != 0
}

#[track_caller]
fn must(tags: usize, ok: bool, msg: impl FnOnce() -> String) {
    if !ok && on(tags) {
        panic!("{}", msg());
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Op {
    New,       // create a value
    New2,      // create a value of two words
    NewArr,    // create an array of two words
    NewArr4,   // create an array of four words
    NewEmpty,  // create an empty array
    NewGpu,    // create a value, keep only its GPU part, set it
    SetOwn,    // set the newest own value
    DropOwn,   // drop the newest own value
    CloneOwn,  // clone the newest own value, set through the clone, drop the clone
    GpuOnly,   // reduce the newest own value to its GPU part and set that
    GuardOwn,  // hold a write guard of an own value across a commit
    SetPair,   // set the shared pair
    ModPair,   // modify the shared pair
    ReadPair,  // read the CPU side of the shared pair
    ModCnt,    // increment the shared counter
    GuardCnt,  // increment the shared counter through a write guard
    ArrSet,    // set this thread's item of the shared array
    ArrMod,    // increment item 0 of the shared array
    ArrVec,    // read all of the shared array at once
    CloneDrop, // clone and drop the shared pair
    DropPair,  // drop this thread's handle of the shared pair
    WeakSet,   // upgrade a weak handle of the shared pair, set it
    WeakGpu,   // upgrade a weak GPU handle of the shared pair
    Commit,
    HasQ,
    Ids,
    Defrag,
    GetBuf, // fetch the current buffer and read it
    Sync,   // synchronize the held buffer handle
    RefCnt,
    DropAlloc, // drop this thread's handle of the allocator
    // a pair that is written in every way there is
    RegSet,   // Hybrid::set
    RegMod,   // Hybrid::modify
    RegGuard, // a write guard
    RegGpu,   // Gpu::set
    RegRead,  // Hybrid::get
    // an item of an array that all threads write
    ItSet,  // HybridArray::set_item
    ItMod,  // HybridArray::modify
    ItGpu,  // GpuArray::set_item
    ItRead, // HybridArray::get
}
use Op::*;

pub const ALL: &[Op] = &[
    New, New2, NewArr, NewArr4, NewEmpty, NewGpu, SetOwn, DropOwn, CloneOwn, GpuOnly, GuardOwn, SetPair, ModPair, ReadPair, ModCnt,
    GuardCnt, ArrSet, ArrMod, ArrVec, CloneDrop, DropPair, WeakSet, WeakGpu, Commit, HasQ, Ids, Defrag, GetBuf, Sync, RefCnt, DropAlloc, RegSet, RegMod, RegGuard,
    RegGpu, RegRead, ItSet, ItMod, ItGpu, ItRead,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Init {
    /// Nothing has been committed.
    Fresh,
    /// Committed, with room to spare in the buffer.
    Room,
    /// Committed, and the next allocation has to grow the buffer.
    Full,
    /// Committed, with recycled words.
    Recycled,
    /// Values are queued, and others have been dropped, since the last commit.
    Dirty,
    /// Committed, and shared values have many owners, some of whom have been dropped since.
    Many,
}
pub const INITS: &[Init] = &[Init::Fresh, Init::Room, Init::Full, Init::Recycled, Init::Dirty, Init::Many];
/// Additional owners of shared values in [`Init::Many`].
const MANY: usize = 20;

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Prog {
    pub cpu: bool,
    /// with a logger that formats everything
    pub log: bool,
    pub init: Init,
    pub threads: Vec<Vec<Op>>,
}

impl Prog {
    pub fn text(&self) -> String {
        let mut s = format!("{}{} {:?}", if self.cpu { "cpu" } else { "mc" }, if self.log { "+log" } else { "" }, self.init);
        for t in &self.threads {
            s += " |";
            for o in t {
                write!(s, " {o:?}").unwrap();
            }
        }
        s
    }
    pub fn parse(s: &str) -> Option<Prog> {
        let mut parts = s.split('|');
        let mut head = parts.next()?.split_whitespace();
        let rt = head.next()?;
        let (rt, log) = rt.strip_suffix("+log").map_or((rt, false), |r| (r, true));
        let cpu = rt == "cpu";
        let i = head.next()?;
        let init = *INITS.iter().find(|x| format!("{x:?}") == i)?;
        let mut threads = vec![];
        for p in parts {
            let mut t = vec![];
            for o in p.split_whitespace() {
                t.push(*ALL.iter().find(|x| format!("{x:?}") == o)?);
            }
            threads.push(t);
        }
        Some(Prog { cpu, log, init, threads })
    }
    fn uses(&self, ops: &[Op]) -> bool {
        self.threads.iter().flatten().any(|o| ops.contains(o))
    }
    pub fn needs_pair(&self) -> bool {
        self.uses(&[SetPair, ModPair, ReadPair, CloneDrop, DropPair, WeakSet, WeakGpu, RefCnt])
    }
}

const REG0: u32 = 0xfd;
pub type Pair = (u32, u32);
fn pair(x: u32) -> Pair {
    (x, x ^ 0xABCD_0000)
}
fn pair_words(p: Pair) -> [u32; 2] {
    [p.0, p.1]
}

enum Own {
    One(Hybrid<u32>, u32),
    Two(Hybrid<Pair>, u32),
    Arr(HybridArray<u32>, Vec<u32>),
    Gpu(Gpu<u32>, u32),
    GpuTwo(Gpu<Pair>, u32),
    GpuArr(GpuArray<u32>, Vec<u32>),
}
impl Own {
    fn range(&self) -> (usize, usize) {
        match self {
            Own::One(h, _) => (h.id().index(), 1),
            Own::Two(h, _) => (h.id().index(), 2),
            Own::Arr(a, _) => (a.array().starting_index(), a.len()),
            Own::Gpu(h, _) => (h.id().index(), 1),
            Own::GpuTwo(h, _) => (h.id().index(), 2),
            Own::GpuArr(a, _) => (a.array().starting_index(), a.len()),
        }
    }
    fn words(&self) -> Vec<u32> {
        match self {
            Own::One(_, v) | Own::Gpu(_, v) => vec![*v],
            Own::Two(_, v) | Own::GpuTwo(_, v) => pair_words(pair(*v)).to_vec(),
            Own::Arr(_, v) | Own::GpuArr(_, v) => v.clone(),
        }
    }
    fn index(&self) -> usize {
        match self {
            Own::One(h, _) => h.notifier_index(),
            Own::Two(h, _) => h.notifier_index(),
            Own::Arr(a, _) => a.notifier_index(),
            Own::Gpu(h, _) => h.notifier_index(),
            Own::GpuTwo(h, _) => h.notifier_index(),
            Own::GpuArr(a, _) => a.notifier_index(),
        }
    }
    fn set(&mut self, x: u32) {
        match self {
            Own::One(h, v) => {
                h.set(x);
                *v = x;
            }
            Own::Two(h, v) => {
                h.set(pair(x));
                *v = x;
            }
            Own::Arr(a, v) => {
                if let Some(l) = v.last_mut() {
                    a.set_item(a.len() - 1, x);
                    *l = x;
                }
            }
            Own::Gpu(h, v) => {
                h.set(x);
                *v = x;
            }
            Own::GpuTwo(h, v) => {
                h.set(pair(x));
                *v = x;
            }
            Own::GpuArr(a, v) => {
                if let Some(l) = v.last_mut() {
                    a.set_item(a.len() - 1, &x);
                    *l = x;
                }
            }
        }
    }
}

/// What is known globally: live ranges with the number of their owners, and everything ever seen.
#[derive(Default)]
struct Reg {
    live: Vec<(usize, usize, usize, u32)>, // start, len, notifier index, owners
    high: usize,
    indices: HashSet<usize>,
    // values of the pair, in the order in which they were written on the CPU
    pair_log: Vec<u32>,
    hist: History,
    items: History,
    now: u32,
    cnt: u32,
    arr0: u32,
    /// the least that item 0 of the array can be once another item has this value
    arr_least: BTreeMap<u32, u32>,
}
impl Reg {
    fn created(&mut self, (s, n): (usize, usize), k: usize, tags: usize) {
        must(tags, self.indices.insert(k), || format!("id {k} is given to two values"));
        self.owned((s, n), k, tags);
    }
    fn owned(&mut self, (s, n): (usize, usize), k: usize, tags: usize) {
        if let Some(l) = self.live.iter_mut().find(|l| l.2 == k) {
            l.3 += 1;
            return;
        }
        if n > 0 {
            for (s2, n2, _, _) in &self.live {
                must(tags, s + n <= *s2 || s2 + n2 <= s || *n2 == 0, || {
                    format!("words {s}..{} are given out while words {s2}..{} are owned", s + n, s2 + n2)
                });
            }
            self.high = self.high.max(s + n);
        }
        self.live.push((s, n, k, 1));
    }
    fn released(&mut self, k: usize) {
        if let Some(i) = self.live.iter().position(|l| l.2 == k) {
            self.live[i].3 -= 1;
            if self.live[i].3 == 0 {
                self.live.swap_remove(i);
            }
        }
    }
}

/// An operation on a shared value: when it began and ended, and what it wrote or observed.
#[derive(Clone, Copy)]
struct Ev {
    val: u32,
    write: bool,
    /// only on the GPU side
    gpu: bool,
    /// an observation that may be of an earlier state
    lag: bool,
    start: u32,
    end: u32,
}

/// The history of a value that is written and observed by several threads.
#[derive(Default)]
struct History {
    ev: Vec<Ev>,
    prev: Vec<u32>,
}

impl History {
    /// Is there an order of the writes that explains what has been observed on one side?
    fn check(&self, name: &str, gpu: bool, init: u32) {
        let side = if gpu { "GPU" } else { "CPU" };
        let ev: Vec<Ev> = self.ev.iter().copied().filter(|e| if e.write { gpu || !e.gpu } else { e.gpu == gpu }).collect();
        let mut vals = vec![init];
        vals.extend(ev.iter().filter(|e| e.write).map(|e| e.val));
        for r in ev.iter().filter(|e| !e.write) {
            let w = ev.iter().find(|w| w.write && w.val == r.val);
            must(C30 | C32 | C35, r.val == init || w.is_some_and(|w| w.start < r.end), || {
                format!("{name}: {:x} is observed on the {side} side, which nobody had written", r.val)
            });
        }
        // of two values, does an operation with the first precede one with the second?
        let before = |a: u32, b: u32| {
            a == init && ev.iter().any(|y| y.write && y.val == b)
                || ev.iter().filter(|x| x.val == a).any(|x| ev.iter().filter(|y| y.val == b).any(|y| x.end < y.start && !(x.write && y.lag)))
        };
        for (i, a) in vals.iter().enumerate() {
            for b in &vals[i + 1..] {
                // the initial value precedes everything, an observation of it may not come after one of another
                let back = ev.iter().filter(|x| x.val == *b).any(|x| ev.iter().filter(|y| y.val == *a).any(|y| x.end < y.start && !(x.write && y.lag)));
                must(C30 | C32 | C35, !(before(*a, *b) && back), || format!("{name}: the {side} side goes back and forth between {a:x} and {b:x}"));
            }
        }
    }
    fn gpu_only(&self) -> bool {
        self.ev.iter().any(|e| e.write && e.gpu)
    }
}

struct Shared<R: Rtm> {
    slab: SlabAllocator<R>,
    reg: Arc<Mutex<Reg>>,
    // what threads leave behind
    left: Arc<Mutex<Vec<Thread<R>>>>,
    log: Arc<Mutex<Vec<String>>>,
    clock: Arc<ObjCell>,
}
impl<R: Rtm> Clone for Shared<R> {
    fn clone(&self) -> Self {
        Shared { slab: self.slab.clone(), reg: self.reg.clone(), left: self.left.clone(), log: self.log.clone(), clock: self.clock.clone() }
    }
}

struct Flags {
    has_commit: bool, // some thread commits
    fresh: bool,
    logging: bool,
    // the number of owners of the pair, in a program that does not change it
    owners: Option<usize>,
}

pub struct Thread<R: Rtm> {
    tid: usize,
    sh: Shared<R>,
    slab: Option<SlabAllocator<R>>,
    flags: Arc<Flags>,
    own: Vec<Own>,
    pair: Option<Hybrid<Pair>>,
    // further owners of the shared values
    more: (Vec<Hybrid<Pair>>, Vec<Hybrid<u32>>, Vec<Hybrid<Pair>>),
    weak: Option<WeakHybrid<Pair>>,
    cnt: Option<Hybrid<u32>>,
    arr: Option<HybridArray<u32>>,
    rg: Option<Hybrid<Pair>>,
    rg_gpu: Option<Gpu<Pair>>,
    it: Option<HybridArray<Pair>>,
    it_gpu: Option<GpuArray<Pair>>,
    commit_start: u32,
    pair_at: Option<(usize, usize)>, // start, notifier index
    held: Option<SlabBuffer<R::Buffer>>,
    // floors: what later commits of this thread have to contain at least
    pair_floor: Option<usize>,
    pair_seen: Option<usize>,
    cnt_floor: u32,
    cnt_seen: u32,
    arr_floor: u32,
    arr_seen: u32,
    my_item: u32,
    updated: bool,
    dirty: HashSet<usize>, // own values updated since this thread's last commit
    time_seen: usize,
    vid: u32,
}

fn reg(r: &Arc<Mutex<Reg>>) -> std::sync::MutexGuard<'_, Reg> {
    r.lock().unwrap_or_else(|e| e.into_inner())
}

impl<R: Rtm> Thread<R> {
    fn fresh_value(&mut self) -> u32 {
        self.vid += 1;
        ((self.tid as u32 + 1) << 8) | self.vid
    }
    fn note(&self, s: String) {
        if self.flags.logging {
            self.sh.log.lock().unwrap().push(format!("{}: {s}", self.tid));
        }
    }
    fn created(&mut self, o: Own) {
        reg(&self.sh.reg).created(o.range(), o.index(), C31 | C33 | C36);
        self.note(format!("at {:?} id {}", o.range(), o.index()));
        if o.range().1 > 0 {
            self.dirty.insert(o.index());
        }
        self.own.push(o);
        self.updated = true;
    }
    /// A moment in time, in a program whose operations' order is of interest.
    fn stamp(&self) -> u32 {
        if self.rg.is_none() && self.it.is_none() {
            return 0;
        }
        if active() {
            access(&self.sh.clock, Kind::Acc);
        }
        let mut r = reg(&self.sh.reg);
        r.now += 1;
        r.now
    }
    fn write(&mut self, item: bool, gpu: bool, f: impl FnOnce(&Self, Pair) -> Option<Pair>) {
        let val = self.fresh_value();
        let start = self.stamp();
        // a write that has begun may be observed
        let k = {
            let mut r = reg(&self.sh.reg);
            let h = if item { &mut r.items } else { &mut r.hist };
            h.ev.push(Ev { val, write: true, gpu, lag: false, start, end: u32::MAX });
            h.ev.len() - 1
        };
        let old = f(self, pair(val));
        let end = self.stamp();
        {
            let mut r = reg(&self.sh.reg);
            let h = if item { &mut r.items } else { &mut r.hist };
            h.ev[k].end = end;
            if let Some(o) = old {
                h.prev.push(o.0);
            }
        }
        if let Some(o) = old {
            self.observed(item, false, false, o, start, end);
        }
        self.updated = true;
    }
    fn observed(&self, item: bool, gpu: bool, lag: bool, v: Pair, start: u32, end: u32) {
        must(C30 | C32 | C35, v == pair(v.0), || format!("{v:x?} is observed, which the value never was"));
        let mut r = reg(&self.sh.reg);
        let h = if item { &mut r.items } else { &mut r.hist };
        h.ev.push(Ev { val: v.0, write: false, gpu, lag, start, end });
    }
    fn slab(&self) -> Option<SlabAllocator<R>> {
        self.slab.clone()
    }

    /// Check `words`, read from a buffer. `committed`: it was returned by a commit of this thread.
    fn look(&mut self, words: &[u32], committed: bool) {
        let tag = C30 | C32;
        if committed {
            for o in &self.own {
                let (s, n) = o.range();
                if n == 0 {
                    continue;
                }
                must(C31 | C32, s + n <= words.len(), || {
                    format!("words {s}..{} of a value are outside of the buffer of {} words that the commit returned", s + n, words.len())
                });
                if s + n <= words.len() {
                    must(tag, words[s..s + n] == o.words()[..], || {
                        format!("after a commit of the owner, words {s}..{} hold {:?} instead of {:?}", s + n, &words[s..s + n], o.words())
                    });
                }
            }
        }
        if let Some((s, _)) = self.pair_at {
            if self.pair.is_some() && s + 2 <= words.len() {
                let got = (words[s], words[s + 1]);
                let idx = {
                    let r = reg(&self.sh.reg);
                    r.pair_log.iter().rposition(|x| pair(*x) == got)
                };
                match idx {
                    None => {
                        let zero_ok = got == (0, 0) && self.flags.fresh && self.pair_seen.is_none() && !committed;
                        must(C35, zero_ok, || format!("the buffer shows {got:x?}, which the value never was"));
                    }
                    Some(i) => {
                        if let Some(p) = self.pair_seen {
                            must(C35 | C30 | C32, i >= p, || format!("the buffer goes back from {:x} to {:x}", reg(&self.sh.reg).pair_log[p], got.0));
                        }
                        self.pair_seen = Some(i.max(self.pair_seen.unwrap_or(0)));
                        if committed {
                            if let Some(f) = self.pair_floor {
                                must(tag, i >= f, || format!("the commit lost an update: the buffer holds {:x}, written before {:x}", got.0, reg(&self.sh.reg).pair_log[f]));
                            }
                        }
                    }
                }
            } else if committed && self.pair.is_some() {
                must(C31 | C32, false, || "the shared value is outside of the buffer that the commit returned".into());
            }
        }
        let at = [self.rg.as_ref().map(|h| h.id().index()), self.it.as_ref().map(|a| a.array().at(1).index())];
        if at.iter().any(|a| a.is_some()) {
            let end = self.stamp();
            for (k, s) in at.into_iter().enumerate() {
                let Some(s) = s else { continue };
                if s + 2 <= words.len() {
                    let v = (words[s], words[s + 1]);
                    let start = self.commit_start;
                    if v == (0, 0) && self.flags.fresh && !committed {
                        // a buffer that nothing has been written to yet
                        let r = reg(&self.sh.reg);
                        let h = if k == 1 { &r.items } else { &r.hist };
                        if h.ev.iter().all(|e| e.write || !e.gpu || e.end > start) {
                            continue;
                        }
                    }
                    self.observed(k == 1, true, !committed, v, start, end);
                } else {
                    must(C31 | C32, !committed, || "a shared value is outside of the buffer that the commit returned".into());
                }
            }
        }
        if let Some(c) = &self.cnt {
            let s = c.id().index();
            if s < words.len() {
                let got = words[s];
                must(C35 | C30 | C32, got >= self.cnt_seen, || format!("the counter in the buffer goes back from {} to {got}", self.cnt_seen));
                self.cnt_seen = self.cnt_seen.max(got);
                must(C35, got <= reg(&self.sh.reg).cnt, || format!("the counter in the buffer is {got}, which it never was"));
                if committed {
                    must(tag, got >= self.cnt_floor, || format!("the commit lost an increment: the buffer holds {got}, not {}", self.cnt_floor));
                }
            } else {
                must(C31 | C32, !committed, || "the shared counter is outside of the buffer that the commit returned".into());
            }
        }
        if let Some(a) = &self.arr {
            let s = a.array().starting_index();
            if s + a.len() <= words.len() {
                let got = words[s];
                must(C35 | C30 | C32, got >= self.arr_seen, || format!("item 0 in the buffer goes back from {} to {got}", self.arr_seen));
                self.arr_seen = self.arr_seen.max(got);
                must(C35, got <= reg(&self.sh.reg).arr0, || format!("item 0 in the buffer is {got}, which it never was"));
                if committed {
                    must(tag, got >= self.arr_floor, || format!("the commit lost an increment of item 0: the buffer holds {got}, not {}", self.arr_floor));
                    let mine = words[s + 1 + self.tid];
                    must(tag, mine == self.my_item, || format!("after a commit of its writer, item {} is {mine:x}, not {:x}", 1 + self.tid, self.my_item));
                }
            } else {
                must(C31 | C32, !committed, || "the shared array is outside of the buffer that the commit returned".into());
            }
        }
    }

    fn time(&mut self, k: usize) {
        must(C34, k >= self.time_seen, || format!("creation times go back from {} to {k}", self.time_seen));
        self.time_seen = self.time_seen.max(k);
    }

    fn sync(&mut self) {
        let Some(mut h) = self.held.take() else { return };
        let before = h.creation_time();
        let invalid = h.is_invalid();
        let old: *const R::Buffer = &*h;
        let up = h.update_if_invalid();
        let new: *const R::Buffer = &*h;
        // only once another buffer is in place can the handle have become invalid
        must(C34, up || !invalid, || "update_if_invalid returned false for a handle that was invalid".into());
        must(C34, up == (old != new), || format!("update_if_invalid returned {up}, and the buffer did{} change", if old == new { " not" } else { "" }));
        must(C34, h.creation_time() >= before, || "synchronizing went back in time".into());
        must(C34, !up || h.creation_time() > before, || "synchronizing replaced the buffer without advancing the creation time".into());
        // a handle synchronized after a commit of this thread is at least as new as that commit's
        self.time(h.creation_time());
        self.note(format!("sync {invalid} {up}"));
        self.held = Some(h);
    }

    fn exec(&mut self, op: Op) {
        match op {
            New | New2 | NewArr | NewArr4 | NewEmpty | NewGpu => {
                let Some(slab) = self.slab() else { return };
                let x = self.fresh_value();
                match op {
                    New => self.created(Own::One(slab.new_value(x), x)),
                    New2 => self.created(Own::Two(slab.new_value(pair(x)), x)),
                    NewArr => self.created(Own::Arr(slab.new_array([x, x + 0x1000]), vec![x, x + 0x1000])),
                    NewArr4 => {
                        let v = vec![x, x + 0x1000, x + 0x2000, x + 0x3000];
                        self.created(Own::Arr(slab.new_array(v.clone()), v))
                    }
                    NewEmpty => self.created(Own::Arr(slab.new_array([]), vec![])),
                    _ => {
                        self.created(Own::Gpu(slab.new_value(x).into_gpu_only(), x));
                        let y = self.fresh_value();
                        self.own.last_mut().unwrap().set(y);
                    }
                }
            }
            SetOwn => {
                let x = self.fresh_value();
                if let Some(o) = self.own.last_mut() {
                    o.set(x);
                    if o.range().1 > 0 {
                        self.dirty.insert(o.index());
                    }
                    self.updated = true;
                }
            }
            DropOwn => {
                if let Some(o) = self.own.pop() {
                    reg(&self.sh.reg).released(o.index());
                    self.dirty.insert(o.index());
                    drop(o);
                    self.updated = true;
                }
            }
            CloneOwn => {
                let x = self.fresh_value();
                match self.own.last_mut() {
                    Some(Own::One(h, v)) => {
                        let c = h.clone();
                        c.set(x);
                        *v = x;
                        drop(c);
                        self.updated = true;
                    }
                    Some(Own::Two(h, v)) => {
                        let c = h.clone();
                        c.set(pair(x));
                        *v = x;
                        drop(c);
                        self.updated = true;
                    }
                    Some(Own::Arr(a, v)) => {
                        let c = a.clone();
                        if let Some(l) = v.last_mut() {
                            c.set_item(c.len() - 1, x);
                            *l = x;
                            self.updated = true;
                        }
                        drop(c);
                    }
                    Some(Own::Gpu(h, v)) => {
                        let c = h.clone();
                        c.set(x);
                        *v = x;
                        drop(c);
                        self.updated = true;
                    }
                    Some(o) => {
                        o.set(x);
                        self.updated = true;
                    }
                    None => {}
                }
            }
            GpuOnly => {
                if let Some(o) = self.own.pop() {
                    let mut o = match o {
                        Own::One(h, v) => Own::Gpu(h.into_gpu_only(), v),
                        Own::Two(h, v) => Own::GpuTwo(h.into_gpu_only(), v),
                        Own::Arr(h, v) => Own::GpuArr(h.into_gpu_only(), v),
                        o => o,
                    };
                    let x = self.fresh_value();
                    o.set(x);
                    self.own.push(o);
                    self.updated = true;
                }
            }
            GuardOwn => {
                let x = self.fresh_value();
                let slab = self.slab();
                if let Some(Own::One(h, v)) = self.own.last_mut() {
                    let mut g = h.lock();
                    *g = x;
                    if let Some(s) = slab {
                        let _ = s.commit();
                    }
                    drop(g);
                    *v = x;
                    self.updated = true;
                }
            }
            SetPair | ModPair => {
                let x = self.fresh_value();
                if let Some(p) = &self.pair {
                    let r = self.sh.reg.clone();
                    let i = p.modify(|p| {
                        *p = pair(x);
                        let mut r = reg(&r);
                        r.pair_log.push(x);
                        r.pair_log.len() - 1
                    });
                    self.pair_floor = Some(i);
                    self.updated = true;
                }
            }
            ReadPair => {
                if let Some(p) = &self.pair {
                    let v = p.get();
                    let i = reg(&self.sh.reg).pair_log.iter().rposition(|x| pair(*x) == v);
                    match i {
                        Some(i) => {
                            must(C35, self.pair_floor.is_none_or(|f| i >= f), || format!("the CPU side goes back to {v:x?}"));
                            self.pair_floor = Some(i.max(self.pair_floor.unwrap_or(0)));
                        }
                        None => must(C35, false, || format!("the CPU side shows {v:x?}, which the value never was")),
                    }
                    self.note(format!("read {v:?}"));
                }
            }
            ModCnt | GuardCnt => {
                if let Some(c) = &self.cnt {
                    let r = self.sh.reg.clone();
                    let n = if op == ModCnt {
                        c.modify(|c| {
                            *c += 1;
                            reg(&r).cnt += 1;
                            *c
                        })
                    } else {
                        let mut g = c.lock();
                        *g += 1;
                        reg(&r).cnt += 1;
                        *g
                    };
                    must(C35, n > self.cnt_floor, || format!("an increment of the counter was lost: {n} after {}", self.cnt_floor));
                    self.cnt_floor = n;
                    self.updated = true;
                }
            }
            ArrSet => {
                let x = self.fresh_value();
                if let Some(a) = &self.arr {
                    reg(&self.sh.reg).arr_least.insert(x, self.arr_floor);
                    let old = a.set_item(1 + self.tid, x);
                    must(C35, old == Some(self.my_item), || format!("set_item returned {old:?} instead of {:?}", self.my_item));
                    self.my_item = x;
                    self.updated = true;
                }
            }
            ArrMod => {
                if let Some(a) = &self.arr {
                    let r = self.sh.reg.clone();
                    let n = a.modify(0, |c| {
                        *c += 1;
                        reg(&r).arr0 += 1;
                        *c
                    });
                    let n = n.unwrap_or(0);
                    must(C35, n > self.arr_floor, || format!("an increment of item 0 was lost: {n} after {}", self.arr_floor));
                    self.arr_floor = n;
                    self.updated = true;
                }
            }
            ArrVec => {
                if let Some(a) = &self.arr {
                    let v = a.get_vec();
                    let r = reg(&self.sh.reg);
                    must(C35, v.len() > 1 + self.tid && v[1 + self.tid] == self.my_item, || format!("the array reads {v:x?}, this thread's last item is {:x}", self.my_item));
                    must(C35, v[0] >= self.arr_floor && v[0] <= r.arr0, || format!("the array reads {v:x?}, item 0 was {} before", self.arr_floor));
                    for x in &v[1..] {
                        let least = r.arr_least.get(x).copied().unwrap_or(0);
                        must(C35, v[0] >= least, || format!("the array reads {v:x?}, which it never was: item 0 was at least {least} when {x:x} was written"));
                    }
                    drop(r);
                    self.arr_floor = v[0];
                }
            }
            CloneDrop => {
                if let Some(p) = &self.pair {
                    let c = p.clone();
                    drop(c);
                }
            }
            DropPair => {
                if let Some(p) = self.pair.take() {
                    reg(&self.sh.reg).released(p.notifier_index());
                    drop(p);
                }
            }
            WeakSet => {
                let x = self.fresh_value();
                if let Some(w) = &self.weak {
                    let up = w.upgrade();
                    self.note(format!("upgraded {}", up.is_some()));
                    match up {
                        Some(h) => {
                            let (s, k) = self.pair_at.unwrap();
                            must(C33, (h.id().index(), h.notifier_index()) == (s, k), || "an upgraded handle refers to another value".into());
                            reg(&self.sh.reg).owned((s, 2), k, C33);
                            let r = self.sh.reg.clone();
                            let i = h.modify(|p| {
                                *p = pair(x);
                                let mut r = reg(&r);
                                r.pair_log.push(x);
                                r.pair_log.len() - 1
                            });
                            if let Some(old) = self.pair.take() {
                                reg(&self.sh.reg).released(k);
                                drop(old);
                            }
                            self.pair_floor = Some(i);
                            self.pair = Some(h);
                            self.updated = true;
                        }
                        None => must(C33, self.pair.is_none() && self.more.0.is_empty(), || "a weak handle did not upgrade although its value is owned".into()),
                    }
                }
            }
            WeakGpu => {
                if let Some(w) = &self.weak {
                    let up = w.weak_gpu().upgrade();
                    self.note(format!("upgraded {}", up.is_some()));
                    must(C33, up.is_some() || self.pair.is_none(), || "a weak handle did not upgrade although its value is owned".into());
                    drop(up);
                }
            }
            Commit => {
                let Some(slab) = self.slab() else { return };
                self.commit_start = self.stamp();
                let b = slab.commit();
                let words = R::words(&b);
                self.look(&words, true);
                self.time(b.creation_time());
                self.note(format!("commit {words:x?} {}", b.creation_time()));
                drop(b);
                self.dirty.clear();
                self.updated = false;
            }
            HasQ => {
                let Some(slab) = self.slab() else { return };
                let q = slab.has_queued_updates();
                if self.updated && !self.flags.has_commit {
                    must(C36, q, || "no queued updates are reported, although this thread made some and nobody commits".into());
                }
                self.note(format!("queued {q}"));
            }
            Ids => {
                let Some(slab) = self.slab() else { return };
                let ids = slab.get_updated_source_ids();
                if !self.flags.has_commit {
                    for k in &self.dirty {
                        must(C36, ids.contains(k), || format!("id {k} is not reported, although its value was updated and nobody commits"));
                    }
                }
                let mut v: Vec<_> = ids.into_iter().collect();
                v.sort();
                self.note(format!("ids {v:?}"));
            }
            Defrag => {
                let Some(slab) = self.slab() else { return };
                slab.defrag();
            }
            GetBuf => {
                let Some(slab) = self.slab() else { return };
                self.commit_start = self.stamp();
                match slab.get_buffer() {
                    Some(b) => {
                        let words = R::words(&b);
                        self.look(&words, false);
                        self.time(b.creation_time());
                        self.note(format!("buffer {words:x?} {}", b.creation_time()));
                    }
                    None => {
                        must(C34 | C32, self.flags.fresh && self.time_seen == 0, || "there is no buffer although a commit has returned one".into());
                        self.note("no buffer".into());
                    }
                }
            }
            Sync => self.sync(),
            RefCnt => {
                if let Some(p) = &self.pair {
                    let n = p.ref_count();
                    must(C36, n >= 1, || "an owned value counts no owners".into());
                    let want = self.flags.owners;
                    must(C36, want.is_none_or(|w| n == w), || format!("a value with {want:?} owners, which nobody changes, counts {n}"));
                    self.note(format!("count {n}"));
                }
                if let Some(w) = &self.weak {
                    let n = w.strong_count();
                    must(C36, n >= 1 || self.pair.is_none(), || "an owned value counts no owners".into());
                    let want = self.flags.owners;
                    must(C36, want.is_none_or(|w| n == w), || format!("a value with {want:?} owners, which nobody changes, counts {n} of them through a weak handle"));
                    let _ = w.has_external_references();
                }
            }
            DropAlloc => {
                self.slab = None;
            }
            RegSet => self.write(false, false, |t, v| {
                t.rg.as_ref().unwrap().set(v);
                None
            }),
            RegMod => self.write(false, false, |t, v| t.rg.as_ref().unwrap().modify(|p| Some(std::mem::replace(p, v)))),
            RegGuard => self.write(false, false, |t, v| {
                let mut g = t.rg.as_ref().unwrap().lock();
                Some(std::mem::replace(&mut *g, v))
            }),
            RegGpu => self.write(false, true, |t, v| {
                t.rg_gpu.as_ref().unwrap().set(v);
                None
            }),
            RegRead => {
                let start = self.stamp();
                let v = self.rg.as_ref().unwrap().get();
                let end = self.stamp();
                self.observed(false, false, false, v, start, end);
            }
            ItSet => self.write(true, false, |t, v| {
                let r = t.it.as_ref().unwrap().set_item(1, v);
                must(C35, r.is_some(), || "set_item returned nothing".into());
                r
            }),
            ItMod => self.write(true, false, |t, v| t.it.as_ref().unwrap().modify(1, |p| std::mem::replace(p, v))),
            ItGpu => self.write(true, true, |t, v| {
                t.it_gpu.as_ref().unwrap().set_item(1, &v);
                None
            }),
            ItRead => {
                let start = self.stamp();
                let v = self.it.as_ref().unwrap().get(1);
                let end = self.stamp();
                self.observed(true, false, false, v.unwrap_or_default(), start, end);
            }
        }
    }

    fn leave(self) {
        let left = self.sh.left.clone();
        left.lock().unwrap().push(self);
    }
}

pub struct Built<R: Rtm> {
    sh: Shared<R>,
    pub threads: Vec<Thread<R>>,
    ops: Vec<Vec<Op>>,
}

/// Formats what is logged, as a logger would.
struct Format;
impl log::Log for Format {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Sink;
        impl std::fmt::Write for Sink {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = Sink.write_fmt(*r.args());
    }
    fn flush(&self) {}
}

pub fn build<R: Rtm>(p: &Prog, logging: bool) -> Built<R> {
    if p.log {
        let _ = log::set_logger(&Format);
        log::set_max_level(log::LevelFilter::Trace);
    } else {
        log::set_max_level(log::LevelFilter::Off);
    }
    let slab = SlabAllocator::<R>::new_with_label(R::make(), R::usages(), Some("mc"));
    let sh = Shared { slab: slab.clone(), reg: Default::default(), left: Default::default(), log: Default::default(), clock: Default::default() };
    let n = p.threads.len();
    let quiet = p.threads.iter().flatten().all(|o| matches!(o, RefCnt | ReadPair | HasQ | Ids | GetBuf | Defrag | New | ModCnt));
    let owners = quiet.then_some(n + if p.init == Init::Many { MANY } else { 0 });
    let flags = Arc::new(Flags { owners, has_commit: p.uses(&[Commit, GuardOwn]), fresh: p.init == Init::Fresh, logging });

    // recycled words come first, so that new values are placed in between older ones
    let mut temp = vec![];
    if matches!(p.init, Init::Recycled | Init::Dirty) {
        temp.push(slab.new_value(pair(1)));
        temp.push(slab.new_value(pair(2)));
    }
    let shared_pair = p.needs_pair().then(|| slab.new_value(pair(0xff)));
    let cnt = p.uses(&[ModCnt, GuardCnt]).then(|| slab.new_value(0u32));
    let arr = p.uses(&[ArrSet, ArrMod]).then(|| slab.new_array(vec![0u32; 1 + n]));
    let rg = p.uses(&[RegSet, RegMod, RegGuard, RegGpu, RegRead]).then(|| slab.new_value(pair(REG0)));
    let it = p.uses(&[ItSet, ItMod, ItGpu, ItRead]).then(|| slab.new_array([pair(REG0 + 1), pair(REG0)]));
    let mut threads: Vec<Thread<R>> = vec![];
    for (tid, ops) in p.threads.iter().enumerate() {
        let mut t = Thread {
            tid,
            sh: sh.clone(),
            slab: Some(slab.clone()),
            flags: flags.clone(),
            own: vec![],
            pair: shared_pair.clone(),
            more: Default::default(),
            weak: ops.iter().any(|o| matches!(o, WeakSet | WeakGpu | RefCnt)).then(|| shared_pair.as_ref().map(WeakHybrid::from_hybrid)).flatten(),
            cnt: cnt.clone(),
            arr: arr.clone(),
            rg: rg.clone(),
            rg_gpu: rg.clone().map(|h| h.into_gpu_only()),
            it: it.clone(),
            it_gpu: it.clone().map(|h| h.into_gpu_only()),
            commit_start: 0,
            pair_at: shared_pair.as_ref().map(|h| (h.id().index(), h.notifier_index())),
            held: None,
            pair_floor: None,
            pair_seen: None,
            cnt_floor: 0,
            cnt_seen: 0,
            arr_floor: 0,
            arr_seen: 0,
            my_item: 0,
            updated: false,
            dirty: HashSet::new(),
            time_seen: 0,
            vid: 0,
        };
        // a thread that works on its own value before it creates one gets one now
        let first = ops.iter().position(|o| matches!(o, SetOwn | DropOwn | CloneOwn | GpuOnly | GuardOwn));
        let news = ops.iter().position(|o| matches!(o, New | New2 | NewArr | NewArr4 | NewEmpty | NewGpu));
        if let Some(f) = first {
            if news.is_none_or(|x| f < x) {
                let x = t.fresh_value();
                let h = slab.new_value(x);
                reg(&sh.reg).created((h.id().index(), 1), h.notifier_index(), usize::MAX);
                t.own.push(Own::One(h, x));
            }
        }
        threads.push(t);
    }
    {
        let mut r = reg(&sh.reg);
        for t in &threads {
            if let Some(p) = &t.pair {
                r.owned((p.id().index(), 2), p.notifier_index(), usize::MAX);
            }
        }
        if let Some(p) = &shared_pair {
            r.indices.insert(p.notifier_index());
            r.pair_log.push(0xff);
        }
        if let Some(c) = &cnt {
            r.created((c.id().index(), 1), c.notifier_index(), usize::MAX);
        }
        if let Some(a) = &arr {
            r.created((a.array().starting_index(), a.len()), a.notifier_index(), usize::MAX);
        }
        if let Some(h) = &rg {
            r.created((h.id().index(), 2), h.notifier_index(), usize::MAX);
        }
        if let Some(a) = &it {
            r.created((a.array().starting_index(), 4), a.notifier_index(), usize::MAX);
        }
        for t in &temp {
            r.indices.insert(t.notifier_index());
            r.high = r.high.max(t.id().index() + 2);
        }
    }
    drop(shared_pair);
    drop(cnt);
    drop(arr);
    drop(rg);
    drop(it);
    match p.init {
        Init::Fresh | Init::Many => {}
        Init::Room => {
            // at least four words are left in the buffer
            loop {
                let len = R::words(&slab.commit()).len();
                let used = reg(&sh.reg).high;
                if len >= used + 4 || len > 64 {
                    break;
                }
                let fill = slab.new_array(vec![7u32; len - used + 1]);
                reg(&sh.reg).created((fill.array().starting_index(), fill.len()), fill.notifier_index(), usize::MAX);
                let v = fill.get_vec();
                threads[0].own.insert(0, Own::Arr(fill, v));
            }
        }
        Init::Full => {
            slab.commit();
            let len = R::words(&slab.commit()).len();
            let used = reg(&sh.reg).high;
            if used < len {
                let fill = slab.new_array(vec![7u32; len - used]);
                reg(&sh.reg).created((fill.array().starting_index(), fill.len()), fill.notifier_index(), usize::MAX);
                let v = fill.get_vec();
                threads[0].own.insert(0, Own::Arr(fill, v));
            }
            slab.commit();
        }
        Init::Recycled => {
            slab.commit();
            temp.clear();
            slab.commit();
        }
        Init::Dirty => {
            slab.commit();
            temp.clear();
            for t in &mut threads {
                if let Some(c) = &t.cnt {
                    let n = c.modify(|c| {
                        *c += 1;
                        *c
                    });
                    t.cnt_floor = n;
                    reg(&sh.reg).cnt = n;
                }
                let x = t.fresh_value();
                if let Some(o) = t.own.last_mut() {
                    o.set(x);
                }
            }
        }
    }
    if p.init == Init::Many {
        slab.commit();
        let t = &mut threads[0];
        for k in 0..MANY + 2 {
            if let Some(h) = &t.pair {
                t.more.0.push(h.clone());
                if k < MANY {
                    reg(&sh.reg).owned((h.id().index(), 2), h.notifier_index(), usize::MAX);
                }
            }
            if let Some(h) = &t.cnt {
                t.more.1.push(h.clone());
            }
            if let Some(h) = &t.rg {
                t.more.2.push(h.clone());
            }
        }
        // owners that are gone
        t.more.0.truncate(MANY);
        t.more.1.truncate(MANY);
        t.more.2.truncate(MANY);
    }
    temp.clear();
    let ops = p.threads.clone();
    for (t, o) in threads.iter_mut().zip(&ops) {
        if o.contains(&Sync) {
            t.held = slab.get_buffer();
        }
    }
    Built { sh, threads, ops }
}

/// After all threads are done.
fn finish<R: Rtm>(sh: Shared<R>) -> Result<u64, String> {
    let mut left: Vec<Thread<R>> = std::mem::take(&mut *sh.left.lock().unwrap());
    left.sort_by_key(|t| t.tid);
    let slab = sh.slab.clone();
    let high = reg(&sh.reg).high;
    let b = slab.commit();
    let words = R::words(&b);
    must(C30 | C32 | C36, !slab.has_queued_updates(), || "updates are queued right after a commit".into());
    must(C36, slab.get_updated_source_ids().is_empty(), || "ids are queued right after a commit".into());
    // values written by several threads
    if let Some(t) = left.first() {
        let end = t.stamp();
        let sides = [
            t.rg.as_ref().map(|h| (h.id().index(), h.get())),
            t.it.as_ref().map(|a| (a.array().at(1).index(), a.get(1).unwrap_or_default())),
        ];
        for (k, x) in sides.into_iter().enumerate() {
            let Some((s, cpu)) = x else { continue };
            must(C31 | C32, s + 2 <= words.len(), || "a shared value is outside of the buffer that the commit returned".into());
            let gpu = words.get(s..s + 2).map_or((0, 0), |w| (w[0], w[1]));
            t.observed(k == 1, false, false, cpu, end, end);
            t.observed(k == 1, true, false, gpu, end, end);
            let r = reg(&sh.reg);
            let (h, name) = if k == 1 { (&r.items, "item 1 of the shared array") } else { (&r.hist, "the shared value") };
            h.check(name, false, REG0);
            h.check(name, true, REG0);
            must(C30 | C32 | C35, h.gpu_only() || cpu == gpu, || format!("{name} is {:x} on the CPU and {:x} on the GPU", cpu.0, gpu.0));
            let mut p = h.prev.clone();
            p.sort();
            let n = p.len();
            p.dedup();
            must(C35, p.len() == n, || format!("{name}: two modifications have both replaced the same value"));
        }
    }
    // everything that is still owned
    let mut live: Vec<(usize, usize, Vec<u32>)> = vec![];
    let mut pair_done = false;
    let mut once = (false, false);
    for t in &left {
        for o in &t.own {
            let (s, n) = o.range();
            live.push((s, n, o.words()));
            match o {
                Own::One(h, v) => must(C35, h.get() == *v, || "a value does not read back".into()),
                Own::Two(h, v) => must(C35, h.get() == pair(*v), || "a value does not read back".into()),
                Own::Arr(h, v) => must(C35, h.get_vec() == *v, || "an array does not read back".into()),
                _ => {}
            }
        }
        if let (Some(p), false) = (t.pair.as_ref().or(t.more.0.first()), pair_done) {
            pair_done = true;
            let owners: usize = left.iter().map(|t| t.pair.iter().count() + t.more.0.len()).sum();
            must(C36 | C33, p.ref_count() == owners, || format!("a value of {owners} owners counts {} in the end", p.ref_count()));
            let want = *reg(&sh.reg).pair_log.last().unwrap();
            must(C35, p.get() == pair(want), || format!("the CPU side of the pair is {:x?}, not the last one written, {want:x}", p.get()));
            live.push((p.id().index(), 2, pair_words(pair(want)).to_vec()));
        }
        if let (Some(c), false) = (&t.cnt, once.0) {
            once.0 = true;
            let n = reg(&sh.reg).cnt;
            must(C35, c.get() == n, || format!("the counter is {} after {n} increments", c.get()));
            live.push((c.id().index(), 1, vec![n]));
        }
        if let (Some(a), false) = (&t.arr, once.1) {
            once.1 = true;
            let mut v = vec![reg(&sh.reg).arr0];
            v.extend(left.iter().map(|t| t.my_item));
            must(C35, a.get_vec() == v, || format!("the array is {:x?} instead of {v:x?}", a.get_vec()));
            live.push((a.array().starting_index(), a.len(), v));
        }
    }
    live.retain(|l| l.1 > 0);
    for (i, (s, n, v)) in live.iter().enumerate() {
        must(C31 | C32, s + n <= words.len(), || format!("words {s}..{} are outside of the buffer of {} words", s + n, words.len()));
        for (s2, n2, _) in &live[i + 1..] {
            must(C31 | C33, s + n <= *s2 || s2 + n2 <= *s, || format!("words {s}..{} and {s2}..{} overlap", s + n, s2 + n2));
        }
        must(C30 | C32 | C35 | C36, s + n <= words.len() && words[*s..s + n] == v[..], || {
            format!("after the final commit, words {s}..{} hold {:x?} instead of {v:x?}", s + n, words.get(*s..s + n))
        });
    }
    let again = slab.commit();
    must(C30 | C32, R::words(&again) == words, || "a commit without updates changed the buffer".into());
    for t in &mut left {
        if let Some(mut h) = t.held.take() {
            let inv = h.is_invalid();
            let up = h.update_if_invalid();
            must(C34, inv == up, || format!("is_invalid {inv}, update_if_invalid {up}"));
            must(C34, std::ptr::eq(&*h as *const R::Buffer, &*again as *const R::Buffer), || "a synchronized handle is not on the current buffer".into());
            must(C34, h.creation_time() == again.creation_time(), || "a synchronized handle has another creation time than the current buffer".into());
            must(C34, h.is_valid() && !h.update_if_invalid(), || "a handle is invalid right after it was synchronized".into());
        }
    }
    let mut log = std::mem::take(&mut *sh.log.lock().unwrap());
    log.push(format!("end {words:x?} {live:x?}"));
    // release everything
    let count = left.len();
    drop(left);
    drop((b, again));
    slab.commit();
    if high > 0 {
        let all = slab.new_array(vec![3u32; high]);
        must(C33 | C31 | C36, all.array().starting_index() == 0, || {
            format!("after everything was dropped and committed, an array of all {high} words is placed at {}", all.array().starting_index())
        });
        let one = slab.new_value(4u32);
        must(C33 | C31 | C36, one.id() == Id::new(high as u32), || {
            format!("with all {high} words in use, a value is placed at {}", one.id().index())
        });
        let b = slab.commit();
        let w = R::words(&b);
        must(C31, w.len() > high && w[..high].iter().all(|x| *x == 3) && w[high] == 4, || "values created at the end are not in the buffer".into());
    }
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (log, count).hash(&mut h);
    Ok(h.finish())
}

impl<R: Rtm> Built<R> {
    /// The program as thread bodies and a final check.
    #[allow(clippy::type_complexity)]
    pub fn split(self) -> (Vec<Box<dyn FnOnce() + Send>>, Box<dyn FnOnce() -> Result<u64, String> + Send>) {
        let sh = self.sh;
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (mut t, ops) in self.threads.into_iter().zip(self.ops) {
            bodies.push(Box::new(move || {
                for o in ops {
                    t.exec(o);
                }
                t.leave();
            }));
        }
        (bodies, Box::new(move || finish(sh)))
    }

    /// The operations one by one, in the given order of threads, all by the caller.
    pub fn in_order(self, order: &[u8]) -> (Box<dyn FnOnce() + Send>, Box<dyn FnOnce() -> Result<u64, String> + Send>) {
        let sh = self.sh;
        let mut ts: Vec<_> = self.threads;
        let ops = self.ops;
        let order = order.to_vec();
        (
            Box::new(move || {
                let mut at = vec![0; ts.len()];
                for t in order {
                    let t = t as usize;
                    ts[t].exec(ops[t][at[t]]);
                    at[t] += 1;
                }
                for t in ts {
                    t.leave();
                }
            }),
            Box::new(move || finish(sh)),
        )
    }

    /// The operations one by one, in the given order, each by the OS thread it belongs to.
    pub fn on_threads(self, order: &[u8]) -> Result<u64, String> {
        let sh = self.sh;
        let mut txs = vec![];
        let (done_tx, done_rx) = std::sync::mpsc::channel::<Result<(), String>>();
        std::thread::scope(|s| {
            for (mut t, ops) in self.threads.into_iter().zip(self.ops) {
                let (tx, rx) = std::sync::mpsc::channel::<()>();
                txs.push(tx);
                let done = done_tx.clone();
                s.spawn(move || {
                    for o in ops {
                        if rx.recv().is_err() {
                            return;
                        }
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.exec(o)));
                        let bad = r.is_err();
                        let _ = done.send(r.map_err(|_| "panic".to_string()));
                        if bad {
                            return;
                        }
                    }
                    t.leave();
                });
            }
            for t in order {
                txs[*t as usize].send(()).map_err(|e| e.to_string())?;
                done_rx.recv().map_err(|e| e.to_string())??;
            }
            Ok::<(), String>(())
        })?;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| finish(sh))) {
            Ok(r) => r,
            Err(_) => Err("panic".into()),
        }
    }
}

/// All interleavings of whole operations.
pub fn orders(p: &Prog) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t as u8);
                go(left, cur, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut p.threads.iter().map(|t| t.len()).collect(), &mut vec![], &mut out);
    out
}
