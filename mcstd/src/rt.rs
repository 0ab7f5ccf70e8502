//! The explorer: coroutine scheduler, depth-first enumeration of schedules, happens-before state
//! fingerprints and a store-history model for weakly ordered atomics.
//!
//! One exploration runs on one OS thread. The threads of the program under test are coroutines on
//! that OS thread. Every operation of a shim first declares itself (`point`), which is where the
//! scheduler may switch, and then takes effect; code between two points runs uninterrupted, which
//! loses nothing because it touches no shared state other than through shims.

use std::cell::Cell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::Location;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed as StdRelaxed};

pub const MAX_THREADS: usize = 4;
const MAX_SEEN: usize = 24;
const STACK: usize = 192 * 1024;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Start,
    Lock,
    TryLock,
    Unlock,
    Read,
    TryRead,
    Write,
    TryWrite,
    UnlockRead,
    Load,
    Store,
    Rmw,
    CasFail,
    ArcClone,
    ArcDrop,
    ArcUpgrade,
    ArcCount,
    WeakMake,
    Send,
    Recv,
    ChanLook,
    ChanClose,
    CondWait,
    CondNotify,
    OnceInit,
    OnceGet,
    Yield,
    Fence,
    Acc,    // harness: write access to a device object
    AccR,   // harness: read access to a device object
}

impl Kind {
    fn writes(self) -> bool {
        !matches!(self, Kind::Read | Kind::Load | Kind::ArcCount | Kind::ChanLook | Kind::OnceGet | Kind::AccR | Kind::Start | Kind::Yield | Kind::CasFail)
    }
}

#[derive(Clone, Copy)]
struct Clock {
    t: [u32; MAX_THREADS],
    seen: [u16; MAX_SEEN],
}
impl Clock {
    const ZERO: Clock = Clock { t: [0; MAX_THREADS], seen: [0; MAX_SEEN] };
    fn join(&mut self, o: &Clock) {
        for i in 0..MAX_THREADS {
            self.t[i] = self.t[i].max(o.t[i]);
        }
        for i in 0..MAX_SEEN {
            self.seen[i] = self.seen[i].max(o.seen[i]);
        }
    }
}

struct StoreRec {
    val: u64,
    tid: usize, // usize::MAX: initial
    epoch: u32,
    rel: Option<Clock>,
    hash: u64,
}

struct Obj {
    name: u64,
    whash: u64,
    rsum: u64,
    clock: Clock,
    writer: Option<usize>,
    readers: [u8; MAX_THREADS],
    stores: Vec<StoreRec>,
    seen_slot: usize,
    notified: u32,
}

#[derive(Clone, Copy)]
struct Pending {
    kind: Kind,
    obj: u32,
    loc: &'static Location<'static>,
}

struct Thr {
    sp: usize,
    hash: u64,
    clock: Clock,
    names: u64,
    pending: Option<Pending>,
    finished: bool,
    yielded: bool,
    body: Option<Box<dyn FnOnce()>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum ChoiceKind {
    Thread,
    Value,
}

struct Choice {
    kind: ChoiceKind,
    alts: Vec<u32>,
    cur: usize,
}

#[derive(Clone, Debug)]
pub struct Config {
    /// Maximal number of preemptions per execution; None: unbounded.
    pub preemptions: Option<u32>,
    /// Maximal number of stale values returned to weakly ordered loads per execution.
    pub stale: u32,
    pub max_execs: u64,
    pub horizon: u32,
    pub deadline: Option<std::time::Instant>,
}
impl Default for Config {
    fn default() -> Self {
        Config { preemptions: None, stale: 0, max_execs: u64::MAX, horizon: 4000, deadline: None }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub message: String,
    pub schedule: Vec<u32>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub execs: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_points: u32,
    pub complete: bool,
    pub outcomes: u64,
    pub livelocks_skipped: u64,
    /// executions that did not repeat their recorded prefix
    pub diverged: u64,
    pub violation: Option<Violation>,
}

struct Rt {
    cfg: Config,
    objs: Vec<Obj>,
    arcs: Vec<(usize, u32)>, // address of a counted allocation -> object
    thr: Vec<Thr>,
    cur: usize,
    main_sp: usize,
    in_coroutine: bool,
    choices: Vec<Choice>,
    depth: usize, // next choice to take
    free_run: bool,
    replay_only: bool,
    preempt_used: u32,
    stale_used: u32,
    steps: u32,
    seen_slots: usize,
    visited: HashSet<u64, BuildHasherDefault<Ident>>,
    transitions: u64,
    violation: Option<String>,
    diverged: Option<String>,
    diverged_execs: u64,
    fair: bool,
    trace: Option<Vec<String>>,
}

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

#[inline]
fn mix(a: u64, b: u64) -> u64 {
    let r = ((a ^ 0x9E37_79B9_7F4A_7C15) as u128).wrapping_mul((b ^ 0xD6E8_FEB8_6659_FD93) as u128 | 1);
    let x = (r as u64) ^ ((r >> 64) as u64) ^ a.rotate_left(23) ^ b.rotate_left(47);
    let x = (x ^ (x >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 29)
}

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
}
static EPOCH: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static CUR_EPOCH: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

/// Whether the caller runs in a coroutine of an exploration.
#[inline]
pub fn active() -> bool {
    RT.with(|r| {
        let p = r.get();
        !p.is_null() && unsafe { (*p).in_coroutine }
    })
}

#[inline]
fn rt() -> &'static mut Rt {
    RT.with(|r| unsafe { &mut *r.get() })
}

/// Identity of a shim object: which model object it is in the current execution.
#[derive(Default)]
pub struct ObjCell(AtomicU64);
impl ObjCell {
    pub const fn new() -> Self {
        ObjCell(AtomicU64::new(0))
    }
    fn get(&self) -> u32 {
        let e = CUR_EPOCH.with(|c| c.get());
        let v = self.0.load(StdRelaxed);
        if v >> 24 == e {
            return (v & 0xff_ffff) as u32;
        }
        let i = rt().new_obj();
        self.0.store(e << 24 | i as u64, StdRelaxed);
        i
    }
}

// ---------------------------------------------------------------- context switch

#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".global mc_switch",
    "mc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global mc_tramp",
    "mc_tramp:",
    "call {main}",
    "ud2",
    main = sym co_main,
);

extern "C" {
    fn mc_switch(save: *mut usize, to: usize);
    fn mc_tramp();
}

thread_local! {
    static STACKS: Cell<Vec<Box<[u8]>>> = const { Cell::new(Vec::new()) };
}

fn stack_top(i: usize) -> usize {
    STACKS.with(|s| {
        let mut v = s.take();
        while v.len() <= i {
            v.push(vec![0u8; STACK].into_boxed_slice());
        }
        let top = v[i].as_ptr() as usize + STACK;
        s.set(v);
        top & !15
    })
}

fn prepare_stack(i: usize) -> usize {
    let top = stack_top(i) - 64;
    // layout (low to high): r15 r14 r13 r12 rbx rbp ret
    unsafe {
        let sp = (top - 7 * 8) as *mut usize;
        for k in 0..6 {
            *sp.add(k) = 0;
        }
        *sp.add(6) = mc_tramp as *const () as usize;
        sp as usize
    }
}

extern "C" fn co_main() {
    let body = {
        let r = rt();
        let t = r.cur;
        r.thr[t].pending = None;
        r.thr[t].hash = mix(r.thr[t].hash, 3);
        r.thr[t].body.take().unwrap()
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    let r = rt();
    if res.is_err() && r.violation.is_none() {
        r.violation = Some("panic".into());
    }
    let t = r.cur;
    r.thr[t].finished = true;
    r.thr[t].pending = None;
    schedule();
    unreachable!();
}

// ---------------------------------------------------------------- scheduler

impl Rt {
    fn new_obj(&mut self) -> u32 {
        let t = self.cur;
        self.thr[t].names += 1;
        let name = mix(t as u64 + 1, self.thr[t].names);
        self.objs.push(Obj {
            name,
            whash: name,
            rsum: 0,
            clock: Clock::ZERO,
            writer: None,
            readers: [0; MAX_THREADS],
            stores: Vec::new(),
            seen_slot: usize::MAX,
            notified: 0,
        });
        (self.objs.len() - 1) as u32
    }

    fn enabled(&self, t: usize) -> bool {
        let th = &self.thr[t];
        if th.finished {
            return false;
        }
        let Some(p) = th.pending else { return false };
        let o = &self.objs[p.obj as usize];
        match p.kind {
            Kind::Lock => o.writer.is_none(),
            Kind::Write => o.writer.is_none() && o.readers.iter().all(|r| *r == 0),
            Kind::Read => {
                o.writer.is_none()
                    // std's lock prefers writers: a recursive read may wait for a waiting writer
                    && !(o.readers[t] > 0
                        && self.thr.iter().enumerate().any(|(u, x)| {
                            u != t && matches!(x.pending, Some(q) if q.obj == p.obj && q.kind == Kind::Write)
                        }))
            }
            Kind::OnceInit => o.writer.is_none(),
            Kind::CondWait => o.notified > 0,
            _ => true,
        }
    }

    fn key(&self, from: usize) -> u64 {
        let mut k = 0x1234_5678u64;
        for (i, t) in self.thr.iter().enumerate() {
            k = mix(k, t.hash ^ (t.finished as u64) ^ ((t.yielded as u64) << 1));
            k = mix(k, i as u64);
        }
        if let Some(b) = self.cfg.preemptions {
            k = mix(k, (from as u64) << 32 | (b - self.preempt_used.min(b)) as u64);
        }
        mix(k, (self.cfg.stale - self.stale_used) as u64)
    }

    fn take_choice(&mut self, kind: ChoiceKind, alts: impl Fn(&mut Vec<u32>), preemptive: bool, key: impl Fn(&Rt) -> u64) -> u32 {
        // alternative 0 is the default
        if kind == ChoiceKind::Thread && preemptive {
            if let Some(b) = self.cfg.preemptions {
                if self.preempt_used >= b {
                    let mut now = Vec::new();
                    alts(&mut now);
                    if self.depth >= self.choices.len() && !self.free_run && !self.replay_only {
                        let k = key(self);
                        if !self.visited.insert(k) {
                            self.free_run = true;
                        }
                    }
                    return now[0];
                }
            }
        }
        if self.depth < self.choices.len() {
            let c = &self.choices[self.depth];
            let mut now = Vec::new();
            alts(&mut now);
            if c.kind != kind || (!c.alts.is_empty() && c.alts != now) || c.cur >= now.len() {
                if self.replay_only {
                    self.diverged = Some(format!(
                        "replay diverged at choice {}: recorded {:?} {:?}, found {:?} {:?}",
                        self.depth, c.kind, c.alts, kind, now
                    ));
                    return now[0];
                }
                // the program is not deterministic (for instance, it iterates over a randomly
                // seeded hash map): go on from here
                self.choices.truncate(self.depth);
                self.diverged_execs += 1;
            } else {
                let cur = c.cur;
                let (v, pre) = (now[cur], cur > 0 && preemptive);
                if self.choices[self.depth].alts.is_empty() {
                    self.choices[self.depth].alts = now;
                }
                self.depth += 1;
                if pre {
                    self.preempt_used += 1;
                }
                return v;
            }
        }
        let mut now = Vec::new();
        alts(&mut now);
        if self.free_run || self.replay_only {
            return now[0];
        }
        if kind == ChoiceKind::Thread {
            let k = key(self);
            if !self.visited.insert(k) {
                self.free_run = true;
                return now[0];
            }
        }
        let v = now[0];
        self.choices.push(Choice { kind, alts: now, cur: 0 });
        self.depth += 1;
        v
    }

    /// Pick the next thread to run; None: end the execution.
    fn pick(&mut self) -> Option<usize> {
        let me = self.cur;
        let mut en = [0usize; MAX_THREADS];
        let mut n = 0;
        let me_enabled = self.enabled(me);
        if me_enabled {
            en[n] = me;
            n += 1;
        }
        for t in 0..self.thr.len() {
            if t != me && self.enabled(t) {
                en[n] = t;
                n += 1;
            }
        }
        // a thread that yields waits for somebody else to make a step
        let me_yields = me_enabled && self.thr[me].yielded;
        if n > 1 {
            let mut m = 0;
            for i in 0..n {
                if !self.thr[en[i]].yielded {
                    en[m] = en[i];
                    m += 1;
                }
            }
            if m > 0 {
                n = m;
            }
        }
        if n == 0 {
            if self.thr.iter().all(|t| t.finished) {
                return None;
            }
            let mut s = String::from("deadlock:");
            for (i, t) in self.thr.iter().enumerate() {
                if !t.finished {
                    if let Some(p) = t.pending {
                        s += &format!(" thread {i} waits in {:?} at {}:{};", p.kind, p.loc.file(), p.loc.line());
                    }
                }
            }
            self.violation = Some(s);
            return None;
        }
        let next = if n == 1 {
            en[0]
        } else if self.fair {
            // beyond the horizon: round robin
            let mut best = en[0];
            for i in 0..n {
                if en[i] > me {
                    best = en[i];
                    break;
                }
                best = best.min(en[i]);
            }
            best
        } else {
            let list = en;
            let preemptive = me_enabled && !me_yields;
            self.take_choice(
                ChoiceKind::Thread,
                |v| v.extend(list[..n].iter().map(|t| *t as u32)),
                preemptive,
                |r| r.key(me),
            ) as usize
        };
        for t in 0..self.thr.len() {
            if t != next {
                self.thr[t].yielded = false;
            }
        }
        if self.diverged.is_some() {
            return None;
        }
        self.cur = next;
        Some(next)
    }

    fn step(&mut self) -> bool {
        self.steps += 1;
        self.transitions += 1;
        if self.steps > self.cfg.horizon && !self.fair {
            self.fair = true;
        }
        if self.steps > self.cfg.horizon * 3 {
            self.violation = Some(format!("livelock: no progress after {} operations", self.steps));
            return false;
        }
        true
    }

    /// Fold an executed operation into the happens-before fingerprints.
    fn record(&mut self, kind: Kind, obj: u32, extra: u64) {
        let t = self.cur;
        let o = &mut self.objs[obj as usize];
        let th = &mut self.thr[t];
        let mut h = mix(th.hash, mix(o.name, (kind as u64) << 32 ^ extra));
        if kind.writes() {
            h = mix(h, mix(o.whash, o.rsum));
            o.whash = h;
            o.rsum = 0;
        } else {
            h = mix(h, o.whash);
            o.rsum = o.rsum.wrapping_add(mix(h, 77));
        }
        th.hash = h;
    }

    fn note(&mut self, kind: Kind, obj: u32, loc: &'static Location<'static>, extra: &str) {
        if let Some(tr) = self.trace.as_mut() {
            let f = loc.file();
            let f = f.rsplit("/crates/").next().unwrap_or(f);
            tr.push(format!("thread {} {:?} object {} at {}:{}{}{}", self.cur, kind, obj, f, loc.line(), if extra.is_empty() { "" } else { " " }, extra));
        }
    }
}

// The functions that switch contexts hold no `&mut Rt` across the switch, which would allow the
// compiler to move accesses to it over the switch.

/// Pick the next thread to run and switch to it. Returns when the caller is picked again.
fn schedule() {
    let p: *mut Rt = RT.with(|r| r.get());
    unsafe {
        let me = (*p).cur;
        match (*p).pick() {
            None => stop(),
            Some(next) if next != me => {
                let to = (&(*p).thr)[next].sp;
                let save = std::ptr::addr_of_mut!((&mut (*p).thr)[me].sp);
                mc_switch(save, to);
            }
            _ => {}
        }
    }
}

/// End the execution: switch to the main context for good.
fn stop() -> ! {
    let p: *mut Rt = RT.with(|r| r.get());
    unsafe {
        (*p).in_coroutine = false;
        let to = (*p).main_sp;
        let mut dummy = 0usize;
        mc_switch(&mut dummy, to);
    }
    unreachable!()
}

/// Declare an operation; returns once the scheduler lets this thread perform it.
fn point(kind: Kind, obj: u32, loc: &'static Location<'static>) {
    let r = rt();
    let t = r.cur;
    if !r.step() {
        stop();
    }
    r.thr[t].pending = Some(Pending { kind, obj, loc });
    schedule();
    let r = rt();
    let t = r.cur;
    r.thr[t].pending = None;
    if r.trace.is_some() {
        r.note(kind, obj, loc, "");
    }
}

// ---------------------------------------------------------------- operations used by the shims

#[track_caller]
pub fn lock(c: &ObjCell) {
    let o = c.get();
    point(Kind::Lock, o, Location::caller());
    acquire_write(o, Kind::Lock);
}

fn acquire_write(o: u32, kind: Kind) {
    let r = rt();
    let t = r.cur;
    let ob = &mut r.objs[o as usize];
    ob.writer = Some(t);
    let c = ob.clock;
    r.thr[t].clock.join(&c);
    r.record(kind, o, 0);
}

#[track_caller]
pub fn try_lock(c: &ObjCell) -> bool {
    let o = c.get();
    point(Kind::TryLock, o, Location::caller());
    let r = rt();
    let ob = &r.objs[o as usize];
    if ob.writer.is_some() || ob.readers.iter().any(|x| *x > 0) {
        r.record(Kind::TryLock, o, 1);
        false
    } else {
        acquire_write(o, Kind::TryLock);
        true
    }
}

pub fn unlock(c: &ObjCell) {
    let o = c.get();
    let r = rt();
    let t = r.cur;
    r.objs[o as usize].writer = None;
    release(o);
    let h = r.thr[t].hash;
    let ob = &mut r.objs[o as usize];
    ob.whash = mix(ob.whash, h);
}

fn release(o: u32) {
    let r = rt();
    let t = r.cur;
    let cl = r.thr[t].clock;
    r.objs[o as usize].clock.join(&cl);
    r.thr[t].clock.t[t] += 1;
}

#[track_caller]
pub fn write(c: &ObjCell) {
    let o = c.get();
    point(Kind::Write, o, Location::caller());
    acquire_write(o, Kind::Write);
}

#[track_caller]
pub fn read(c: &ObjCell) {
    let o = c.get();
    point(Kind::Read, o, Location::caller());
    acquire_read(o);
}

fn acquire_read(o: u32) {
    let r = rt();
    let t = r.cur;
    r.objs[o as usize].readers[t] += 1;
    let c = r.objs[o as usize].clock;
    r.thr[t].clock.join(&c);
    r.record(Kind::Read, o, 0);
}

#[track_caller]
pub fn try_read(c: &ObjCell) -> bool {
    let o = c.get();
    point(Kind::TryRead, o, Location::caller());
    if rt().objs[o as usize].writer.is_some() {
        rt().record(Kind::TryRead, o, 1);
        false
    } else {
        acquire_read(o);
        true
    }
}

pub fn unlock_read(c: &ObjCell) {
    let o = c.get();
    let r = rt();
    let t = r.cur;
    r.objs[o as usize].readers[t] -= 1;
    release(o);
    let h = r.thr[t].hash;
    let ob = &mut r.objs[o as usize];
    ob.rsum = ob.rsum.wrapping_add(mix(h, 99));
}

/// Turn a held write lock into a read lock.
pub fn downgrade(c: &ObjCell) {
    let o = c.get();
    let r = rt();
    let t = r.cur;
    r.objs[o as usize].writer = None;
    r.objs[o as usize].readers[t] += 1;
    release(o);
    r.record(Kind::Unlock, o, 0);
}

/// A write access to an object that needs no lock (channels, devices).
#[track_caller]
pub fn access(c: &ObjCell, kind: Kind) {
    let o = c.get();
    point(kind, o, Location::caller());
    let r = rt();
    let t = r.cur;
    let cl = r.objs[o as usize].clock;
    r.thr[t].clock.join(&cl);
    release(o);
    r.record(kind, o, 0);
}

pub fn yield_point() {
    if !active() {
        return;
    }
    let r = rt();
    let t = r.cur;
    r.thr[t].yielded = true;
    // any object will do: a yield conflicts with nothing
    if r.objs.is_empty() {
        r.new_obj();
    }
    point(Kind::Yield, 0, Location::caller());
    let r = rt();
    r.thr[t].yielded = false;
    r.thr[t].hash = mix(r.thr[t].hash, 5);
}

// Condition variables

#[track_caller]
pub fn cond_wait(cv: &ObjCell, mutex: &ObjCell) {
    // the caller has released the real lock
    let o = cv.get();
    unlock(mutex);
    let r = rt();
    r.objs[o as usize].notified = 0;
    point(Kind::CondWait, o, Location::caller());
    let r = rt();
    r.objs[o as usize].notified -= 1;
    let cl = r.objs[o as usize].clock;
    let t = r.cur;
    r.thr[t].clock.join(&cl);
    r.record(Kind::CondWait, o, 0);
    lock(mutex);
}

#[track_caller]
pub fn cond_notify(cv: &ObjCell, all: bool) {
    let o = cv.get();
    point(Kind::CondNotify, o, Location::caller());
    let r = rt();
    let waiting = r.thr.iter().filter(|t| matches!(t.pending, Some(p) if p.obj == o && p.kind == Kind::CondWait)).count() as u32;
    r.objs[o as usize].notified = if all { waiting } else { (r.objs[o as usize].notified + 1).min(waiting) };
    release(o);
    r.record(Kind::CondNotify, o, 0);
}

// One-time initialization

#[track_caller]
pub fn once_enter(c: &ObjCell) {
    let o = c.get();
    point(Kind::OnceInit, o, Location::caller());
    acquire_write(o, Kind::OnceInit);
}
pub fn once_exit(c: &ObjCell) {
    unlock(c);
}

// Atomics. `latest` is the value of the real atomic, which the model mirrors.

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ord2 {
    pub acq: bool,
    pub rel: bool,
    pub sc: bool,
}
impl Ord2 {
    pub fn of(o: std::sync::atomic::Ordering) -> Ord2 {
        use std::sync::atomic::Ordering::*;
        match o {
            Relaxed => Ord2 { acq: false, rel: false, sc: false },
            Acquire => Ord2 { acq: true, rel: false, sc: false },
            Release => Ord2 { acq: false, rel: true, sc: false },
            AcqRel => Ord2 { acq: true, rel: true, sc: false },
            _ => Ord2 { acq: true, rel: true, sc: true },
        }
    }
}

fn init_stores(o: u32, latest: u64) {
    let r = rt();
    if r.objs[o as usize].stores.is_empty() {
        let hash = r.objs[o as usize].name;
        if r.seen_slots < MAX_SEEN {
            r.objs[o as usize].seen_slot = r.seen_slots;
            r.seen_slots += 1;
        }
        r.objs[o as usize].stores.push(StoreRec { val: latest, tid: usize::MAX, epoch: 0, rel: None, hash });
    } else if r.objs[o as usize].stores.last().unwrap().val != latest {
        // written outside of the model (exclusive access): nobody can see older values
        let hash = mix(r.objs[o as usize].stores.last().unwrap().hash, latest);
        let n = r.objs[o as usize].stores.len() as u16;
        r.objs[o as usize].stores.push(StoreRec { val: latest, tid: usize::MAX, epoch: 0, rel: None, hash });
        let slot = r.objs[o as usize].seen_slot;
        if slot != usize::MAX {
            for t in r.thr.iter_mut() {
                t.clock.seen[slot] = n;
            }
        }
    }
}

#[track_caller]
pub fn atomic_load(c: &ObjCell, latest: impl Fn() -> u64, ord: Ord2) -> u64 {
    let o = c.get();
    point(Kind::Load, o, Location::caller());
    load_effect(o, latest(), ord, Location::caller())
}

fn load_effect(o: u32, latest: u64, ord: Ord2, loc: &'static Location<'static>) -> u64 {
    init_stores(o, latest);
    let r = rt();
    let t = r.cur;
    let ob = &r.objs[o as usize];
    let last = ob.stores.len() - 1;
    let mut idx = last;
    if !ord.sc && ob.seen_slot != usize::MAX && r.stale_used < r.cfg.stale {
        let cl = &r.thr[t].clock;
        let mut min = cl.seen[ob.seen_slot] as usize;
        for i in (min..=last).rev() {
            let s = &ob.stores[i];
            if s.tid == usize::MAX || s.tid == t || cl.t[s.tid] >= s.epoch {
                min = i;
                break;
            }
        }
        if min < last {
            let n = (last - min + 1) as u32;
            let pick = r.take_choice(ChoiceKind::Value, |v| v.extend(0..n), false, |_| 0);
            if r.diverged.is_some() {
                stop();
            }
            if pick > 0 {
                r.stale_used += 1;
            }
            idx = last - pick as usize;
            if pick > 0 && r.trace.is_some() {
                r.note(Kind::Load, o, loc, &format!("(stale value, {pick} behind)"));
            }
        }
    }
    let (val, hash, rel) = {
        let s = &r.objs[o as usize].stores[idx];
        (s.val, s.hash, s.rel)
    };
    if ord.acq {
        if let Some(c) = rel {
            r.thr[t].clock.join(&c);
        }
    }
    let slot = r.objs[o as usize].seen_slot;
    if slot != usize::MAX {
        r.thr[t].clock.seen[slot] = r.thr[t].clock.seen[slot].max(idx as u16);
    }
    if idx == last {
        r.record(Kind::Load, o, hash);
    } else {
        // reads from an older store: does not order against the newer ones
        r.thr[t].hash = mix(r.thr[t].hash, mix(r.objs[o as usize].name, hash));
    }
    val
}

fn store_effect(o: u32, kind: Kind, val: u64, ord: Ord2, rmw: bool) {
    let r = rt();
    let t = r.cur;
    if rmw {
        let rel = r.objs[o as usize].stores.last().unwrap().rel;
        if ord.acq {
            if let Some(c) = rel {
                r.thr[t].clock.join(&c);
            }
        }
    }
    r.record(kind, o, 0);
    let prev = r.objs[o as usize].stores.last().unwrap().rel;
    let n = r.objs[o as usize].stores.len();
    let slot = r.objs[o as usize].seen_slot;
    if slot != usize::MAX {
        r.thr[t].clock.seen[slot] = n as u16;
    }
    let mut rel = if ord.rel { Some(r.thr[t].clock) } else { None };
    if rmw {
        // release sequence
        if let Some(p) = prev {
            match rel.as_mut() {
                Some(x) => x.join(&p),
                None => rel = Some(p),
            }
        }
    }
    let epoch = r.thr[t].clock.t[t];
    let hash = r.objs[o as usize].whash;
    r.objs[o as usize].stores.push(StoreRec { val, tid: t, epoch, rel, hash });
    r.thr[t].clock.t[t] += 1;
}

#[track_caller]
pub fn atomic_store(c: &ObjCell, latest: impl Fn() -> u64, val: u64, ord: Ord2, real: impl FnOnce()) {
    let o = c.get();
    point(Kind::Store, o, Location::caller());
    init_stores(o, latest());
    real();
    store_effect(o, Kind::Store, val, ord, false);
}

/// `real` performs the operation on the real atomic; returns (result, new value if written).
#[track_caller]
pub fn atomic_rmw<R>(c: &ObjCell, latest: impl Fn() -> u64, ord: Ord2, fail: Ord2, real: impl FnOnce() -> (R, Option<u64>)) -> R {
    let o = c.get();
    point(Kind::Rmw, o, Location::caller());
    init_stores(o, latest());
    let (res, new) = real();
    match new {
        Some(v) => store_effect(o, Kind::Rmw, v, ord, true),
        None => {
            let r = rt();
            let t = r.cur;
            let (hash, rel) = {
                let s = r.objs[o as usize].stores.last().unwrap();
                (s.hash, s.rel)
            };
            if fail.acq {
                if let Some(c) = rel {
                    r.thr[t].clock.join(&c);
                }
            }
            r.record(Kind::CasFail, o, hash);
        }
    }
    res
}

pub fn fence() {
    // over-approximated by nothing: a fence is a scheduling point of its own
    yield_free_point(Kind::Fence);
}

#[track_caller]
fn yield_free_point(kind: Kind) {
    let r = rt();
    if r.objs.is_empty() {
        r.new_obj();
    }
    point(kind, 0, Location::caller());
    let r = rt();
    let t = r.cur;
    r.thr[t].hash = mix(r.thr[t].hash, 6);
}

// Reference counts, keyed by the address of the counted data.

fn arc_obj(addr: usize, count: u64) -> u32 {
    let r = rt();
    let i = match r.arcs.iter().find(|(a, _)| *a == addr) {
        Some((_, i)) => *i,
        None => {
            let i = r.new_obj();
            r.arcs.push((addr, i));
            i
        }
    };
    init_stores(i, count);
    i
}

const RLX: Ord2 = Ord2 { acq: false, rel: false, sc: false };
const REL: Ord2 = Ord2 { acq: false, rel: true, sc: false };
const ACQ: Ord2 = Ord2 { acq: true, rel: false, sc: false };

/// Before: declare; after: `arc_*_done` with the new count.
#[track_caller]
pub fn arc_point(addr: usize, count: u64, kind: Kind) {
    let o = arc_obj(addr, count);
    point(kind, o, Location::caller());
}
pub fn arc_written(addr: usize, before: u64, after: u64, kind: Kind) {
    let o = arc_obj(addr, before);
    let ord = match kind {
        Kind::ArcDrop => REL,
        Kind::ArcUpgrade => ACQ,
        _ => RLX,
    };
    store_effect(o, kind, after, ord, true);
    if kind == Kind::ArcDrop && after == 0 {
        // the last owner synchronizes with all the others before it destroys the data
        let r = rt();
        let t = r.cur;
        if let Some(c) = r.objs[o as usize].stores.last().unwrap().rel {
            r.thr[t].clock.join(&c);
        }
    }
}
#[track_caller]
pub fn arc_count(addr: usize, count: u64) -> u64 {
    let o = arc_obj(addr, count);
    load_effect(o, count, RLX, Location::caller())
}
pub fn arc_looked(addr: usize, count: u64) {
    let o = arc_obj(addr, count);
    rt().record(Kind::ArcCount, o, 0);
}
pub fn arc_gone(addr: usize) {
    let r = rt();
    r.arcs.retain(|(a, _)| *a != addr);
}

// ---------------------------------------------------------------- driver

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic: {msg} at {at}");
        if active() {
            let r = rt();
            r.violation = Some(format!("thread {} {text}", r.cur));
            stop();
        }
        LAST_PANIC.with(|p| p.set(Some(text)));
    }));
}

pub fn last_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.take())
}

/// One program: fresh shared state, thread bodies, and a check that runs after all have finished.
pub struct Run {
    pub threads: Vec<Box<dyn FnOnce()>>,
    /// Err: violation. Ok: a hash of the outcome.
    pub finish: Box<dyn FnOnce() -> Result<u64, String>>,
}

fn new_rt(cfg: &Config) -> Rt {
    Rt {
        cfg: cfg.clone(),
        objs: Vec::new(),
        arcs: Vec::new(),
        thr: Vec::new(),
        cur: 0,
        main_sp: 0,
        in_coroutine: false,
        choices: Vec::new(),
        depth: 0,
        free_run: false,
        replay_only: false,
        preempt_used: 0,
        stale_used: 0,
        steps: 0,
        seen_slots: 0,
        visited: Default::default(),
        transitions: 0,
        violation: None,
        diverged: None,
        diverged_execs: 0,
        fair: false,
        trace: None,
    }
}

#[inline(never)]
fn enter() {
    let p: *mut Rt = RT.with(|r| r.get());
    unsafe {
        let to = (&(*p).thr)[(*p).cur].sp;
        let save = std::ptr::addr_of_mut!((*p).main_sp);
        mc_switch(save, to);
    }
}

/// Execute once, following `r.choices` as far as they go.
/// The number of executions and steps so far, for whoever watches for executions that do not end.
pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static CURRENT: std::sync::atomic::AtomicPtr<Rt> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// The schedule of an execution that makes no progress.
///
/// # Safety
/// The thread that explores must be stuck in an execution.
pub unsafe fn stuck_schedule() -> Vec<u32> {
    let r = CURRENT.load(StdRelaxed);
    if r.is_null() {
        return vec![];
    }
    let r = &*r;
    r.choices[..r.depth.min(r.choices.len())].iter().map(|c| c.cur as u32 | if c.kind == ChoiceKind::Value { VALUE } else { 0 }).collect()
}

fn run_once(r: &mut Rt, make: &dyn Fn() -> Run) -> Result<u64, String> {
    PROGRESS.fetch_add(1, StdRelaxed);
    CURRENT.store(r, StdRelaxed);
    let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(make));
    let run = match made {
        Ok(x) => x,
        Err(_) => return Err(format!("in the sequential setup: {}", last_panic().unwrap_or_default())),
    };
    let e = EPOCH.fetch_add(1, StdRelaxed);
    CUR_EPOCH.with(|c| c.set(e));
    r.objs.clear();
    r.arcs.clear();
    r.thr.clear();
    r.depth = 0;
    r.free_run = false;
    r.preempt_used = 0;
    r.stale_used = 0;
    r.steps = 0;
    r.seen_slots = 0;
    r.violation = None;
    r.fair = false;
    let n = run.threads.len();
    assert!(n <= MAX_THREADS);
    for (i, body) in run.threads.into_iter().enumerate() {
        let mut clock = Clock::ZERO;
        clock.t[i] = 1;
        r.thr.push(Thr {
            sp: prepare_stack(i),
            hash: i as u64 + 1,
            clock,
            names: 0,
            pending: None,
            finished: false,
            yielded: false,
            body: Some(body),
        });
    }
    // all threads wait at their start
    r.cur = 0;
    r.new_obj();
    let here = Location::caller();
    for t in 0..n {
        r.thr[t].pending = Some(Pending { kind: Kind::Start, obj: 0, loc: here });
    }
    // the first choice: which thread starts (free of preemption cost)
    RT.with(|c| c.set(r as *mut Rt));
    let first = if n > 1 {
        r.take_choice(ChoiceKind::Thread, |v| v.extend(0..n as u32), false, |x| x.key(usize::MAX >> 40)) as usize
    } else {
        0
    };
    r.cur = first;
    r.in_coroutine = true;
    enter();
    let r = rt();
    r.in_coroutine = false;
    RT.with(|c| c.set(std::ptr::null_mut()));
    if let Some(v) = r.violation.take() {
        std::mem::forget(run.finish);
        return Err(v);
    }
    if r.diverged.is_some() {
        std::mem::forget(run.finish);
        return Err("diverged".into());
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(run.finish)) {
        Ok(x) => x,
        Err(_) => Err(format!("after all threads finished: {}", last_panic().unwrap_or_default())),
    }
}

/// Explore all schedules of the program within the bounds of `cfg`.
pub fn explore(cfg: &Config, make: &dyn Fn() -> Run) -> Result<Stats, String> {
    let mut r = Box::new(new_rt(cfg));
    let mut st = Stats::default();
    let mut outcomes: HashSet<u64> = HashSet::new();
    loop {
        st.execs += 1;
        let res = run_once(&mut r, make);
        st.diverged = r.diverged_execs;
        if st.diverged > 1000 {
            return Err("the program is not deterministic".into());
        }
        st.max_points = st.max_points.max(r.steps);
        if r.fair {
            st.livelocks_skipped += 1;
        }
        match res {
            Ok(h) => {
                outcomes.insert(h);
            }
            Err(message) => {
                let schedule: Vec<u32> = r.choices[..r.depth.min(r.choices.len())].iter().map(|c| c.cur as u32 | if c.kind == ChoiceKind::Value { VALUE } else { 0 }).collect();
                st.violation = Some(Violation { message, schedule });
                break;
            }
        }
        // backtrack
        let mut more = false;
        while let Some(c) = r.choices.last_mut() {
            if c.cur + 1 < c.alts.len() {
                c.cur += 1;
                more = true;
                break;
            }
            r.choices.pop();
        }
        if !more {
            st.complete = true;
            break;
        }
        if st.execs >= cfg.max_execs {
            break;
        }
        if st.execs & 63 == 0 {
            if let Some(d) = cfg.deadline {
                if std::time::Instant::now() >= d {
                    break;
                }
            }
        }
    }
    st.states = r.visited.len() as u64;
    st.transitions = r.transitions;
    st.outcomes = outcomes.len() as u64;
    if st.violation.is_some() {
        // coroutines of the failed execution are never resumed; their memory is leaked on purpose
        std::mem::forget(r);
    }
    Ok(st)
}

/// Execute one schedule; returns its result and a trace of its operations.
pub fn replay(cfg: &Config, make: &dyn Fn() -> Run, schedule: &[u32]) -> Result<(Result<u64, String>, Vec<String>), String> {
    let mut r = Box::new(new_rt(cfg));
    r.trace = Some(Vec::new());
    r.choices = schedule
        .iter()
        .map(|c| Choice {
            kind: if c & VALUE != 0 { ChoiceKind::Value } else { ChoiceKind::Thread },
            alts: Vec::new(),
            cur: (c & !VALUE) as usize,
        })
        .collect();
    r.replay_only = true;
    let res = run_once(&mut r, make);
    if let Some(d) = r.diverged.take() {
        return Err(d);
    }
    let trace = r.trace.take().unwrap_or_default();
    if res.is_err() {
        std::mem::forget(r);
    }
    Ok((res, trace))
}

/// Marks a choice of a value (rather than of a thread) in a schedule.
pub const VALUE: u32 = 1 << 16;
