//! Histories of asynchronous reads from a wgpu buffer: requests to map the staging buffer are
//! answered at any time and in any order, or fail, or are never answered because the device is
//! gone; the futures are polled, or dropped, at any time; and the slab goes on changing.

use crate::rt::*;
use craballoc::prelude::*;
use craballoc::runtime::WgpuRuntime;
use std::collections::HashSet;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use wgpu::McFate;

const SLOTS: usize = 2;

/// What is read.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum What {
    All,
    Mid,
    Arr,
    Nil,
    One,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Start(usize),
    /// what becomes of all requests while the read is polled
    Poll(usize, Option<McFate>),
    Cancel(usize),
    /// answer the n-th request that has not been answered
    Map(usize, McFate),
    Set,
    Commit,
    Grow,
}

fn text(e: E) -> String {
    let f = |f: McFate| match f {
        McFate::Mapped => "m",
        McFate::Failed => "f",
        McFate::Lost => "l",
    };
    match e {
        E::Start(i) => format!("S{i}"),
        E::Poll(i, x) => format!("P{i}{}", x.map_or("", f)),
        E::Cancel(i) => format!("C{i}"),
        E::Map(i, x) => format!("M{i}{}", f(x)),
        E::Set => "U".into(),
        E::Commit => "W".into(),
        E::Grow => "G".into(),
    }
}

fn parse(s: &str) -> Option<E> {
    let mut c = s.chars();
    let k = c.next()?;
    let i = c.next().and_then(|c| c.to_digit(10)).unwrap_or(0) as usize;
    let f = match c.next() {
        Some('m') => Some(McFate::Mapped),
        Some('f') => Some(McFate::Failed),
        Some('l') => Some(McFate::Lost),
        _ => None,
    };
    Some(match k {
        'S' => E::Start(i),
        'P' => E::Poll(i, f),
        'C' => E::Cancel(i),
        'M' => E::Map(i, f?),
        'U' => E::Set,
        'W' => E::Commit,
        'G' => E::Grow,
        _ => return None,
    })
}

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

type Fut = Pin<Box<dyn Future<Output = Result<Vec<u32>, String>>>>;

struct Read {
    fut: Option<Fut>,
    what: What,
    polled: bool,
    /// the words there were at some time since the start
    seen: Vec<Vec<u32>>,
    pending: Vec<usize>,
    failed: bool,
    waker: Arc<Count>,
    /// how often it had been woken when it was last polled
    wakes: usize,
}

/// What is read by the slots, and how far to go.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub what: [What; SLOTS],
    pub depth: usize,
}

struct W {
    rt: WgpuRuntime,
    alloc: SlabAllocator<WgpuRuntime>,
    one: Hybrid<u32>,
    arr: HybridArray<(u32, u32)>,
    more: Vec<HybridArray<u32>>,
    what: [What; SLOTS],
    slots: [Option<Read>; SLOTS],
    stamp: u32,
    words: usize,
}

fn err<T>(m: String) -> Result<T, String> {
    Err(m)
}

impl W {
    fn new(what: [What; SLOTS]) -> W {
        let rt = <WgpuRuntime as Rt>::make();
        let alloc = SlabAllocator::new(&rt, wgpu::BufferUsages::empty());
        let one = alloc.new_value(1u32);
        let arr = alloc.new_array([(2u32, 3u32), (4, 5)]);
        alloc.commit();
        W { rt, alloc, one, arr, more: vec![], what, slots: [None, None], stamp: 9, words: 5 }
    }

    fn enabled(&self) -> Vec<E> {
        let mut v = vec![];
        let pending = self.rt.device.mc_pending_maps().len();
        for (i, s) in self.slots.iter().enumerate() {
            match s {
                // the first one first
                None => {
                    if i == 0 || self.slots[0].is_some() || self.what[0] != self.what[1] {
                        v.push(E::Start(i))
                    }
                }
                Some(_) => {
                    v.push(E::Poll(i, None));
                    for f in [McFate::Mapped, McFate::Failed, McFate::Lost] {
                        v.push(E::Poll(i, Some(f)));
                    }
                    v.push(E::Cancel(i));
                }
            }
        }
        for k in 0..pending.min(3) {
            for f in [McFate::Mapped, McFate::Failed, McFate::Lost] {
                v.push(E::Map(k, f));
            }
        }
        v.push(E::Set);
        v.push(E::Commit);
        if self.more.len() < 2 {
            v.push(E::Grow);
        }
        v
    }

    fn snapshot(&self, what: What) -> Vec<u32> {
        let b = self.alloc.get_buffer().expect("a buffer");
        let w = <WgpuRuntime as Rt>::words(&b);
        let a = self.arr.array();
        match what {
            What::All => w[..self.words].to_vec(),
            What::Mid => w[1..4].to_vec(),
            What::Arr => w[a.index as usize..a.index as usize + 4].to_vec(),
            What::Nil => vec![],
            What::One => vec![w[0]],
        }
    }

    fn see(&mut self) {
        for i in 0..SLOTS {
            if let Some(what) = self.slots[i].as_ref().map(|s| s.what) {
                let w = self.snapshot(what);
                let s = self.slots[i].as_mut().unwrap();
                if s.seen.last() != Some(&w) {
                    s.seen.push(w);
                }
            }
        }
    }

    fn answered(&mut self, ids: &[usize], fate: McFate) -> Result<(), String> {
        for (i, s) in self.slots.iter_mut().enumerate() {
            let Some(s) = s else { continue };
            let had = !s.pending.is_empty();
            s.pending.retain(|m| !ids.contains(m) || {
                s.failed |= fate != McFate::Mapped;
                false
            });
            if had && s.pending.is_empty() && s.waker.0.load(Ordering::SeqCst) == s.wakes {
                return err(format!("read {i} is not woken when its buffer has been mapped, or mapping it failed"));
            }
        }
        Ok(())
    }

    fn step(&mut self, e: E) -> Result<(), String> {
        let dev = self.rt.device.clone();
        match e {
            E::Start(i) => {
                let what = self.what[i];
                let a = self.alloc.clone();
                let arr = self.arr.array();
                let fut: Fut = match what {
                    What::All => Box::pin(async move { a.read(..).await.map_err(|e| e.to_string()) }),
                    What::Mid => Box::pin(async move { a.read(1..4).await.map_err(|e| e.to_string()) }),
                    What::Nil => Box::pin(async move { a.read(2..2).await.map_err(|e| e.to_string()) }),
                    What::One => Box::pin(async move { a.read(..=0).await.map_err(|e| e.to_string()) }),
                    What::Arr => Box::pin(async move {
                        let v = a.read_array(arr).await.map_err(|e| e.to_string())?;
                        Ok(v.into_iter().flat_map(|(x, y)| [x, y]).collect())
                    }),
                };
                let seen = vec![self.snapshot(what)];
                self.slots[i] = Some(Read { fut: Some(fut), what, polled: false, seen, pending: vec![], failed: false, waker: Arc::new(Count(AtomicUsize::new(0))), wakes: 0 });
            }
            E::Poll(i, fate) => {
                dev.mc_on_poll(fate);
                let before: Vec<usize> = dev.mc_pending_maps();
                let first = dev.mc_maps();
                let s = self.slots[i].as_mut().expect("slot");
                s.polled = true;
                s.wakes = s.waker.0.load(Ordering::SeqCst);
                let waker = Waker::from(s.waker.clone());
                let r = s.fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker));
                let after = dev.mc_pending_maps();
                let issued: Vec<usize> = (first..dev.mc_maps()).collect();
                if issued.iter().any(|m| !after.contains(m)) {
                    s.failed |= fate != Some(McFate::Mapped);
                }
                s.pending.extend(issued.iter().filter(|m| after.contains(m)));
                // of other reads and of this one, if it had asked before
                let gone: Vec<usize> = before.into_iter().filter(|m| !after.contains(m)).collect();
                if let (false, Some(f)) = (gone.is_empty(), fate) {
                    // whoever has just been polled needs no waking if it is ready now
                    if r.is_ready() {
                        let s = self.slots[i].as_mut().unwrap();
                        if s.pending.iter().any(|m| gone.contains(m)) {
                            s.failed |= f != McFate::Mapped;
                        }
                        s.pending.retain(|m| !gone.contains(m));
                    }
                    self.answered(&gone, f)?;
                }
                let s = self.slots[i].as_mut().unwrap();
                match r {
                    Poll::Ready(Ok(v)) => {
                        if s.failed || !s.pending.is_empty() {
                            return err(format!("read {i} succeeded with {v:?} although its buffer has not been mapped"));
                        }
                        if !s.seen.contains(&v) {
                            return err(format!("read {i} returned {v:?}; since it started there was {:?}", s.seen));
                        }
                        self.slots[i] = None;
                    }
                    Poll::Ready(Err(e)) => {
                        if !s.failed {
                            return err(format!("read {i} failed with `{e}` although nothing had failed"));
                        }
                        self.slots[i] = None;
                    }
                    Poll::Pending => {
                        // it may have been woken in the meantime, and not been able to do anything yet
                        let woken = s.waker.0.load(Ordering::SeqCst) > s.wakes;
                        if s.pending.is_empty() && !woken {
                            return err(format!("read {i} is pending although nothing is left to wait for"));
                        }
                    }
                }
            }
            E::Cancel(i) => drop(self.slots[i].take()),
            E::Map(k, fate) => {
                let id = dev.mc_pending_maps()[k];
                dev.mc_map(id, fate);
                self.answered(&[id], fate)?;
            }
            E::Set => {
                self.stamp += 3;
                let n = self.stamp;
                self.one.set(n);
                self.arr.set_item(0, (n + 1, n + 2));
            }
            E::Commit => {
                self.alloc.commit();
                self.see();
            }
            E::Grow => {
                let n = 8 << self.more.len();
                self.more.push(self.alloc.new_array(vec![7; n]));
                self.alloc.commit();
                self.words += n;
                self.see();
            }
        }
        if !dev.mc_errors().is_empty() {
            return err(format!("wgpu reports {:?}", dev.mc_errors()));
        }
        Ok(())
    }

    fn finish(mut self) -> Result<(), String> {
        let dev = self.rt.device.clone();
        // everything is answered in the end
        while let Some(_m) = dev.mc_pending_maps().first() {
            self.step(E::Map(0, McFate::Mapped))?;
        }
        for i in 0..SLOTS {
            for k in 0.. {
                if self.slots[i].is_none() {
                    break;
                }
                if k == 20 {
                    return err(format!("read {i} does not end"));
                }
                self.step(E::Poll(i, Some(McFate::Mapped)))?;
            }
        }
        if dev.mc_live_buffers() != 1 {
            return err(format!("{} buffers are left behind", dev.mc_live_buffers() - 1));
        }
        // and the slab is as good as ever
        self.step(E::Set)?;
        self.step(E::Commit)?;
        for what in [What::All, What::Arr] {
            self.what[0] = what;
            self.step(E::Start(0))?;
            self.step(E::Poll(0, Some(McFate::Mapped)))?;
            for _ in 0..3 {
                if self.slots[0].is_some() {
                    self.step(E::Poll(0, Some(McFate::Mapped)))?;
                }
            }
            if self.slots[0].is_some() {
                return err("a read does not end".into());
            }
        }
        drop(self);
        if dev.mc_live_buffers() != 0 {
            return err(format!("{} buffers are left behind", dev.mc_live_buffers()));
        }
        Ok(())
    }

    fn hash(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let maps = self.rt.device.mc_pending_maps();
        for s in &self.slots {
            s.as_ref().map(|s| {
                let p: Vec<usize> = s.pending.iter().filter_map(|m| maps.iter().position(|x| x == m)).collect();
                let now = self.snapshot(s.what);
                (s.polled, p, s.failed, s.seen.len(), s.seen.last() == Some(&now), s.waker.0.load(Ordering::SeqCst) > s.wakes)
            })
            .hash(&mut h);
        }
        (maps.len(), self.more.len(), self.alloc.has_queued_updates(), self.what).hash(&mut h);
        h.finish()
    }
}

#[derive(Default)]
struct Stats {
    histories: u64,
    steps: u64,
    states: HashSet<u64>,
    sample: String,
}

type Path = Vec<(u16, u16, E)>;

/// Follows `path`, extends it to `depth`; or plays `fixed`.
fn play(cfg: &Cfg, path: &mut Path, fixed: Option<&[E]>, new: usize, st: &mut Stats) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let mut w = std::mem::ManuallyDrop::new(W::new(cfg.what));
        let n = fixed.map_or(cfg.depth, |f| f.len());
        for k in 0..n {
            let e = match fixed {
                Some(f) => f[k],
                None => {
                    let en = w.enabled();
                    if k >= path.len() {
                        path.push((0, en.len() as u16, en[0]));
                    } else {
                        path[k].2 = en[path[k].0 as usize];
                    }
                    path[k].2
                }
            };
            w.step(e)?;
            if k >= new {
                st.steps += 1;
                st.states.insert(w.hash());
            }
        }
        std::mem::ManuallyDrop::into_inner(w).finish()
    }));
    match r {
        Ok(x) => x,
        Err(_) => Err(format!("panicked: {}", crate::panic_message())),
    }
}

fn advance(path: &mut Path, keep: usize) -> bool {
    while path.len() > keep {
        let c = path.last_mut().unwrap();
        if c.0 + 1 < c.1 {
            c.0 += 1;
            return true;
        }
        path.pop();
    }
    false
}

fn hist(h: &[E]) -> String {
    h.iter().map(|e| text(*e)).collect::<Vec<_>>().join(" ")
}

pub fn configs(thorough: bool) -> Vec<Cfg> {
    use What::*;
    let d = if thorough { 8 } else { 7 };
    let mut v = vec![
        Cfg { what: [All, Arr], depth: d },
        Cfg { what: [Mid, Mid], depth: d },
        Cfg { what: [Arr, One], depth: d },
        Cfg { what: [Nil, All], depth: d - 1 },
    ];
    if thorough {
        v.extend([Cfg { what: [All, All], depth: d - 1 }, Cfg { what: [Arr, Arr], depth: d - 1 }, Cfg { what: [One, Mid], depth: d - 1 }, Cfg { what: [Nil, Arr], depth: d - 1 }]);
    }
    v
}

/// Returns what to report as coverage, and a failing history with what failed.
pub fn check(thorough: bool, shallow: bool, note: &(dyn Fn(usize, &str) + Sync), runs: &[AtomicU64]) -> (String, Option<(String, String)>) {
    let t0 = std::time::Instant::now();
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let found: Mutex<Vec<(Cfg, Vec<E>, String)>> = Mutex::new(vec![]);
    let mut bounds = vec![];
    for mut cfg in configs(thorough) {
        if shallow {
            cfg.depth -= 1;
        }
        // prefixes of two choices
        let mut tasks = vec![];
        let short = Cfg { depth: 2, ..cfg.clone() };
        let mut path = vec![];
        loop {
            note(0, &format!("{:?} | {}", cfg.what, hist(&path.iter().map(|p: &(u16, u16, E)| p.2).collect::<Vec<_>>())));
            runs[0].fetch_add(1, Ordering::Relaxed);
            if let Err(m) = play(&short, &mut path, None, 9, &mut Stats::default()) {
                found.lock().unwrap().push((cfg.clone(), path.iter().map(|p| p.2).collect(), m));
                break;
            }
            tasks.push(path.clone());
            if !advance(&mut path, 0) {
                break;
            }
        }
        runs[0].store(0, Ordering::Relaxed);
        if !found.lock().unwrap().is_empty() {
            break;
        }
        let next = AtomicUsize::new(0);
        let before = total.lock().unwrap().histories;
        std::thread::scope(|s| {
            for w in 0..workers {
                let (tasks, next, stop, total, found, cfg) = (&tasks, &next, &stop, &total, &found, &cfg);
                s.spawn(move || {
                    let mut st = Stats::default();
                    while !stop.load(Ordering::Relaxed) {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        let Some(t) = tasks.get(k) else { break };
                        let mut path = t.clone();
                        let mut new = 0;
                        loop {
                            note(w, &format!("{:?} | {}", cfg.what, hist(&path.iter().map(|p| p.2).collect::<Vec<_>>())));
                            runs[w].fetch_add(1, Ordering::Relaxed);
                            if let Err(m) = play(cfg, &mut path, None, new, &mut st) {
                                found.lock().unwrap().push((cfg.clone(), path.iter().map(|p| p.2).collect(), m));
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                            st.histories += 1;
                            if st.histories == 100 {
                                st.sample = format!("{:?} | {}", cfg.what, hist(&path.iter().map(|p| p.2).collect::<Vec<_>>()));
                            }
                            if stop.load(Ordering::Relaxed) || !advance(&mut path, t.len()) {
                                break;
                            }
                            new = path.len() - 1;
                        }
                    }
                    runs[w].store(0, Ordering::Relaxed);
                    let mut g = total.lock().unwrap();
                    g.histories += st.histories;
                    g.steps += st.steps;
                    g.states.extend(st.states);
                    if g.sample.is_empty() {
                        g.sample = st.sample;
                    }
                });
            }
        });
        bounds.push(format!("\"reads {:?} of one wgpu slab, {} events, histories={}\"", cfg.what, cfg.depth, total.lock().unwrap().histories - before));
        if stop.load(Ordering::Relaxed) {
            break;
        }
    }
    let found = found.into_inner().unwrap();
    let g = total.into_inner().unwrap();
    let mut worst = None;
    if let Some((cfg, h, m)) = found.into_iter().min_by_key(|f| f.1.len()) {
        let (h, m) = shrink(&cfg, h, m);
        worst = Some((format!("{:?} | {}", cfg.what, hist(&h)), m));
    }
    let cov = format!(
        "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":true,\"bounds\":[{}],\"samples\":[\"{}\"],\"wall_ms\":{}}}",
        g.states.len(),
        g.steps,
        g.histories,
        bounds.join(","),
        g.sample,
        t0.elapsed().as_millis()
    );
    println!("{} histories, {} states, {} transitions in {:.1} s", g.histories, g.states.len(), g.steps, t0.elapsed().as_secs_f64());
    (cov, worst)
}

fn valid(cfg: &Cfg, h: &[E]) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let mut w = std::mem::ManuallyDrop::new(W::new(cfg.what));
        h.iter().all(|e| w.enabled().contains(e) && w.step(*e).is_ok())
    }))
    .unwrap_or(true)
}

fn shrink(cfg: &Cfg, mut h: Vec<E>, mut m: String) -> (Vec<E>, String) {
    'again: loop {
        for k in 0..h.len() {
            let mut g = h.clone();
            g.remove(k);
            // the failure may lie in the last step
            if !g.is_empty() && !valid(cfg, &g[..g.len() - 1]) {
                continue;
            }
            if let Err(x) = play(cfg, &mut vec![], Some(&g), 99, &mut Stats::default()) {
                if x.starts_with("panicked") == m.starts_with("panicked") && !x.contains("a pending request") && !x.contains("slot") {
                    (h, m) = (g, x);
                    continue 'again;
                }
            }
        }
        return (h, m);
    }
}

pub fn replay(line: &str) -> i32 {
    let (what, h) = line.split_once('|').expect("a history");
    let what: Vec<What> = what
        .trim()
        .trim_matches(&['[', ']'][..])
        .split(", ")
        .map(|w| [What::All, What::Mid, What::Arr, What::Nil, What::One].into_iter().find(|x| format!("{x:?}") == w).expect("what to read"))
        .collect();
    let h: Vec<E> = h.split_whitespace().map(|s| parse(s).expect("an event")).collect();
    let cfg = Cfg { what: [what[0], what[1]], depth: h.len() };
    println!("{:?} | {}", cfg.what, hist(&h));
    match play(&cfg, &mut vec![], Some(&h), 0, &mut Stats::default()) {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("{m}");
            1
        }
    }
}
