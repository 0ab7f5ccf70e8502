//! Exhaustive exploration of histories of operations on craballoc.
//!
//! seq check PROPERTY TIER REPLAY_DIR OUT.json CURRENT_FILE
//! seq replay FILE
//! seq digest TIER            (outcomes of histories, to compare configurations)
//! seq digest-one N TIER

mod handle;
#[cfg(feature = "wgpu")]
mod reads;
mod rt;
mod sets;
mod world;

use rt::*;
use sets::*;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use world::*;

// ---- memory held by the current thread

struct Counting;
thread_local! {
    static NET: Cell<isize> = const { Cell::new(0) };
    static MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            let _ = NET.try_with(|n| n.set(n.get() + l.size() as isize));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = NET.try_with(|n| n.set(n.get() - l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        let p = std::alloc::System.alloc_zeroed(l);
        if !p.is_null() {
            let _ = NET.try_with(|n| n.set(n.get() + l.size() as isize));
        }
        p
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

pub fn panic_message() -> String {
    MSG.with(|m| std::mem::take(&mut *m.borrow_mut()))
}

// ---- what each worker is doing, in a file that survives a crash

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const SLOT: usize = 1024;
static SLOTS: AtomicUsize = AtomicUsize::new(0);
static RUNS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

fn map_slots(file: Option<&str>) {
    use std::os::fd::AsRawFd;
    let p = match file {
        Some(f) => {
            let f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(f).expect("current file");
            f.set_len((64 * SLOT) as u64).unwrap();
            unsafe { mmap(std::ptr::null_mut(), 64 * SLOT, 3, 1, f.as_raw_fd(), 0) }
        }
        None => Box::leak(vec![0u8; 64 * SLOT].into_boxed_slice()).as_mut_ptr(),
    };
    assert!(p as isize != -1);
    SLOTS.store(p as usize, Ordering::SeqCst);
}

fn slot(i: usize) -> *mut u8 {
    (SLOTS.load(Ordering::Relaxed) + i * SLOT) as *mut u8
}

fn slot_write(i: usize, parts: &[&[u8]]) {
    let p = slot(i);
    let mut at = 0;
    for x in parts {
        let n = x.len().min(SLOT - 1 - at);
        unsafe { std::ptr::copy_nonoverlapping(x.as_ptr(), p.add(at), n) };
        at += n;
    }
    unsafe { *p.add(at) = 0 };
}

fn slot_read(i: usize) -> String {
    let s = unsafe { std::slice::from_raw_parts(slot(i), SLOT) };
    String::from_utf8_lossy(&s[..s.iter().position(|b| *b == 0).unwrap_or(SLOT)]).into_owned()
}

/// Formats what is logged, as a logger would.
struct Format;
impl log::Log for Format {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Sink;
        impl std::fmt::Write for Sink {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::Write::write_fmt(&mut Sink, *r.args());
    }
    fn flush(&self) {}
}

fn logging(on: bool) {
    let _ = log::set_logger(&Format);
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

// ---- one history

#[derive(Clone, Copy)]
pub struct Choice {
    pick: u16,
    of: u16,
    op: Op,
}

struct Found {
    msg: String,
    hist: Vec<Op>,
}

struct Outcome {
    steps: usize,
    checked: usize,
    hashes: [u64; 24],
    digest: u64,
}

fn fnv(h: &mut u64, s: &str) {
    for b in s.bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
    }
}

/// Either follows `path` and extends it to `depth` with first choices, or plays `fixed`.
fn play<R: Rt>(
    set: &Set,
    active: u32,
    init: &[Op],
    path: &mut Vec<Choice>,
    fixed: Option<&[Op]>,
    check_from: usize,
    finish: bool,
    trace: bool,
) -> Result<(Outcome, Vec<String>), Found> {
    let mut out = Outcome { steps: 0, checked: 0, hashes: [0; 24], digest: 0xcbf29ce484222325 };
    let mut done: usize = 0;
    let mut fin = false;
    let mut lines = vec![];
    let reverse = path.len() % 2 == 1;
    let before = NET.with(|n| n.get());
    let r = {
        let mut w: std::mem::ManuallyDrop<World<R>> = std::mem::ManuallyDrop::new(World::<R>::new(active, set.variant, set.label, trace));
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Fail> {
            for (k, o) in init.iter().enumerate() {
                // of a very long one, the beginning and the end
                let here = k < 500 || k + 3 >= init.len();
                w.step(*o, here && (check_from == 0 || trace))?;
            }
            let n = fixed.map_or(set.depth, |f| f.len());
            for k in 0..n {
                let op = match fixed {
                    Some(f) => f[k],
                    None => {
                        if k >= path.len() {
                            let en = w.enabled(&set.ops, &set.limits);
                            if en.is_empty() {
                                break;
                            }
                            path.push(Choice { pick: 0, of: en.len() as u16, op: en[0] });
                        } else if path[k].op.h == u16::MAX {
                            // picked a new alternative: find out which operation that is
                            let en = w.enabled(&set.ops, &set.limits);
                            path[k].op = en[path[k].pick as usize];
                        }
                        path[k].op
                    }
                };
                done = k + 1;
                out.steps += 1;
                let check = k >= check_from;
                w.step(op, check)?;
                if check {
                    out.checked += 1;
                    out.hashes[k.min(23)] = w.hash();
                }
            }
            Ok(())
        }));
        match r {
            Ok(Ok(())) => {
                let w = std::mem::ManuallyDrop::into_inner(w);
                fin = true;
                let mut w = w;
                lines = w.trace.take().unwrap_or_default();
                if trace {
                    w.trace = Some(vec![]);
                }
                catch_unwind(AssertUnwindSafe(|| w.finish(finish, reverse)))
            }
            r => r,
        }
    };
    let net = NET.with(|n| n.get()) - before;
    let hist = |path: &Vec<Choice>| -> Vec<Op> {
        let ops: Vec<Op> = match fixed {
            Some(f) => f.to_vec(),
            None => path.iter().map(|c| c.op).collect(),
        };
        ops[..if fin { ops.len() } else { done.min(ops.len()) }].to_vec()
    };
    match r {
        Ok(Ok(())) => {}
        Ok(Err(f)) => {
            return Err(Found { msg: if fin { format!("{} (after committing, and then dropping and committing everything)", f.msg) } else { f.msg }, hist: hist(path) })
        }
        Err(_) => {
            let m = MSG.with(|m| std::mem::take(&mut *m.borrow_mut()));
            return Err(Found { msg: format!("panicked: {m}{}", if fin { " (while committing, and then dropping and committing everything)" } else { "" }), hist: hist(path) });
        }
    }
    if active & C21 != 0 && !trace && net > 0 && check_from > 0 {
        return Err(Found { msg: format!("{net} bytes are still allocated after the allocator and all handles have been dropped"), hist: hist(path) });
    }
    if trace {
        for l in &lines {
            fnv(&mut out.digest, l);
        }
    }
    Ok((out, lines))
}

fn lockstep(set: &Set, active: u32, init: &[Op], path: &mut Vec<Choice>, fixed: Option<&[Op]>, check_from: usize) -> Result<Outcome, Found> {
    #[cfg(feature = "wgpu")]
    {
        use craballoc::runtime::WgpuRuntime;
        let (out, a) = play::<Cpu>(set, active, init, path, fixed, check_from, true, true)?;
        let ops: Vec<Op> = match fixed {
            Some(f) => f.to_vec(),
            None => path.iter().map(|c| c.op).collect(),
        };
        let (_, b) = play::<WgpuRuntime>(set, active, init, &mut vec![], Some(&ops), check_from, true, true)?;
        // `read` notes are the same in both
        if a != b {
            let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return Err(Found {
                msg: format!(
                    "the backends differ: on the CPU `{}`, with wgpu `{}`",
                    a.get(k).map_or("", |s| s.as_str()),
                    b.get(k).map_or("", |s| s.as_str())
                ),
                hist: ops,
            });
        }
        Ok(out)
    }
    #[cfg(not(feature = "wgpu"))]
    {
        let _ = (set, active, init, path, fixed, check_from);
        unreachable!()
    }
}

fn one(set: &Set, active: u32, init: &[Op], path: &mut Vec<Choice>, fixed: Option<&[Op]>, check_from: usize) -> Result<Outcome, Found> {
    match set.rt {
        RtKind::Cpu => play::<Cpu>(set, active, init, path, fixed, check_from, true, false).map(|x| x.0),
        #[cfg(feature = "wgpu")]
        RtKind::Wgpu => play::<craballoc::runtime::WgpuRuntime>(set, active, init, path, fixed, check_from, true, false).map(|x| x.0),
        RtKind::Both => lockstep(set, active, init, path, fixed, check_from),
        #[cfg(not(feature = "wgpu"))]
        _ => unreachable!(),
    }
}

// ---- all histories

#[derive(Default)]
struct Stats {
    histories: u64,
    transitions: u64,
    states: HashSet<u64>,
    sample: Option<String>,
}

fn set_text(set: &Set) -> String {
    format!("{} {} {} | {} |", set.rt.text(), set.variant, set.label as u8 + 2 * set.log as u8, set.init)
}

/// Advance to the next history in order; false at the end. Choices below `keep` are fixed.
fn advance(path: &mut Vec<Choice>, keep: usize) -> bool {
    while path.len() > keep {
        let c = path.last_mut().unwrap();
        if c.pick + 1 < c.of {
            c.pick += 1;
            c.op.h = u16::MAX;
            return true;
        }
        path.pop();
    }
    false
}

fn explore(prop_active: u32, set: &Set, stop: &AtomicBool, stats: &Mutex<Stats>, found: &Mutex<Vec<(String, Found)>>, workers: usize) {
    let init = hist_parse(&set.init);
    let head = set_text(set);
    logging(set.log);
    // prefixes of two choices
    let mut tasks: Vec<Vec<Choice>> = vec![];
    {
        let short = Set { depth: set.depth.min(2), ..set.clone() };
        let mut path = Vec::with_capacity(64);
        let mut from = 0;
        let mut warm = false;
        loop {
            slot_write(0, &[head.as_bytes(), b" prefix"]);
            RUNS[0].fetch_add(1, Ordering::Relaxed);
            let r = one(&short, prop_active, &init, &mut path, None, if warm { from.max(1) } else { 0 });
            match r {
                Ok(_) => {
                    if warm {
                        tasks.push(path.clone());
                    }
                }
                Err(f) => {
                    found.lock().unwrap().push((head.clone(), f));
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
            }
            if !warm {
                // once more: static things have been initialized now
                warm = true;
                continue;
            }
            if !advance(&mut path, 0) {
                break;
            }
            from = path.len() - 1;
        }
        RUNS[0].store(0, Ordering::Relaxed);
    }
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (tasks, next, init, head) = (&tasks, &next, &init, &head);
            s.spawn(move || {
                let mut st = Stats::default();
                let mut text: Vec<u8> = Vec::with_capacity(512);
                while !stop.load(Ordering::Relaxed) {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    let Some(t) = tasks.get(k) else { break };
                    let mut path = Vec::with_capacity(64);
                    path.extend_from_slice(t);
                    let keep = path.len();
                    let mut from = 1.min(keep);
                    loop {
                        text.clear();
                        for c in &path {
                            let _ = write!(text, " {}/{}", c.pick, c.of);
                        }
                        slot_write(w, &[head.as_bytes(), b" choices", &text]);
                        RUNS[w].fetch_add(1, Ordering::Relaxed);
                        match one(set, prop_active, init, &mut path, None, from) {
                            Ok(o) => {
                                st.histories += 1;
                                st.transitions += o.checked as u64;
                                for h in &o.hashes {
                                    if *h != 0 {
                                        st.states.insert(*h);
                                    }
                                }
                                if st.sample.is_none() && k % 7 == 3 {
                                    st.sample = Some(format!("{head} {}", hist_text(&path.iter().map(|c| c.op).collect::<Vec<_>>())));
                                }
                            }
                            Err(f) => {
                                let mut g = found.lock().unwrap();
                                g.push((head.clone(), f));
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                        if stop.load(Ordering::Relaxed) || !advance(&mut path, keep) {
                            break;
                        }
                        from = path.len() - 1;
                    }
                }
                RUNS[w].store(0, Ordering::Relaxed);
                let mut g = stats.lock().unwrap();
                g.histories += st.histories;
                g.transitions += st.transitions;
                g.states.extend(st.states);
                if g.sample.is_none() {
                    g.sample = st.sample;
                }
            });
        }
    });
}

/// Drop operations that the failure does not need.
fn shrink(set: &Set, active: u32, mut f: Found) -> Found {
    let init = hist_parse(&set.init);
    loop {
        let mut better = None;
        for k in 0..f.hist.len() {
            let mut h = f.hist.clone();
            h.remove(k);
            // operations must still refer to handles of the right kind: play checks by panicking
            // in the harness, so only accept histories in which every step is enabled
            if !enabled(set, &init, &h) {
                continue;
            }
            if let Err(g) = one(set, active, &init, &mut vec![], Some(&h), 0) {
                let kind = |m: &str| m.split_whitespace().take(2).collect::<Vec<_>>().join(" ");
                if kind(&g.msg) == kind(&f.msg) {
                    better = Some(g);
                    break;
                }
            }
        }
        match better {
            Some(g) => f = g,
            None => return f,
        }
    }
}

fn enabled(set: &Set, init: &[Op], h: &[Op]) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let mut w = std::mem::ManuallyDrop::new(World::<Cpu>::new(0, 0, false, false));
        for o in init {
            if w.step(*o, false).is_err() {
                return false;
            }
        }
        for o in h {
            if !w.enabled(&set.ops, &set.limits).contains(o) {
                return false;
            }
            if w.step(*o, false).is_err() {
                return false;
            }
        }
        true
    }))
    .unwrap_or(true)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn write_replay(dir: &str, prop: &str, head: &str, f: &Found) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{prop}.txt");
    let text = format!("{prop}\n{head} {}\n{}\n", hist_text(&f.hist), f.msg);
    std::fs::write(&path, text).expect("replay file");
    path
}

/// Ends everything when a history does not end.
fn watch(prop: &str, replays: &str, out: &str, finished: &AtomicBool) {
    let mut seen = [(0u64, Instant::now()); 64];
    while !finished.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(50));
        for (i, s) in seen.iter_mut().enumerate() {
            let n = RUNS[i].load(Ordering::Relaxed);
            if n == 0 || n != s.0 {
                *s = (n, Instant::now());
            } else if s.1.elapsed() > Duration::from_secs(60) {
                let cur = slot_read(i);
                let path = format!("{replays}/{prop}.txt");
                let _ = std::fs::create_dir_all(replays);
                std::fs::write(&path, format!("{prop}\n{cur}\nhangs\n")).unwrap();
                println!("the history {cur} does not end");
                println!("VIOLATION property={prop} replay={path}");
                let _ = std::fs::write(out, "{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[\"hang\"]}\n1\n");
                std::process::exit(1);
            }
        }
    }
}

/// Histories of asynchronous reads.
#[cfg(feature = "wgpu")]
fn check_reads(prop: &str, tier: &str, replays: &str, out: &str) -> i32 {
    let finished = AtomicBool::new(false);
    let (cov, found) = std::thread::scope(|s| {
        s.spawn(|| watch(prop, replays, out, &finished));
        let note = |w: usize, t: &str| slot_write(w, &[t.as_bytes()]);
        let r = reads::check(tier == "thorough", std::env::var_os("MC_SHALLOW").is_some(), &note, &RUNS);
        finished.store(true, Ordering::SeqCst);
        r
    });
    if let Some((h, m)) = &found {
        let _ = std::fs::create_dir_all(replays);
        let path = format!("{replays}/{prop}.txt");
        std::fs::write(&path, format!("{prop}\n{h}\n{m}\n")).expect("replay file");
        println!("{prop}: {h}\n{m}\nVIOLATION property={prop} replay={path}");
    }
    std::fs::write(out, format!("{cov}\n{}\n", found.is_some() as u8)).expect("coverage");
    found.is_some() as i32
}

fn check(prop: &str, tier: &str, replays: &str, out: &str, current: &str) -> i32 {
    let t0 = Instant::now();
    map_slots(Some(current));
    #[cfg(feature = "wgpu")]
    if prop == "C26" {
        return check_reads(prop, tier, replays, out);
    }
    let active = active_of(prop);
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    let stats = Mutex::new(Stats::default());
    let found = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let mut lines = vec![];
    let sets = sets_of(prop);
    let thorough = tier == "thorough";
    // of a second build
    let shallow = std::env::var_os("MC_SHALLOW").is_some();
    let budget = Duration::from_secs(std::env::var("SEQ_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(600));
    std::thread::scope(|s| {
        s.spawn(|| watch(prop, replays, out, &finished));
        for set in &sets {
            let mut set = set.clone();
            let mut last;
            if thorough {
                set.depth = set.thorough;
            }
            if shallow {
                set.depth = if set.log { 0 } else { set.depth.saturating_sub(1) };
            }
            if set.depth == 0 {
                continue;
            }
            let share = budget / sets.len() as u32;
            let begin = Instant::now();
            loop {
                let t = Instant::now();
                let (h0, s0) = {
                    let g = stats.lock().unwrap();
                    (g.histories, g.states.len())
                };
                explore(active, &set, &stop, &stats, &found, workers);
                last = t.elapsed();
                let g = stats.lock().unwrap();
                lines.push(format!(
                    "{} init=[{}] depth={} operations=[{}] histories={} new_states={} {:.1}s",
                    set.rt.text(),
                    set.init,
                    set.depth,
                    set.ops.iter().map(|k| k_text(*k)).collect::<Vec<_>>().join(" "),
                    g.histories - h0,
                    g.states.len() - s0,
                    last.as_secs_f64()
                ));
                drop(g);
                // deeper, as long as there is time
                if !thorough || shallow || stop.load(Ordering::SeqCst) || begin.elapsed() + last * 12 > share || set.depth >= 20 {
                    break;
                }
                set.depth += 1;
            }
            if stop.load(Ordering::SeqCst) {
                break;
            }
        }
        finished.store(true, Ordering::SeqCst);
    });
    let g = stats.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|(h, f)| (f.hist.len(), h.clone(), hist_text(&f.hist)));
    let mut viol = 0;
    if !found.is_empty() {
        let (head, f) = found.swap_remove(0);
        let set = parse_head(&head);
        logging(set.log);
        let set = Set { ops: sets.iter().flat_map(|s| s.ops.clone()).collect(), ..set };
        let f = shrink(&set, active, f);
        let path = write_replay(replays, prop, &head, &f);
        println!("{prop}: {head} {}", hist_text(&f.hist));
        println!("{}", f.msg.chars().take(3000).collect::<String>());
        println!("VIOLATION property={prop} replay={path}");
        viol = 1;
    }
    let mut samples: Vec<String> = g.sample.iter().cloned().collect();
    if samples.is_empty() {
        samples.push(sets[0].init.to_string());
    }
    let cov = format!(
        "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":true,\"bounds\":[{}],\"samples\":[{}],\"wall_ms\":{}}}\n{viol}\n",
        g.states.len(),
        g.transitions,
        g.histories,
        lines.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","),
        samples.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_millis()
    );
    std::fs::write(out, cov).expect("coverage");
    println!("{prop}: {} histories, {} states, {} transitions in {:.1} s", g.histories, g.states.len(), g.transitions, t0.elapsed().as_secs_f64());
    viol
}

fn parse_head(head: &str) -> Set {
    let mut p = head.split('|');
    let a: Vec<&str> = p.next().unwrap().split_whitespace().collect();
    let init = p.next().unwrap().trim().to_string();
    Set {
        rt: RtKind::parse(a[0]),
        variant: a[1].parse().unwrap(),
        label: a[2] == "1" || a[2] == "3",
        log: a[2] == "2" || a[2] == "3",
        init,
        ops: vec![],
        depth: 0,
        thorough: 0,
        limits: limits(9, 9, 9),
    }
}

fn replay(file: &str) -> i32 {
    map_slots(None);
    let text = std::fs::read_to_string(file).expect("replay file");
    let mut l = text.lines();
    let prop = l.next().unwrap();
    let line = l.next().unwrap();
    #[cfg(feature = "wgpu")]
    if prop == "C26" {
        return reads::replay(line);
    }
    let (head, rest) = line.rsplit_once('|').unwrap();
    let mut set = parse_head(&format!("{head}|"));
    let init = hist_parse(&set.init);
    let rest = rest.trim();
    let hist = if let Some(c) = rest.strip_prefix("choices").or_else(|| rest.strip_prefix("prefix")) {
        // follow the choices, in the set they are from
        let picks: Vec<u16> = c.split_whitespace().map(|x| x.split('/').next().unwrap().parse().unwrap()).collect();
        let sets = sets_of(prop);
        let s = sets.iter().find(|s| s.init == set.init && s.rt.text() == set.rt.text() && s.variant == set.variant).expect("set");
        set = s.clone();
        let mut ops = vec![];
        let mut w = std::mem::ManuallyDrop::new(World::<Cpu>::new(0, 0, false, false));
        for o in &init {
            let _ = w.step(*o, false);
        }
        for p in picks {
            let en = w.enabled(&set.ops, &set.limits);
            let Some(o) = en.get(p as usize) else { break };
            ops.push(*o);
            println!("{}", hist_text(&ops));
            let _ = w.step(*o, false);
        }
        ops
    } else {
        hist_parse(rest)
    };
    println!("{} then {}", set.init, hist_text(&hist));
    logging(set.log);
    if set.rt.text() != "wgpu" {
        if let Ok((_, lines)) = play::<Cpu>(&set, 0, &init, &mut vec![], Some(&hist), 0, true, true) {
            for l in lines {
                println!("  {l}");
            }
        }
    }
    // twice: the first time, static things are being initialized
    let _ = one(&set, active_of(prop), &init, &mut vec![], Some(&hist), 1);
    match one(&set, active_of(prop), &init, &mut vec![], Some(&hist), 0).and_then(|_| one(&set, active_of(prop), &init, &mut vec![], Some(&hist), 1)) {
        Ok(_) => {
            println!("holds");
            0
        }
        Err(f) => {
            println!("{}", f.msg);
            1
        }
    }
}

/// Outcomes of histories, a digest for each first choice; or everything for one of them.
fn digest(only: Option<usize>, tier: &str) {
    map_slots(None);
    let mut sets = sets_of("C24");
    if tier == "thorough" {
        for s in &mut sets {
            s.depth = s.thorough;
        }
    }
    let mut k = 0;
    let mut jobs = vec![];
    for set in &sets {
        let init = hist_parse(&set.init);
        // how many first choices there are
        let mut path = Vec::new();
        let short = Set { depth: 1, ..set.clone() };
        let _ = play::<Cpu>(&short, 0, &init, &mut path, None, 0, true, true);
        let n = path.first().map_or(0, |c| c.of);
        for i in 0..n {
            jobs.push((k, set.clone(), init.clone(), i));
            k += 1;
        }
    }
    let next = AtomicUsize::new(0);
    let lines = Mutex::new(vec![]);
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let j = next.fetch_add(1, Ordering::Relaxed);
                let Some((k, set, init, i)) = jobs.get(j) else { break };
                if only.is_some_and(|o| o != *k) {
                    continue;
                }
                let mut path: Vec<Choice> = vec![];
                let mut d = 0u64;
                let mut n = 0;
                let mut first = true;
                loop {
                    if first {
                        // make the first choice
                        let short = Set { depth: 1, ..set.clone() };
                        let _ = play::<Cpu>(&short, 0, init, &mut path, None, 0, true, true);
                        path.truncate(1);
                        path[0].pick = *i;
                        path[0].op.h = u16::MAX;
                        first = false;
                    }
                    let r = play::<Cpu>(set, C24, init, &mut path, None, 0, true, true);
                    n += 1;
                    let t = match &r {
                        Ok((_, l)) => l.join(";"),
                        Err(f) => format!("failed {}", f.msg),
                    };
                    let mut h = 0xcbf29ce484222325;
                    fnv(&mut h, &t);
                    d = d.wrapping_mul(31).wrapping_add(h);
                    if only.is_some() {
                        lines.lock().unwrap().push((*k, format!("{} {} => {t}", set_text(set), hist_text(&path.iter().map(|c| c.op).collect::<Vec<_>>()))));
                    }
                    if !advance(&mut path, 1) {
                        break;
                    }
                }
                if only.is_none() {
                    lines.lock().unwrap().push((*k, format!("{k} {n} {d:x}")));
                }
            });
        }
    });
    let mut l = lines.into_inner().unwrap();
    if only.is_none() {
        l.sort();
    }
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for (_, x) in l {
        let _ = writeln!(out, "{x}");
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SEQ_PANIC").is_some() {
            eprintln!("{m}{at}");
        }
        MSG.with(|x| *x.borrow_mut() = m + &at);
    }));
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let r = match s(1) {
        "check" => check(s(2), s(3), s(4), s(5), s(6)),
        "replay" => replay(s(2)),
        "digest" => {
            digest(None, s(2));
            0
        }
        "digest-one" => {
            digest(Some(s(2).parse().unwrap()), s(3));
            0
        }
        _ => {
            eprintln!("usage: seq check|replay|digest|digest-one");
            2
        }
    };
    std::process::exit(r);
}
