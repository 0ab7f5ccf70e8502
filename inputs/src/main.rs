//! Exhaustive exploration of bounded inputs of crabslab and of craballoc's range bookkeeping.
//!
//! inputs check PROPERTY TIER REPLAY_DIR OUT.json CURRENT_FILE
//! inputs replay FILE
//! inputs digest TIER         (outcomes, to compare configurations)

mod cases;
mod items;
#[cfg(feature = "glam")]
mod ranges;
mod slabs;
mod words;

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const SLOT: usize = 1024;
static SLOTS: AtomicUsize = AtomicUsize::new(0);
static RUNS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

thread_local! {
    static MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static TRANSITIONS: Cell<u64> = const { Cell::new(0) };
    static STATES: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static WORKER: Cell<usize> = const { Cell::new(0) };
}

/// One operation of the code was executed, and led to this state.
pub fn step(hash: u64) {
    TRANSITIONS.with(|t| t.set(t.get() + 1));
    STATES.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() < 3_000_000 {
            s.insert(hash);
        }
    });
}
/// Many operations at once, without recording the states.
pub fn steps(n: u64) {
    TRANSITIONS.with(|t| t.set(t.get() + n));
}
/// Still alive.
pub fn tick() {
    RUNS[WORKER.with(|w| w.get())].fetch_add(1, Ordering::Relaxed);
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0 ^ (self.0 >> 29)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut x = [0u8; 8];
                x[..c.len()].copy_from_slice(c);
                self.write_u64(u64::from_le_bytes(x));
            }
        }
        fn write_u64(&mut self, x: u64) {
            self.0 = (self.0 ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            self.0 ^= self.0 >> 32;
        }
    }
    let mut h = H(0x1234_5678_9abc_def1);
    t.hash(&mut h);
    h.finish()
}

pub type Case<'a> = &'a [u64];
pub type Sink<'a> = &'a mut dyn FnMut(Case);

/// A family of cases that are all executed.
pub struct Family {
    pub name: &'static str,
    /// The space, in words.
    pub bounds: String,
    /// How it is divided among threads.
    pub jobs: Vec<Vec<u64>>,
    /// The cases of one job.
    pub expand: Box<dyn Fn(Case, Sink) + Sync + Send>,
    /// Executes one case.
    pub run: Box<dyn Fn(Case) -> Result<(), String> + Sync + Send>,
    /// One case, in words.
    pub text: Box<dyn Fn(Case) -> String + Sync + Send>,
}

fn map_slots(file: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(file).expect("current file");
    f.set_len((64 * SLOT) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), 64 * SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    SLOTS.store(p as usize, Ordering::SeqCst);
}

/// "name n n n", without allocating.
fn slot_write(i: usize, name: &str, case: Case) {
    let s = unsafe { std::slice::from_raw_parts_mut((SLOTS.load(Ordering::Relaxed) + i * SLOT) as *mut u8, SLOT) };
    s[..name.len()].copy_from_slice(name.as_bytes());
    let mut at = name.len();
    for x in case {
        let mut d = [0u8; 20];
        let mut n = 20;
        let mut x = *x;
        loop {
            n -= 1;
            d[n] = b'0' + (x % 10) as u8;
            x /= 10;
            if x == 0 {
                break;
            }
        }
        if at + 22 > SLOT {
            break;
        }
        s[at] = b' ';
        s[at + 1..at + 1 + 20 - n].copy_from_slice(&d[n..]);
        at += 21 - n;
    }
    s[at] = 0;
}

fn slot_read(i: usize) -> String {
    let s = unsafe { std::slice::from_raw_parts((SLOTS.load(Ordering::Relaxed) + i * SLOT) as *const u8, SLOT) };
    String::from_utf8_lossy(&s[..s.iter().position(|b| *b == 0).unwrap_or(SLOT)]).into_owned()
}

fn guarded(f: &Family, case: Case) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (f.run)(case))) {
        Ok(r) => r,
        Err(_) => Err(format!("it panics: {}", MSG.with(|m| m.borrow().clone()))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn case_text(f: &Family, case: Case) -> String {
    let n: Vec<String> = case.iter().map(|x| x.to_string()).collect();
    format!("{} {}", f.name, n.join(" "))
}

fn report(prop: &str, dir: &str, f: &Family, case: &str, words: &str, msg: &str) {
    let msg: String = msg.chars().take(2000).collect();
    let path = format!("{dir}/{prop}-{}.txt", f.name);
    let _ = std::fs::write(&path, format!("{prop}\n{case}\n# {words}\n# {msg}\n"));
    println!("{prop}: {words}: {msg}");
    println!("VIOLATION property={prop} replay={path}");
    let _ = std::io::stdout().flush();
}

fn check(prop: &str, tier: &str, dir: &str, out: &str, current: &str) -> i32 {
    let t0 = Instant::now();
    map_slots(current);
    let families = cases::families(prop, tier == "thorough");
    if families.is_empty() {
        eprintln!("no such property: {prop}");
        return 2;
    }
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    let mut total_states = 0usize;
    let mut transitions = 0u64;
    let mut cases_run = 0u64;
    let mut bounds = vec![];
    let mut samples = vec![];
    let mut violations = 0;
    for f in &families {
        let t = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let finished = AtomicBool::new(false);
        let found: Mutex<Option<(Vec<u64>, String)>> = Mutex::new(None);
        let all: Mutex<(HashSet<u64>, u64, u64)> = Mutex::new((HashSet::new(), 0, 0));
        let sample: Mutex<Option<Vec<u64>>> = Mutex::new(None);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..workers {
                let (next, stop, found, all, sample) = (&next, &stop, &found, &all, &sample);
                hs.push(s.spawn(move || {
                    WORKER.with(|x| x.set(w));
                    let mut n = 0u64;
                    loop {
                        let j = next.fetch_add(1, Ordering::Relaxed);
                        let Some(job) = f.jobs.get(j) else { break };
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            (f.expand)(job, &mut |c: Case| {
                                if stop.load(Ordering::Relaxed) {
                                    return;
                                }
                                RUNS[w].fetch_add(1, Ordering::Relaxed);
                                slot_write(w, f.name, c);
                                n += 1;
                                if let Err(m) = guarded(f, c) {
                                    // again, to be sure
                                    if guarded(f, c).is_err() {
                                        let mut g = found.lock().unwrap();
                                        if g.is_none() {
                                            *g = Some((c.to_vec(), m));
                                        }
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                } else if j == f.jobs.len() / 2 && n % 3 == 1 {
                                    *sample.lock().unwrap() = Some(c.to_vec());
                                }
                            })
                        }));
                        if r.is_err() {
                            eprintln!("the harness panics: {}", MSG.with(|m| m.borrow().clone()));
                            std::process::exit(2);
                        }
                        // each job's cases count once
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                    }
                    RUNS[w].store(u64::MAX / 2, Ordering::Relaxed);
                    let mut g = all.lock().unwrap();
                    g.0.extend(STATES.with(|s| std::mem::take(&mut *s.borrow_mut())));
                    g.1 += TRANSITIONS.with(|t| t.replace(0));
                    g.2 += n;
                }));
            }
            // something that runs for too long hangs
            let (finished, dir) = (&finished, &dir);
            s.spawn(move || {
                let mut last = [(u64::MAX, Instant::now()); 64];
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    for w in 0..workers {
                        let r = RUNS[w].load(Ordering::Relaxed);
                        if r >= u64::MAX / 2 || r != last[w].0 {
                            last[w] = (r, Instant::now());
                        } else if last[w].1.elapsed() > Duration::from_secs(20) {
                            let c = slot_read(w);
                            let nums: Vec<u64> = c.split_whitespace().skip(1).filter_map(|x| x.parse().ok()).collect();
                            report(prop, dir, f, &c, &(f.text)(&nums), "it doesn't come to an end");
                            let _ = std::fs::write(out, format!("{{\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"samples\":[{}]}}\n1\n", esc(&c)));
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            finished.store(true, Ordering::SeqCst);
        });
        for r in &RUNS {
            r.store(0, Ordering::Relaxed);
        }
        let (states, trans, n) = all.into_inner().unwrap();
        bounds.push(format!("{}: {}; {} cases, {} states, {} transitions, {:.1} s", f.name, f.bounds, n, states.len(), trans, t.elapsed().as_secs_f64()));
        total_states += states.len();
        transitions += trans;
        cases_run += n;
        if let Some(c) = sample.into_inner().unwrap().or_else(|| f.jobs.last().cloned()) {
            samples.push(format!("{}: {}", case_text(f, &c), catch_unwind(AssertUnwindSafe(|| (f.text)(&c))).unwrap_or_default()));
        }
        if let Some((c, m)) = found.into_inner().unwrap() {
            report(prop, dir, f, &case_text(f, &c), &(f.text)(&c), &m);
            violations += 1;
            break;
        }
    }
    let list = |v: &[String]| v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",");
    std::fs::write(
        out,
        format!(
            "{{\"states\":{total_states},\"transitions\":{transitions},\"traces_validated_against_impl\":{cases_run},\"exhaustive\":true,\"bounds\":[{}],\"samples\":[{}]}}\n{violations}\n",
            list(&bounds),
            list(&samples)
        ),
    )
    .expect("coverage");
    if std::env::var_os("INPUTS_VERBOSE").is_some() {
        for b in &bounds {
            println!("  {b}");
        }
    }
    println!("{prop}: {cases_run} cases, {total_states} states, {transitions} transitions in {:.1} s", t0.elapsed().as_secs_f64());
    (violations > 0) as i32
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let mut l = text.lines();
    let prop = l.next().unwrap();
    let mut w = l.next().unwrap().split_whitespace();
    let name = w.next().unwrap();
    let case: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
    for f in cases::families(prop, true) {
        if f.name == name {
            println!("{}", (f.text)(&case));
            return match guarded(&f, &case) {
                Ok(()) => {
                    println!("holds");
                    0
                }
                Err(m) => {
                    println!("{m}");
                    1
                }
            };
        }
    }
    eprintln!("no family {name}");
    2
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|x| *x.borrow_mut() = m + &at);
    }));
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let r = match s(1) {
        "check" => check(s(2), s(3), s(4), s(5), s(6)),
        "replay" => replay(s(2)),
        "digest" => {
            cases::digest(s(2) == "thorough");
            0
        }
        _ => {
            eprintln!("usage: inputs check|replay|digest");
            2
        }
    };
    std::process::exit(r);
}
