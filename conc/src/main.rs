//! Exhaustive exploration of thread interleavings of craballoc.
//!
//! conc check PROPERTY TIER REPLAY_DIR OUT.json [PLAIN_BINARY]
//! conc replay FILE
//! conc list PROPERTY TIER
//! conc-plain serve            (programs on stdin, outcomes of serial executions on stdout)

mod prog;
mod rtm;
mod sets;

use prog::*;
use rtm::*;
use std::io::{BufRead, Write};

type Parts = (Vec<Box<dyn FnOnce() + Send>>, Box<dyn FnOnce() -> Result<u64, String> + Send>);

fn split(p: &Prog) -> Parts {
    if p.cpu {
        build::<craballoc::prelude::CpuRuntime>(p, false).split()
    } else {
        build::<Mc>(p, false).split()
    }
}

fn on_threads(p: &Prog, order: &[u8]) -> Result<u64, String> {
    if p.cpu {
        build::<craballoc::prelude::CpuRuntime>(p, true).on_threads(order)
    } else {
        build::<Mc>(p, true).on_threads(order)
    }
}

/// Outcomes of the serial executions of programs, as observed on real threads.
fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines().map_while(Result::ok) {
        let Some(p) = Prog::parse(&l) else { continue };
        for o in orders(&p) {
            let r = match std::panic::catch_unwind(|| on_threads(&p, &o)) {
                Ok(Ok(h)) => format!("{h:x}"),
                Ok(Err(e)) => format!("error {e}"),
                Err(_) => "panic".into(),
            };
            let _ = writeln!(out.lock(), "{r}");
        }
    }
}

#[cfg(not(feature = "mc"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("serve") {
        serve();
    }
}

#[cfg(feature = "mc")]
fn main() {
    mc::main();
}

#[cfg(feature = "mc")]
mod mc {
    use super::*;
    use mcstd::rt::{self, Config, Run};
    use std::process::{Command, Stdio};
    use std::time::{Duration, Instant};

    fn run_of(p: &Prog) -> Run {
        let (t, finish) = split(p);
        Run { threads: t.into_iter().map(|b| b as Box<dyn FnOnce()>).collect(), finish }
    }

    fn serial(p: &Prog, order: &[u8]) -> Result<u64, String> {
        let p = p.clone();
        let order = order.to_vec();
        let make = move || {
            let (body, finish) = if p.cpu {
                build::<craballoc::prelude::CpuRuntime>(&p, true).in_order(&order)
            } else {
                build::<Mc>(&p, true).in_order(&order)
            };
            Run { threads: vec![body], finish }
        };
        rt::replay(&Config::default(), &make, &[])?.0
    }

    fn esc(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                '\n' => o += "\\n",
                c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
                c => o.push(c),
            }
        }
        o + "\""
    }

    fn config(job: &sets::Job, deadline: Option<Instant>) -> Config {
        Config { preemptions: job.preemptions, stale: job.stale, deadline, ..Config::default() }
    }

    /// What is being explored, plus one.
    static WORKING: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    const ENDLESS: &str = "an execution does not end";

    /// Reports an execution that makes no progress for long, and ends the process.
    fn watch(report: impl Fn(usize, Vec<u32>) + Send + 'static) {
        use std::sync::atomic::Ordering::Relaxed;
        std::thread::spawn(move || {
            let mut last = (0, 0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let (w, p) = (WORKING.load(Relaxed), rt::PROGRESS.load(Relaxed));
                if w == 0 || (w, p) != (last.0, last.1) {
                    last = (w, p, Instant::now());
                } else if last.2.elapsed() > Duration::from_secs(20) {
                    let s = unsafe { rt::stuck_schedule() };
                    report(w - 1, s);
                    std::process::exit(1);
                }
            }
        });
    }
    fn commas(s: &[u32]) -> String {
        s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    }

    /// Explores the programs whose numbers arrive on stdin; one result line each.
    fn worker(prop: &str, tier: &str, secs: u64) {
        rt::install_panic_hook();
        let jobs = sets::jobs(prop, tier);
        ORACLES.store(sets::oracles(prop), std::sync::atomic::Ordering::Relaxed);
        let end = Instant::now() + Duration::from_secs(secs);
        let out = std::io::stdout();
        watch(|i, s| {
            let out = std::io::stdout();
            let _ = writeln!(out.lock(), "fail {i} {};{ENDLESS}", commas(&s));
            let _ = out.lock().flush();
        });
        for l in std::io::stdin().lock().lines().map_while(Result::ok) {
            WORKING.store(0, std::sync::atomic::Ordering::Relaxed);
            let Ok(i) = l.trim().parse::<usize>() else { break };
            let j = &jobs[i];
            let t0 = Instant::now();
            if t0 >= end {
                let _ = writeln!(out.lock(), "skip {i}");
                let _ = out.lock().flush();
                continue;
            }
            let cfg = config(j, Some(end));
            WORKING.store(i + 1, std::sync::atomic::Ordering::Relaxed);
            let st = rt::explore(&cfg, &|| run_of(&j.prog));
            let line = match st {
                Ok(s) => {
                    let mut l = format!(
                        "done {i} {} {} {} {} {} {} {} {}",
                        s.execs,
                        s.states,
                        s.transitions,
                        s.max_points,
                        s.complete as u8,
                        s.outcomes,
                        s.diverged,
                        t0.elapsed().as_millis()
                    );
                    if let Some(v) = s.violation {
                        l = format!("fail {i} {};{}", commas(&v.schedule), v.message.replace('\n', " "));
                    }
                    l
                }
                Err(e) => format!("error {i} {e}"),
            };
            WORKING.store(0, std::sync::atomic::Ordering::Relaxed);
            let bad = line.starts_with("fail");
            let _ = writeln!(out.lock(), "{line}");
            let _ = out.lock().flush();
            if bad {
                // what the failed execution left behind is in no sane state
                return;
            }
        }
    }

    /// Reproduce a violation in a fresh process: exit code 1 when it shows again.
    fn replay(file: &str, quiet: bool) -> i32 {
        rt::install_panic_hook();
        let text = std::fs::read_to_string(file).expect("replay file");
        let get = |k: &str| {
            text.lines()
                .find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix(": ")))
                .map(|s| s.to_string())
                .unwrap_or_default()
        };
        let Some(p) = Prog::parse(&get("program")) else {
            eprintln!("no program in {file}");
            return 2;
        };
        ORACLES.store(sets::oracles(&get("property")), std::sync::atomic::Ordering::Relaxed);
        let schedule: Vec<u32> = get("schedule").split(',').filter_map(|s| s.trim().parse().ok()).collect();
        let stale = get("stale").parse().unwrap_or(0);
        let pre = get("preemptions").parse().ok();
        let cfg = Config { preemptions: pre, stale, ..Config::default() };
        watch(|_, _| println!("violation: {ENDLESS}"));
        WORKING.store(1, std::sync::atomic::Ordering::Relaxed);
        match rt::replay(&cfg, &|| run_of(&p), &schedule) {
            Ok((r, trace)) => {
                if !quiet {
                    println!("program: {}", p.text());
                    for t in trace {
                        println!("  {t}");
                    }
                }
                match r {
                    Ok(_) => {
                        println!("no violation");
                        0
                    }
                    Err(e) => {
                        println!("violation: {e}");
                        1
                    }
                }
            }
            Err(e) => {
                println!("{e}");
                2
            }
        }
    }

    struct Tally {
        execs: u64,
        states: u64,
        transitions: u64,
        max_points: u64,
        complete: u64,
        incomplete: u64,
        skipped: u64,
        outcomes: u64,
        diverged: u64,
        errors: Vec<String>,
        fails: Vec<(usize, String, String)>,
        slowest: (u64, usize),
        multi: u64,
    }

    fn check(prop: &str, tier: &str, dir: &str, out: &str, plain: Option<&str>) -> i32 {
        let t0 = Instant::now();
        let jobs = sets::jobs(prop, tier);
        let secs: u64 = std::env::var("CONC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 780 } else { 240 });
        let n = std::env::var("CONC_PROCS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        let next = std::sync::Mutex::new(0usize);
        let tally = std::sync::Mutex::new(Tally {
            execs: 0,
            states: 0,
            transitions: 0,
            max_points: 0,
            complete: 0,
            incomplete: 0,
            skipped: 0,
            outcomes: 0,
            diverged: 0,
            errors: vec![],
            fails: vec![],
            slowest: (0, 0),
            multi: 0,
        });
        let exe = std::env::current_exe().unwrap();
        std::thread::scope(|s| {
            for _ in 0..n {
                s.spawn(|| loop {
                    // one worker process; it is replaced when it ends early
                    let mut c = Command::new(&exe)
                        .args(["worker", prop, tier, &secs.saturating_sub(t0.elapsed().as_secs()).to_string()])
                        .stdin(Stdio::piped())
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .expect("worker");
                    let mut sin = c.stdin.take().unwrap();
                    let mut sout = std::io::BufReader::new(c.stdout.take().unwrap());
                    let mut ended = false;
                    loop {
                        let i = {
                            let mut g = next.lock().unwrap();
                            let stop = {
                                let t = tally.lock().unwrap();
                                t.fails.len() >= 3 || t.fails.iter().any(|f| f.2 == ENDLESS)
                            };
                            if *g >= jobs.len() || stop {
                                break;
                            }
                            *g += 1;
                            *g - 1
                        };
                        let mut l = String::new();
                        if writeln!(sin, "{i}").and_then(|_| sin.flush()).is_err() || sout.read_line(&mut l).unwrap_or(0) == 0 {
                            let st = c.wait().map(|s| s.to_string()).unwrap_or_default();
                            let mut t = tally.lock().unwrap();
                            t.fails.push((i, String::new(), format!("the process that explored this program died: {st}")));
                            ended = true;
                            break;
                        }
                        let mut t = tally.lock().unwrap();
                        let l = l.trim_end();
                        let (what, rest) = l.split_once(' ').unwrap_or((l, ""));
                        let (_, rest) = rest.split_once(' ').unwrap_or((rest, ""));
                        match what {
                            "done" => {
                                let v: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                                t.execs += v[0];
                                t.states += v[1];
                                t.transitions += v[2];
                                t.max_points = t.max_points.max(v[3]);
                                if v[4] == 1 {
                                    t.complete += 1;
                                } else {
                                    t.incomplete += 1;
                                }
                                t.outcomes += v[5];
                                if v[5] > 1 {
                                    t.multi += 1;
                                }
                                t.diverged += v[6];
                                if v[7] > t.slowest.0 {
                                    t.slowest = (v[7], i);
                                }
                            }
                            "fail" => {
                                let (sch, msg) = rest.split_once(';').unwrap_or(("", rest));
                                t.fails.push((i, sch.to_string(), msg.to_string()));
                                drop(t);
                                let _ = c.wait();
                                ended = true;
                                break;
                            }
                            "skip" => t.skipped += 1,
                            _ => t.errors.push(format!("{}: {rest}", jobs[i].prog.text())),
                        }
                    }
                    drop(sin);
                    let _ = c.wait();
                    if !ended {
                        break;
                    }
                });
            }
        });
        let mut t = tally.into_inner().unwrap();
        t.fails.sort_by_key(|f| f.0);
        let mut violations = 0;
        for (k, (i, sch, msg)) in t.fails.iter().enumerate() {
            if msg == ENDLESS && violations > 0 {
                continue;
            }
            let j = &jobs[*i];
            let path = format!("{dir}/{prop}-{k}.replay");
            let text = format!(
                "property: {prop}\nprogram: {}\npreemptions: {}\nstale: {}\nschedule: {sch}\nmessage: {msg}\n",
                j.prog.text(),
                j.preemptions.map(|p| p.to_string()).unwrap_or("unbounded".into()),
                j.stale
            );
            std::fs::create_dir_all(dir).ok();
            std::fs::write(&path, text).expect("replay file");
            let again = Command::new(&exe).args(["replay", &path]).output();
            let detail = again.as_ref().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
            let code = again.ok().and_then(|o| o.status.code());
            if code == Some(0) || code == Some(2) {
                eprintln!("not reproduced ({code:?}): {} {msg}", j.prog.text());
                continue;
            }
            violations += 1;
            if violations == 1 {
                println!("VIOLATION property={prop} replay={path}");
            }
            println!("  program {}: {msg}", j.prog.text());
            let _ = detail;
        }
        for e in t.errors.iter().take(5) {
            eprintln!("exploration error: {e}");
        }
        // conformance: serial executions under the explorer agree with executions on real threads
        let (mut validated, mut mismatches) = (0u64, 0u64);
        let mut first_mismatch = String::new();
        if let (Some(plain), true) = (plain, t.fails.is_empty()) {
            rt::install_panic_hook();
            ORACLES.store(sets::oracles(prop), std::sync::atomic::Ordering::Relaxed);
            let limit = if tier == "thorough" { 4000 } else { 250 };
            let step = (jobs.len() / limit).max(1);
            let chosen: Vec<&Prog> = jobs.iter().step_by(step).map(|j| &j.prog).collect();
            let parts: Vec<Vec<&Prog>> = (0..n).map(|k| chosen.iter().skip(k).step_by(n).copied().collect()).collect();
            let res: Vec<(u64, u64, String)> = std::thread::scope(|s| {
                let hs: Vec<_> = parts
                    .iter()
                    .map(|part| {
                        s.spawn(move || {
                            let mut c = Command::new("timeout")
                                .args(["120", plain, "serve"])
                                .stdin(Stdio::piped())
                                .stdout(Stdio::piped())
                                .stderr(Stdio::null())
                                .spawn()
                                .expect("plain harness");
                            let mut sin = c.stdin.take().unwrap();
                            let mut sout = std::io::BufReader::new(c.stdout.take().unwrap());
                            let (mut ok, mut bad, mut first) = (0u64, 0u64, String::new());
                            'all: for p in part {
                                if writeln!(sin, "{}", p.text()).and_then(|_| sin.flush()).is_err() {
                                    break;
                                }
                                for o in orders(p) {
                                    let mut l = String::new();
                                    if sout.read_line(&mut l).unwrap_or(0) == 0 {
                                        break 'all;
                                    }
                                    let mine = match serial(p, &o) {
                                        Ok(h) => format!("{h:x}"),
                                        Err(e) => format!("error {e}"),
                                    };
                                    if mine == l.trim_end() {
                                        ok += 1;
                                    } else {
                                        bad += 1;
                                        if first.is_empty() {
                                            first = format!("{} in order {o:?}: model {mine}, implementation {}", p.text(), l.trim_end());
                                        }
                                    }
                                }
                            }
                            drop(sin);
                            let _ = c.wait();
                            (ok, bad, first)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or((0, 0, "conformance thread panicked".into()))).collect()
            });
            for (a, b, f) in res {
                validated += a;
                mismatches += b;
                if first_mismatch.is_empty() {
                    first_mismatch = f;
                }
            }
            if mismatches > 0 {
                eprintln!("conformance: {mismatches} differences, e.g. {first_mismatch}");
            }
        }
        let samples: Vec<String> = jobs.iter().step_by((jobs.len() / 6).max(1)).take(6).map(|j| esc(&j.prog.text())).collect();
        let bounds = sets::bounds(prop, tier);
        let json = format!(
            concat!(
                "{{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"conformance_differences\": {}, ",
                "\"programs\": {}, \"programs_explored_completely\": {}, \"programs_cut_off\": {}, \"programs_with_several_outcomes\": {}, ",
                "\"schedules\": {}, \"distinct_outcomes\": {}, \"longest_execution\": {}, \"nondeterministic_executions\": {}, ",
                "\"exhaustive\": {}, \"bounds\": {}, \"samples\": [{}]}}\n{}\n"
            ),
            t.states,
            t.transitions,
            validated,
            mismatches,
            jobs.len(),
            t.complete,
            t.incomplete + t.skipped + t.errors.len() as u64,
            t.multi,
            t.execs,
            t.outcomes,
            t.max_points,
            t.diverged,
            t.complete == jobs.len() as u64,
            esc(&bounds),
            samples.join(", "),
            violations
        );
        std::fs::write(out, json).expect("out");
        println!(
            "{prop}: {} programs ({} completely, {} cut off), {} schedules, {} states, {} transitions, {validated} serial traces validated, {:.1} s; slowest {} ms: {}",
            jobs.len(),
            t.complete,
            t.incomplete + t.skipped,
            t.execs,
            t.states,
            t.transitions,
            t0.elapsed().as_secs_f64(),
            t.slowest.0,
            jobs.get(t.slowest.1).map(|j| j.prog.text()).unwrap_or_default()
        );
        (violations > 0) as i32
    }

    pub fn main() {
        let a: Vec<String> = std::env::args().collect();
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let code = match a[1..] {
            ["worker", p, t, secs] => {
                worker(p, t, secs.parse().unwrap_or(60));
                0
            }
            ["check", p, t, dir, out] => check(p, t, dir, out, None),
            ["check", p, t, dir, out, plain] => check(p, t, dir, out, Some(plain)),
            ["replay", f] => replay(f, false),
            ["list", p, t] => {
                for j in sets::jobs(p, t) {
                    println!("{} pre={:?} stale={}", j.prog.text(), j.preemptions, j.stale);
                }
                0
            }
            ["run", ref p @ ..] => {
                rt::install_panic_hook();
                let p = Prog::parse(&p.join(" ")).expect("program");
                let cfg = Config {
                    preemptions: std::env::var("PRE").ok().and_then(|s| s.parse().ok()),
                    stale: std::env::var("STALE").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
                    ..Config::default()
                };
                let t0 = Instant::now();
                let s = rt::explore(&cfg, &|| run_of(&p));
                println!("{s:?} {:?}", t0.elapsed());
                0
            }
            ["serve"] => {
                serve();
                0
            }
            _ => {
                eprintln!("usage");
                2
            }
        };
        std::process::exit(code);
    }
}
