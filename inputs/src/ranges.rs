//! C20: the bookkeeping of ranges in craballoc.
use crate::{hash, step, steps, tick, Case, Family, Sink};
use craballoc::range::{IsRange, Range, RangeManager};
use craballoc::runtime::SlabUpdate;
use crabslab::{Array, SlabItem};
use std::collections::{HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn fail<T>(m: impl Into<String>) -> Result<T, String> {
    Err(m.into())
}

// ---- ranges of words

const REMOVE: u64 = 1000;

/// Where ranges are, and how many words the unit is that they are counted in.
fn place(base: u64, unit: u64) -> u64 {
    unit << 34 | base
}
fn base(c0: u64) -> u64 {
    c0 & (1 << 34) - 1
}
fn unit(c0: u64) -> u64 {
    (c0 >> 34).max(1)
}

fn op_text(o: u64, c0: u64) -> String {
    if o >= REMOVE {
        format!("remove {}", (o - REMOVE) * unit(c0))
    } else {
        format!("add {}..={}", base(c0) + o / 30 * unit(c0), base(c0) + (o % 30 + 1) * unit(c0) - 1)
    }
}

/// The range of words as units.
fn units(r: &Range, c0: u64) -> Option<(u64, u64)> {
    let (a, b) = ((r.first_index as u64).checked_sub(base(c0))?, (r.last_index as u64 + 1).checked_sub(base(c0))?);
    let u = unit(c0);
    (a < b && a % u == 0 && b % u == 0 && b / u <= 30).then_some((a / u, b / u - 1))
}

/// The words that are in there, as bits.
type Words = u32;

fn span(o: u64) -> Words {
    let (a, b) = (o / 30, o % 30);
    ((1u64 << (b - a + 1)) - 1 << a) as Words
}

fn longest(w: Words) -> u32 {
    let (mut best, mut run) = (0, 0);
    for b in 0..32 {
        run = if w >> b & 1 == 1 { run + 1 } else { 0 };
        best = best.max(run);
    }
    best
}

fn words_of(m: &RangeManager<Range>, c0: u64) -> Result<Words, String> {
    let mut w: Words = 0;
    for (i, r) in m.ranges.iter().enumerate() {
        let Some((first, last)) = units(r, c0) else {
            return fail(format!("there is a range {r:?}"));
        };
        for s in &m.ranges[i + 1..] {
            let (a, b) = if r.first_index <= s.first_index { (r, s) } else { (s, r) };
            if a.last_index >= b.first_index {
                return fail(format!("{a:?} and {b:?} overlap"));
            }
            if a.last_index + 1 == b.first_index {
                return fail(format!("{a:?} and {b:?} are not merged"));
            }
        }
        w |= span(first * 30 + last);
    }
    Ok(w)
}

/// Plays a history, checking everything, and returns the manager and its words.
fn play(c0: u64, ops: &[u64], count: bool) -> Result<(RangeManager<Range>, Words), String> {
    let mut m = RangeManager::<Range>::default();
    let mut w: Words = 0;
    for o in ops {
        let o = *o;
        if o >= REMOVE {
            let n = ((o - REMOVE) * unit(c0)) as u32;
            let r = m.remove(n);
            match r {
                Some(r) => {
                    // it may come from anywhere inside of a range, but is a multiple of the unit only by chance
                    let u = units(&r, c0);
                    let Some((first, last)) = u.filter(|_| r.len() == n && !r.is_empty()) else {
                        return fail(format!("{} yields {r:?}", op_text(o, c0)));
                    };
                    let s = span(first * 30 + last);
                    if last - first + 1 != o - REMOVE {
                        return fail(format!("{} yields {r:?}", op_text(o, c0)));
                    }
                    if w & s != s {
                        return fail(format!("{} yields {r:?}, which is not in there", op_text(o, c0)));
                    }
                    w &= !s;
                }
                None => {
                    if n > 0 && longest(w) as u64 >= o - REMOVE {
                        return fail(format!("{} yields nothing although there are {} contiguous words", op_text(o, c0), longest(w) as u64 * unit(c0)));
                    }
                }
            }
        } else {
            let (a, b) = (base(c0) + o / 30 * unit(c0), base(c0) + (o % 30 + 1) * unit(c0) - 1);
            m.add_range(Range { first_index: a as u32, last_index: b as u32 });
            w |= span(o);
        }
        let got = words_of(&m, c0).map_err(|e| format!("after {}, {e}", op_text(o, c0)))?;
        if got != w {
            return fail(format!("after {} it holds the words {got:#b} instead of {w:#b}", op_text(o, c0)));
        }
        if m.len() != m.ranges.len() || m.is_empty() != (w == 0) {
            return fail(format!("len {} is_empty {}", m.len(), m.is_empty()));
        }
        if count {
            step(hash(&(c0, format!("{:?}", m.ranges))));
        }
    }
    Ok((m, w))
}

/// The operations that are possible when these words are in there: words are only added when they are not.
fn possible(w: Words, width: u64) -> Vec<u64> {
    let mut v = vec![];
    for a in 0..width {
        for b in a..width {
            if span(a * 30 + b) & w == 0 {
                v.push(a * 30 + b);
            }
        }
    }
    v.extend((0..=width + 1).map(|n| REMOVE + n));
    v
}

fn ranges_text(c: Case) -> String {
    format!("{} (from word {})", c[1..].iter().map(|o| op_text(*o, c[0])).collect::<Vec<_>>().join(", "), base(c[0]))
}

fn run_ranges(c: Case) -> Result<(), String> {
    play(c[0], &c[1..], true).map(|_| ())
}

// ---- updates

fn update(i: u64, n: u64, tag: u32) -> SlabUpdate {
    SlabUpdate { array: Array::new(i as u32, n as u32), elements: (0..n as u32).map(|k| tag * 10_000_000 + k + 1).collect() }
}

fn run_updates(c: Case) -> Result<(), String> {
    let (base, unit) = (base(c[0]), unit(c[0]));
    if unit > 1000 {
        tick();
    }
    let mut m = RangeManager::<SlabUpdate>::default();
    // zero stands for none
    let reach = c[1..].iter().map(|o| (o / 30 + o % 30) * unit).max().unwrap_or(0) as usize;
    let mut model = vec![0u32; reach];
    for (k, o) in c[1..].iter().enumerate() {
        let (i, n) = (base + o / 30 * unit, o % 30 * unit);
        let u = update(i, n, k as u32 + 1);
        for (x, e) in u.elements.iter().enumerate() {
            model[(i - base) as usize + x] = *e;
        }
        m.add_range(u);
        let mut got = vec![0u32; reach];
        for u in &m.ranges {
            if u.array.len() != u.elements.len() {
                return fail(format!("after update {k}, there are {} elements for {:?}", u.elements.len(), u.array));
            }
            for (x, e) in u.elements.iter().enumerate() {
                let at = u.array.index as u64 + x as u64;
                match at.checked_sub(base).and_then(|a| got.get_mut(a as usize)) {
                    None => return fail(format!("after update {k}, there is word {at} in there")),
                    Some(g) if *g != 0 => return fail(format!("after update {k}, word {at} is in there twice")),
                    Some(g) => *g = *e,
                }
            }
        }
        step(hash(&(c[0], if unit == 1 { got.clone() } else { vec![m.len() as u32, k as u32] })));
        if let Some(x) = got.iter().zip(&model).position(|(a, b)| a != b) {
            return fail(format!("after update {k}, word {} is {} instead of {} (zero stands for none)", base + x as u64, got[x], model[x]));
        }
        if m.len() != m.ranges.len() || m.is_empty() {
            return fail(format!("len {} is_empty {}", m.len(), m.is_empty()));
        }
    }
    Ok(())
}

fn updates_text(c: Case) -> String {
    format!("updates of {}", c[1..].iter().map(|o| format!("{} words at {}", o % 30 * unit(c[0]), base(c[0]) + o / 30 * unit(c[0]))).collect::<Vec<_>>().join(", "))
}

pub fn c20(thorough: bool) -> Vec<Family> {
    let width: u64 = if thorough { 11 } else { 8 };
    let bases = vec![0u64, 3, (1 << 31) - 4, u32::MAX as u64 - 1 - width];
    // the same with larger units
    let mut places: Vec<u64> = vec![0, 253, 65533, (1 << 31) - 4, u32::MAX as u64 - 1 - width];
    places.extend([(0, 37), (0, 255), (3, 256), (0, 257), (1, 65535), (0, 65536), (2, 65537), (0, 1 << 24), (5, (1 << 27) + 1)].map(|(b, u)| place(b, u)));
    let hist_places = vec![0u64, 7, place(0, 300), place(1, 65537)];
    let (p1, hp1) = (places.len(), hist_places.len());
    let hist_width: u64 = if thorough { 6 } else { 5 };
    let hist_depth = 5;
    let upd_width: u64 = if thorough { 7 } else { 6 };
    let upd_depth = if thorough { 5 } else { 4 };
    let upds: Vec<u64> = (0..upd_width).flat_map(|a| (1..=upd_width - a).map(move |n| a * 30 + n)).collect();
    let u1 = upds;
    vec![
        Family {
            name: "reachable",
            bounds: format!("every reachable state of a manager of {width} words at {p1} places, or of as many units of up to 2^27+1 words, and every operation from there (no bound on the number of operations)"),
            jobs: places.iter().map(|b| vec![*b]).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                let mut seen: HashSet<String> = HashSet::new();
                let mut queue: VecDeque<(Vec<u64>, Words)> = VecDeque::new();
                queue.push_back((vec![], 0));
                seen.insert("[]".into());
                while let Some((h, w)) = queue.pop_front() {
                    for o in possible(w, width) {
                        let mut h2 = h.clone();
                        h2.push(o);
                        let mut c = vec![job[0]];
                        c.extend(&h2);
                        sink(&c);
                        // what fails has no successors
                        let r = catch_unwind(AssertUnwindSafe(|| play(job[0], &h2, false).map(|(m, w)| (format!("{:?}", m.ranges), w))));
                        if let Ok(Ok((s, w2))) = r {
                            if seen.insert(s) {
                                queue.push_back((h2, w2));
                            }
                        }
                    }
                }
            }),
            run: Box::new(run_ranges),
            text: Box::new(ranges_text),
        },
        Family {
            name: "ranges",
            bounds: format!("all histories of {hist_depth} operations on {hist_width} words at {hp1} places and sizes"),
            jobs: possible(0, hist_width).into_iter().flat_map(|o| hist_places.iter().map(move |b| vec![*b, o]).collect::<Vec<_>>()).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                fn go(c: &mut Vec<u64>, depth: usize, width: u64, sink: Sink) {
                    if depth == 0 {
                        sink(c);
                        return;
                    }
                    let r = catch_unwind(AssertUnwindSafe(|| play(c[0], &c[1..], false).map(|x| x.1)));
                    let Ok(Ok(w)) = r else {
                        sink(c);
                        return;
                    };
                    for o in possible(w, width) {
                        c.push(o);
                        go(c, depth - 1, width, sink);
                        c.pop();
                    }
                }
                go(&mut job.to_vec(), hist_depth - 1, hist_width, sink);
            }),
            run: Box::new(run_ranges),
            text: Box::new(ranges_text),
        },
        Family {
            name: "updates",
            bounds: format!("all sequences of {upd_depth} updates of {upd_width} words, at two places; two less of them of units of 300 words, and pairs of 65537"),
            jobs: u1.iter().flat_map(|o| [0u64, u32::MAX as u64 - 20, place(0, 300), place(1, 65537)].into_iter().map(move |b| vec![b, *o])).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                fn go(c: &mut Vec<u64>, depth: usize, ops: &[u64], sink: Sink) {
                    if depth == 0 {
                        sink(c);
                        return;
                    }
                    for o in ops {
                        c.push(*o);
                        go(c, depth - 1, ops, sink);
                        c.pop();
                    }
                }
                let depth = match unit(job[0]) {
                    1 => upd_depth,
                    300 => upd_depth - 2,
                    _ => 2,
                };
                go(&mut job.to_vec(), depth - 1, &u1, sink);
            }),
            run: Box::new(run_updates),
            text: Box::new(updates_text),
        },
        Family {
            name: "many-updates",
            bounds: "all sets of disjoint updates of 1..=2 words out of 9 in every order of three, followed by one that covers any interval".into(),
            jobs: (0..9u64).flat_map(|a| (0..9u64).map(move |b| vec![a, b])).collect(),
            expand: Box::new(|job: Case, sink: Sink| {
                for c in 0..9u64 {
                    for sizes in 0..8u64 {
                        let small: Vec<u64> = [job[0], job[1], c].iter().enumerate().map(|(k, a)| a * 30 + 1 + (sizes >> k & 1)).collect();
                        for i in 0..9u64 {
                            for n in 1..=10 - i {
                                let mut v = vec![0];
                                v.extend(&small);
                                v.push(i * 30 + n);
                                // and one more on top
                                v.push(((i + n) % 9) * 30 + 2);
                                sink(&v);
                            }
                        }
                    }
                }
            }),
            run: Box::new(run_updates),
            text: Box::new(updates_text),
        },
        Family {
            name: "many-ranges",
            bounds: "300 separate words in 8 orders, then the 299 words between them in 8 orders, then all of them removed 1..=9 at a time".into(),
            jobs: (0..8).map(|a| vec![a]).collect(),
            expand: Box::new(|job: Case, sink: Sink| {
                for b in 0..8 {
                    for n in 1..=9 {
                        sink(&[job[0], b, n]);
                    }
                }
            }),
            run: Box::new(|c: Case| {
                // all are coprime to both numbers
                const STRIDES: [u64; 8] = [1, 7, 11, 17, 101, 149, 211, 293];
                let order = |s: u64, n: u64| (0..n).map(move |i| i * STRIDES[s as usize] % n);
                let mut m = RangeManager::<Range>::default();
                let mut w = vec![false; 600];
                let verify = |m: &RangeManager<Range>, w: &[bool], what: String| -> Result<(), String> {
                    let mut got = vec![false; 600];
                    for r in &m.ranges {
                        for x in r.first_index..=r.last_index {
                            if got.get(x as usize) != Some(&false) {
                                return fail(format!("after {what}, word {x} is in there twice or for no reason"));
                            }
                            got[x as usize] = true;
                        }
                    }
                    step(hash(&(&got, m.len())));
                    let want = (0..600).filter(|x| w[*x] && (*x == 0 || !w[*x - 1])).count();
                    if got != w || m.len() != want {
                        return fail(format!("after {what}, there are the wrong words or {} ranges instead of {want}", m.len()));
                    }
                    Ok(())
                };
                for x in order(c[0], 300).map(|i| 2 * i).chain(order(c[1], 299).map(|i| 2 * i + 1)) {
                    m.add_range(Range { first_index: x as u32, last_index: x as u32 });
                    w[x as usize] = true;
                    if x % 5 == 0 || x >= 595 {
                        verify(&m, &w, format!("adding {x}"))?;
                    }
                }
                let n = c[2] as u32;
                for k in 0..599 / n {
                    let Some(r) = m.remove(n) else { return fail(format!("removal {k} of {n} words yields nothing")) };
                    for x in r.first_index..=r.last_index {
                        if w.get(x as usize) != Some(&true) {
                            return fail(format!("removal {k} of {n} words yields {r:?}, which isn't in there"));
                        }
                        w[x as usize] = false;
                    }
                    if r.len() != n {
                        return fail(format!("removal {k} of {n} words yields {r:?}"));
                    }
                    if k % 16 == 0 || k + 2 > 599 / n {
                        verify(&m, &w, format!("removal {k}"))?;
                    }
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("300 separate words in order {}, those between in order {}, all removed {} at a time", c[0], c[1], c[2])),
        },
        Family {
            name: "pair",
            bounds: format!("all pairs of ranges and of updates of up to {width} words at {} places", bases.len()),
            jobs: bases.iter().flat_map(|b| (0..width).map(move |i| vec![*b, i])).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for n in 1..=width - job[1] {
                    for j in 0..width {
                        for m in 1..=width - j {
                            sink(&[job[0], job[1], n, j, m]);
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let (i, n, j, m) = (c[0] + c[1], c[2], c[0] + c[3], c[4]);
                let a = Range { first_index: i as u32, last_index: (i + n - 1) as u32 };
                let b = Range { first_index: j as u32, last_index: (j + m - 1) as u32 };
                let overlap = i < j + m && j < i + n;
                let touch = i + n == j || j + m == i;
                step(hash(&c));
                steps(6);
                if a.len() as u64 != n || a.is_empty() {
                    return fail(format!("{a:?} has len {} and is_empty {}", a.len(), a.is_empty()));
                }
                if a.intersects(&b) != overlap {
                    return fail(format!("{a:?} intersects {b:?}: {}", !overlap));
                }
                let (u, v) = (update(i, n, 1), update(j, m, 2));
                if u.intersects(&v) != overlap {
                    return fail(format!("{u:?} intersects {v:?}: {}", !overlap));
                }
                if !overlap {
                    if a.should_merge_with(&b) != touch {
                        return fail(format!("{a:?} should merge with {b:?}: {}", !touch));
                    }
                    if touch {
                        let mut x = a;
                        x.union(b);
                        if x.first_index as u64 != i.min(j) || x.last_index as u64 + 1 != (i + n).max(j + m) {
                            return fail(format!("the union of {a:?} and {b:?} is {x:?}"));
                        }
                    }
                } else {
                    let mut x = u.clone();
                    x.union(v.clone());
                    let (s, e) = (i.min(j), (i + n).max(j + m));
                    let want: Vec<u32> = (s..e).map(|w| if w >= j && w < j + m { v.elements[(w - j) as usize] } else { u.elements[(w - i) as usize] }).collect();
                    if x.array != Array::new(s as u32, (e - s) as u32) || x.elements != want {
                        return fail(format!("the union of {u:?} and {v:?} is {x:?}"));
                    }
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("{} words at {} and {} words at {}", c[2], c[0] + c[1], c[4], c[0] + c[3])),
        },
        Family {
            name: "array",
            bounds: "all arrays of 1..=12, 255..=257, 65535..=65537 and 2^24 items of 1, 2, 3 and 16 words at indices 0..=40".to_string(),
            jobs: (0..=40).map(|i| vec![i]).collect(),
            expand: Box::new(|job: Case, sink: Sink| {
                for n in (1..=12).chain([255, 256, 257, 65535, 65536, 65537, 1 << 24]) {
                    sink(&[job[0], n]);
                }
            }),
            run: Box::new(|c: Case| {
                fn one<T: SlabItem>(i: u32, n: u32) -> Result<(), String> {
                    let r = Range::from(Array::<T>::new(i, n));
                    step(hash(&(i, n, T::SLAB_SIZE)));
                    if r.first_index != i || r.last_index + 1 != i + n * T::SLAB_SIZE as u32 || r.len() != n * T::SLAB_SIZE as u32 {
                        return fail(format!("with {} words each it is {r:?}", T::SLAB_SIZE));
                    }
                    Ok(())
                }
                let (i, n) = (c[0] as u32, c[1] as u32);
                one::<u32>(i, n)?;
                one::<u64>(i, n)?;
                one::<(u32, u64)>(i, n)?;
                one::<[u128; 4]>(i, n)
            }),
            text: Box::new(|c: Case| format!("the range of {} items at {}", c[1], c[0])),
        },
    ]
}
