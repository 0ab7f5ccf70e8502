//! The families of cases of every property.
use crate::slabs::*;
use crate::{hash, step, steps, tick, Case, Family, Sink};
use crabslab::*;
use std::sync::OnceLock;

pub fn types() -> &'static Vec<Box<dyn Ty>> {
    static T: OnceLock<Vec<Box<dyn Ty>>> = OnceLock::new();
    T.get_or_init(all_types)
}

fn ty(i: u64) -> &'static dyn Ty {
    &*types()[i as usize]
}

/// What a slab holds before anything is written.
const BACKGROUNDS: u64 = 4;
fn background(b: u64, n: usize) -> Vec<u32> {
    (0..n as u32)
        .map(|i| match b {
            0 => 0,
            1 => !0,
            2 => 1,
            _ => 0x9e37_79b9u32.wrapping_mul(i + 1) | 2,
        })
        .collect()
}

fn fail<T>(m: impl Into<String>) -> Result<T, String> {
    Err(m.into())
}

fn unchanged(before: &[u32], after: &[u32], except: std::ops::Range<usize>) -> Result<(), String> {
    if before.len() != after.len() {
        return fail(format!("the slab had {} words and now has {}", before.len(), after.len()));
    }
    for i in 0..before.len() {
        if before[i] != after[i] && !except.contains(&i) {
            return fail(format!("word {i} has changed from {:#x} to {:#x}", before[i], after[i]));
        }
    }
    Ok(())
}

fn all_type_jobs() -> Vec<Vec<u64>> {
    (0..types().len() as u64).map(|t| vec![t]).collect()
}

/// Numbers of items or of words that don't fit into fewer bits.
fn large_numbers() -> Vec<u64> {
    vec![254, 255, 256, 257, 258, 511, 512, 65533, 65534, 65535, 65536, 65537, 65538]
}

/// Jobs made of a type and an interval of its values.
fn value_jobs() -> Vec<Vec<u64>> {
    let mut v = vec![];
    for (t, ty) in types().iter().enumerate() {
        let n = ty.many() as u64;
        let mut a = 0;
        while a < n {
            v.push(vec![t as u64, a, (a + 2000).min(n)]);
            a += 2000;
        }
    }
    v
}

pub fn families(prop: &str, thorough: bool) -> Vec<Family> {
    match prop {
        "C01" => {
            let mut v = c01(thorough);
            v.extend(crate::words::c01());
            v
        }
        "C02" => c02(thorough),
        "C03" => c03(thorough),
        "C04" => c04(thorough),
        "C05" => c05(thorough),
        "C06" => c06(thorough),
        "C09" => c09(thorough),
        #[cfg(feature = "glam")]
        "C20" => crate::ranges::c20(thorough),
        _ => vec![],
    }
}

// ---- C01

fn c01(thorough: bool) -> Vec<Family> {
    let mut v = vec![
        Family {
            name: "roundtrip",
            bounds: format!("{} types, all of their values, 3 kinds of slab, indices 0..=2, 0..=1 words after it, 4 backgrounds", types().len()),
            jobs: value_jobs(),
            expand: Box::new(|job: Case, sink: Sink| {
                let few = ty(job[0]).few() as u64;
                for v in job[1]..job[2] {
                    for kind in 0..OWN {
                        let (is, bgs): (u64, u64) = if v < few { (3, BACKGROUNDS) } else { (2, 2) };
                        for i in 0..is {
                            for slack in 0..2 {
                                for bg in 0..bgs {
                                    sink(&[job[0], v, kind, i, slack, bg]);
                                }
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (v, i, slack) = (c[1] as usize, c[3] as usize, c[4] as usize);
                let mut s = AnySlab::new(c[2], background(c[5], i + t.size() + slack));
                t.write_indexed(&mut s, i, v);
                step(hash(&(c[0], s.words())));
                t.reads(&s, i as u32, v)?;
                let mut s = AnySlab::new(c[2], background(c[5], i + t.size() + slack));
                t.write(&mut s, i as u32, v);
                steps(2);
                t.reads(&s, i as u32, v)
            }),
            text: Box::new(|c: Case| {
                let t = ty(c[0]);
                format!("{} {} written at {} of a {} of {} words with background {}", t.name(), t.value(c[1] as usize), c[3], KINDS[c[2] as usize], c[3] as usize + t.size() + c[4] as usize, c[5])
            }),
        },
        Family {
            name: "pair",
            bounds: "all ordered pairs of types, 2 values each, either order, 0..=1 words between, all kinds of slab".into(),
            jobs: all_type_jobs(),
            expand: Box::new(|job: Case, sink: Sink| {
                for b in 0..types().len() as u64 {
                    for va in 0..2 {
                        for vb in 0..2 {
                            for order in 0..2 {
                                for gap in 0..2 {
                                    for kind in 0..OWN {
                                        sink(&[job[0], b, va, vb, order, gap, kind]);
                                    }
                                }
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let (a, b) = (ty(c[0]), ty(c[1]));
                let va = (c[2] as usize + a.few() - 1) % a.few();
                let vb = (c[3] as usize + b.few() - 1) % b.few();
                let j = a.size() + c[5] as usize;
                let mut s = AnySlab::new(c[6], background(3, j + b.size()));
                if c[4] == 0 {
                    a.write_indexed(&mut s, 0, va);
                    b.write_indexed(&mut s, j, vb);
                } else {
                    b.write_indexed(&mut s, j, vb);
                    a.write_indexed(&mut s, 0, va);
                }
                step(hash(&(c[0], c[1], s.words())));
                steps(3);
                a.reads(&s, 0, va)?;
                b.reads(&s, j as u32, vb)
            }),
            text: Box::new(|c: Case| format!("{} at 0 and {} after it and {} more words, {} first", ty(c[0]).name(), ty(c[1]).name(), c[5], if c[4] == 0 { "the former" } else { "the latter" })),
        },
        histories(thorough),
        Family {
            name: "large",
            bounds: format!("{} types, 3 values each, indices around 2^8, 2^9 and 2^16 in slabs that end 0..=1 words after the item, 3 kinds of slab", types().len()),
            jobs: all_type_jobs(),
            expand: Box::new(|job: Case, sink: Sink| {
                for i in large_numbers() {
                    for v in 0..ty(job[0]).few().min(3) as u64 {
                        for kind in 0..OWN {
                            for slack in 0..2 {
                                sink(&[job[0], v, kind, i, slack]);
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (v, i) = (t.few() - 1 - c[1] as usize, c[3] as usize);
                let before = background(3, i + t.size() + c[4] as usize);
                let mut s = AnySlab::new(c[2], before.clone());
                let n = t.write_indexed(&mut s, i, v);
                step(hash(&c));
                t.reads(&s, i as u32, v)?;
                if n != i + t.size() {
                    return fail(format!("it returns {n} instead of {}", i + t.size()));
                }
                unchanged(&before, s.words(), i..i + t.size())?;
                let mut s2 = AnySlab::new(c[2], before.clone());
                t.write(&mut s2, i as u32, v);
                steps(3);
                if s.words() != s2.words() {
                    return fail("write and write_indexed differ");
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("{} written at {} of a {} with {} words after it", ty(c[0]).name(), c[3], KINDS[c[2] as usize], c[4])),
        },
    ];
    if thorough {
        v.push(Family {
            name: "all32",
            bounds: "u32, i32, f32, Id: all 2^32 values".into(),
            jobs: (0..4096).map(|j| vec![j]).collect(),
            expand: Box::new(|job: Case, sink: Sink| sink(job)),
            run: Box::new(|c: Case| {
                let mut s = [3u32, 0, 5];
                for k in 0..1u64 << 20 {
                    let x = (c[0] << 20 | k) as u32;
                    if k % 65536 == 0 {
                        tick();
                    }
                    s[..].write(Id::new(1), &x);
                    let u: u32 = s[..].read(Id::new(1));
                    s[..].write(Id::new(1), &(x as i32));
                    let i: i32 = s[..].read(Id::new(1));
                    s[..].write(Id::new(1), &f32::from_bits(x));
                    let f: f32 = s[..].read(Id::new(1));
                    s[..].write(Id::new(1), &Id::<u64>::new(x));
                    let id: Id<u64> = s[..].read(Id::new(1));
                    if u != x || i != x as i32 || f.to_bits() != x || id.inner() != x || s[0] != 3 || s[2] != 5 {
                        return fail(format!("{x:#x} comes back as {u:#x}, {i:#x}, {:#x}, {:#x} and the words around as {} and {}", f.to_bits(), id.inner(), s[0], s[2]));
                    }
                }
                steps(8 << 20);
                Ok(())
            }),
            text: Box::new(|c: Case| format!("words {:#x}..", c[0] << 20)),
        });
    }
    v
}

/// Small types, for histories of writes to one slab.
fn small_types() -> &'static Vec<u64> {
    static T: OnceLock<Vec<u64>> = OnceLock::new();
    T.get_or_init(|| {
        let want = ["u8", "u64", "bool", "Option<u16>", "Small", "[i16; 2]", "Unit", "(u8, u64)", "Option<bool>", "Flags", "i8"];
        types().iter().enumerate().filter(|(_, t)| want.contains(&t.name().as_str()) && t.size() <= 3).map(|(i, _)| i as u64).collect()
    })
}

const HLEN: usize = 4;

/// Writes of all kinds of items, on top of each other: what has not been overwritten still reads back.
fn histories(thorough: bool) -> Family {
    let ops: Vec<(u64, usize, usize)> = small_types().iter().flat_map(|t| (0..2).flat_map(move |v| (0..=HLEN).map(move |i| (*t, v, i)))).collect();
    let n = ops.len() as u64;
    let depth = if thorough { 4 } else { 3 };
    let ops2 = ops.clone();
    Family {
        name: "histories",
        bounds: format!("all histories of {depth} writes of {} types, 2 values each, at indices 0..={HLEN} of {HLEN} words", small_types().len()),
        jobs: (0..n).map(|a| vec![a]).collect(),
        expand: Box::new(move |job: Case, sink: Sink| {
            for b in 0..n {
                for c in 0..n {
                    if thorough {
                        for d in 0..n {
                            sink(&[(b + c + d) % OWN, job[0], b, c, d]);
                        }
                    } else {
                        for kind in 0..OWN {
                            sink(&[kind, job[0], b, c]);
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c: Case| {
            let before = background(3, HLEN);
            let mut s = AnySlab::new(c[0], before.clone());
            let mut owner = [usize::MAX; HLEN];
            for (k, o) in c[1..].iter().enumerate() {
                let (t, v, i) = ops[*o as usize];
                let t = ty(t);
                t.write_indexed(&mut s, i, v);
                if i + t.size() <= HLEN {
                    owner[i..i + t.size()].fill(k);
                }
                step(hash(&s.words()));
            }
            for (k, o) in c[1..].iter().enumerate() {
                let (t, v, i) = ops[*o as usize];
                let t = ty(t);
                if i + t.size() <= HLEN && owner[i..i + t.size()].iter().all(|w| *w == k) {
                    t.reads(&s, i as u32, v).map_err(|m| format!("write {k} of {} at {i}: {m}", t.name()))?;
                }
            }
            for i in 0..HLEN {
                if owner[i] == usize::MAX && s.words()[i] != before[i] {
                    return fail(format!("word {i} was never written, and has changed"));
                }
            }
            Ok(())
        }),
        text: Box::new(move |c: Case| {
            let w: Vec<String> = c[1..].iter().map(|o| { let (t, v, i) = ops2[*o as usize]; format!("{} {} at {i}", ty(t).name(), ty(t).value(v)) }).collect();
            format!("on a {} of {HLEN} words, {}", KINDS[c[0] as usize], w.join(", then "))
        }),
    }
}

// ---- C02

fn c02(thorough: bool) -> Vec<Family> {
    let width: u64 = if thorough { 5 } else { 3 };
    vec![
        Family {
            name: "footprint",
            bounds: format!("{} types, all of their values, 3 kinds of slab and write_slab itself, indices 0..=3, 0..=1 words after it, 4 backgrounds", types().len()),
            jobs: value_jobs(),
            expand: Box::new(move |job: Case, sink: Sink| {
                let few = ty(job[0]).few() as u64;
                for v in job[1]..job[2] {
                    let (ks, is, bgs) = if v < few { (OWN + 1, 4, BACKGROUNDS) } else if thorough { (2, 3, 2) } else { (1, 2, 1) };
                    for kind in 0..ks {
                        for i in 0..is {
                            for slack in 0..2 {
                                for bg in 0..bgs {
                                    sink(&[job[0], v, kind, i, slack, bg + (bgs == 1) as u64 * 3]);
                                }
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (v, i) = (c[1] as usize, c[3] as usize);
                let before = background(c[5], i + t.size() + c[4] as usize);
                let (n, after) = if c[2] == OWN {
                    let mut w = before.clone();
                    let n = t.write_slab(&mut w, i, v);
                    (n, w)
                } else {
                    let mut s = AnySlab::new(c[2], before.clone());
                    let n = t.write_indexed(&mut s, i, v);
                    let mut s2 = AnySlab::new(c[2], before.clone());
                    t.write(&mut s2, i as u32, v);
                    if s.words() != s2.words() {
                        return fail("write and write_indexed differ");
                    }
                    (n, s.words().to_vec())
                };
                step(hash(&(c[0], &after)));
                if n != i + t.size() {
                    return fail(format!("it returns {n} instead of {}", i + t.size()));
                }
                unchanged(&before, &after, i..i + t.size())
            }),
            text: Box::new(|c: Case| {
                let t = ty(c[0]);
                format!("{} {} written at {} of {} with {} words, background {}", t.name(), t.value(c[1] as usize), c[3], KINDS.get(c[2] as usize).filter(|_| c[2] < OWN).unwrap_or(&"words with write_slab"), c[3] as usize + t.size() + c[4] as usize, c[5])
            }),
        },
        Family {
            name: "independence",
            bounds: format!("{} types, all of their values and all words of their size from {} patterns, indices 0..=2, 0..=2 words after it, all pairs of backgrounds", types().len(), PATTERNS.len()),
            jobs: all_type_jobs(),
            expand: Box::new(|job: Case, sink: Sink| {
                let t = ty(job[0]);
                let n = t.few() as u64 + patterns60(t.size()).len() as u64;
                for v in 0..n {
                    for i in 0..3 {
                        for slack in 0..3 {
                            for bg in 0..BACKGROUNDS - 1 {
                                sink(&[job[0], v, i, slack, bg]);
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (i, slack) = (c[2] as usize, c[3] as usize);
                let mut own = vec![2; t.size()];
                if (c[1] as usize) < t.few() {
                    t.write_slab(&mut own, 0, c[1] as usize);
                } else {
                    own = patterns60(t.size()).get(c[1] as usize - t.few()).cloned().unwrap_or(own);
                }
                let mut a = background(c[4], i + t.size() + slack);
                a[i..i + t.size()].copy_from_slice(&own);
                step(hash(&(c[0], &a)));
                // alone, and among other words
                t.same_at(&a, i, &own, 0)?;
                let mut b = background(c[4] + 1, i + t.size() + slack);
                b[i..i + t.size()].copy_from_slice(&own);
                t.same_at(&a, i, &b, i)
            }),
            text: Box::new(|c: Case| format!("{} (value or pattern {}) read from {} with {} words after it and background {}", ty(c[0]).name(), c[1], c[2], c[3], c[4])),
        },
        Family {
            name: "slice",
            bounds: format!("{} types, slices of 0..={width} items, 3 kinds of slab, indices 0..=2, 0..=1 words after it, all rotations of their few values; slices of 255..=257, 300, 65535..=65537 and 70000 items", types().len()),
            jobs: all_type_jobs(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for n in [255, 256, 257, 300, 65535, 65536, 65537, 70000] {
                    let kinds = if n < 1000 || thorough { 0..OWN } else { n % OWN..n % OWN + 1 };
                    for kind in kinds {
                        sink(&[job[0], n, 1, kind, 1, 1]);
                    }
                }
                for n in 0..=width {
                    for rot in 0..ty(job[0]).few() as u64 {
                        for kind in 0..OWN {
                            for i in 0..3 {
                                for slack in 0..2 {
                                    sink(&[job[0], n, rot, kind, i, slack]);
                                }
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (n, rot, i, slack) = (c[1] as usize, c[2] as usize, c[4] as usize, c[5] as usize);
                let before = background(3, i + n * t.size() + slack);
                let vals: Vec<usize> = (0..n).map(|k| (k + rot) % t.few()).collect();
                let mut s = AnySlab::new(c[3], before.clone());
                let r = t.write_slice(&mut s, i, &vals);
                step(hash(&(c[0], s.words())));
                if r != i + n * t.size() {
                    return fail(format!("it returns {r} instead of {}", i + n * t.size()));
                }
                unchanged(&before, s.words(), i..i + n * t.size())?;
                tick();
                // the same as one after the other
                let mut one = AnySlab::new(c[3], before);
                for (k, v) in vals.iter().enumerate() {
                    let at = i + k * t.size();
                    t.write_indexed(&mut one, at, *v);
                    t.reads(&s, at as u32, *v).map_err(|m| format!("item {k}: {m}"))?;
                }
                steps(n as u64);
                if one.words() != s.words() {
                    return fail(format!("the slice is written as {:?} and its items one by one as {:?}", s.words(), one.words()));
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("{} items of {} from value {} on, written at {} of a {} with {} words after them", c[1], ty(c[0]).name(), c[2], c[4], KINDS[c[3] as usize], c[5])),
        },
    ]
}

// ---- C03

/// Indices around a slab of `len` words for items of `size` words.
fn indices(len: usize, size: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=len as u64 + 2).collect();
    for k in 0..=size as u64 + 1 {
        v.push(u32::MAX as u64 - k);
        v.push(u64::MAX - k);
        v.push((1 << 32) + k);
        v.push((1 << 63) + k);
    }
    v.push(1 << 31);
    v
}

fn c03(thorough: bool) -> Vec<Family> {
    let widest: u64 = if thorough { 5 } else { 3 };
    vec![
        Family {
            name: "item",
            bounds: format!("{} types, slabs of 0..=size+3 words, all indices up to 2 past the end and those around 2^31, 2^32, 2^63 and 2^64, all 4 kinds of slab; slabs of 255..=257, 2^16 and 70000 words at indices around their ends", types().len()),
            jobs: all_type_jobs(),
            expand: Box::new(|job: Case, sink: Sink| {
                let t = ty(job[0]);
                for kind in 0..KINDS.len() as u64 {
                    for len in 0..=t.size() + 3 {
                        for i in indices(len, t.size()) {
                            for bg in 0..2 {
                                sink(&[job[0], kind, len as u64, i, bg]);
                            }
                        }
                    }
                    for len in [255, 256, 257, 65535, 65536, 65537 + t.size() as u64, 70000] {
                        let size = t.size() as u64;
                        for i in [0, len - size - 1, len - size, len - size + 1, len - 1, len, len + 1, len + 256, len + 65536, (1 << 16) - size, 1 << 16, (1 << 24) + 1, (1 << 31) + 1, u32::MAX as u64, (1 << 32) + 1] {
                            sink(&[job[0], kind, len, i, 0]);
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (len, i) = (c[2] as usize, c[3] as usize);
                let before = background(if c[4] == 0 { 3 } else { 2 }, len);
                let inside = i.checked_add(t.size()).is_some_and(|e| e <= len);
                let mut s = AnySlab::new(c[1], before.clone());
                if s.len() != len || s.is_empty() != (len == 0) {
                    return fail(format!("len {} is_empty {}", s.len(), s.is_empty()));
                }
                let v = t.few() - 1;
                if let Ok(id) = u32::try_from(i) {
                    if t.contains(&s, id) != inside {
                        return fail(format!("contains gives {}", !inside));
                    }
                    if inside {
                        t.reads_words(&s, id, &before, i)?;
                    } else {
                        t.reads_default(&s, id)?;
                    }
                    let mut s2 = AnySlab::new(c[1], before.clone());
                    t.write(&mut s2, id, v);
                    step(hash(&(c[0], s2.words())));
                    if inside {
                        unchanged(&before, s2.words(), i..i + t.size())?;
                        t.reads(&s2, id, v)?;
                    } else {
                        unchanged(&before, s2.words(), 0..0).map_err(|m| format!("by a write that doesn't fit, {m}"))?;
                    }
                }
                let n = t.write_indexed(&mut s, i, v);
                step(hash(&(c[0], s.words())));
                steps(3);
                if inside {
                    if n != i + t.size() {
                        return fail(format!("a write that fits returns {n}"));
                    }
                    return t.reads(&s, i as u32, v);
                }
                if n != i {
                    return fail(format!("a write that doesn't fit returns {n}"));
                }
                unchanged(&before, s.words(), 0..0).map_err(|m| format!("by a write that doesn't fit, {m}"))
            }),
            text: Box::new(|c: Case| format!("{} ({} words) at {} of a {} of {} words", ty(c[0]).name(), ty(c[0]).size(), c[3], KINDS[c[1] as usize], c[2])),
        },
        Family {
            name: "slice",
            bounds: format!("{} types, slices and arrays of 0..={widest} items, slabs of 0..=all their words+2, all indices up to 2 past the end and the extreme ones, all kinds of slab; 257 and 65537 items at the end of slabs and past it", types().len()),
            jobs: all_type_jobs(),
            expand: Box::new(move |job: Case, sink: Sink| {
                let t = ty(job[0]);
                for n in 0..=widest {
                    let all = n as usize * t.size();
                    // all the lengths of slabs for small items, those around the ends of items for others
                    let lens: Vec<usize> = (0..=all + 2).filter(|l| t.size() < 4 || thorough || l % t.size() < 2 || l % t.size() == t.size() - 1).collect();
                    if n == widest {
                        for n in [257u64, 65537] {
                            let all = n * t.size() as u64;
                            for (len, i) in [(all, 0), (all, 1), (all + 1, 1), (all + 1, 2), (all + 70000, 70000), (all + 70000, 70001), (all / 2, 0), (all + 5, 1 << 16), (all + 5, all)] {
                                sink(&[job[0], n, len, i, (n + i) % KINDS.len() as u64]);
                            }
                        }
                    }
                    for len in lens {
                        for i in indices(len, 1) {
                            sink(&[job[0], n, len as u64, i, i.wrapping_add(len as u64 + n) % KINDS.len() as u64]);
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (n, len, i) = (c[1] as usize, c[2] as usize, c[3] as usize);
                let words = n * t.size();
                let vals: Vec<usize> = (0..n).map(|k| (k + 1) % t.few()).collect();
                let before = background(3, len);
                let inside = i.checked_add(words).is_some_and(|e| e <= len);
                let verify = |what: &str, s: &AnySlab| -> Result<(), String> {
                    step(hash(&(c[0], s.words())));
                    if inside {
                        unchanged(&before, s.words(), i..i + words).map_err(|m| format!("{what}: {m}"))?;
                        for (k, v) in vals.iter().enumerate() {
                            t.reads(s, (i + k * t.size()) as u32, *v).map_err(|m| format!("{what}, item {k}: {m}"))?;
                        }
                        Ok(())
                    } else {
                        unchanged(&before, s.words(), 0..0).map_err(|m| format!("{what} that doesn't fit: {m}"))
                    }
                };
                let mut s = AnySlab::new(c[4], before.clone());
                let r = t.write_slice(&mut s, i, &vals);
                verify("a slice write", &s)?;
                // nothing at all may be written anywhere, or be rejected as it is not in the slab: both are "the same index"
                if r != if inside { i + words } else { i } {
                    return fail(format!("a slice write returns {r}"));
                }
                if let Ok(id) = u32::try_from(i) {
                    let mut s = AnySlab::new(c[4], before.clone());
                    t.write_array(&mut s, id, n as u32, &vals);
                    verify("an array write", &s)?;
                    // unless the ids of its items can't be numbered
                    if i + words <= u32::MAX as usize {
                        t.read_vec(&s, id, n as u32)?;
                        let s = AnySlab::new(c[4], before.clone());
                        t.read_vec(&s, id, n as u32)?;
                    }
                }
                steps(2);
                Ok(())
            }),
            text: Box::new(|c: Case| format!("{} items of {} ({} words each) at {} of a {} of {} words", c[1], ty(c[0]).name(), ty(c[0]).size(), c[3], KINDS[c[4] as usize], c[2])),
        },
    ]
}

// ---- C04

const PATTERNS: [u32; 14] = [0, 1, 2, 3, 4, 5, 0xff, 0x100, 0x101, 0x1_0001, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, !0];

/// Words of arbitrary contents.
fn patterns(size: usize, limit: usize) -> Vec<Vec<u32>> {
    crate::items::combos(&vec![PATTERNS.len(); size], limit).into_iter().map(|c| c.into_iter().map(|i| PATTERNS[i]).collect()).collect()
}

/// Some of them, for every size.
fn patterns60(size: usize) -> &'static Vec<Vec<u32>> {
    static P: OnceLock<Vec<Vec<Vec<u32>>>> = OnceLock::new();
    &P.get_or_init(|| (0..64).map(|n| patterns(n, 60)).collect())[size]
}

fn c04(thorough: bool) -> Vec<Family> {
    let limit = if thorough { 14 * 14 * 14 * 14 * 14 } else { 14 * 14 * 14 };
    let all = move |t: &dyn Ty| -> Vec<Vec<u32>> {
        let mut v = patterns(t.size(), limit);
        if t.size() > 3 {
            // any two words at once, around three backgrounds
            for bg in [0u32, 1, !0] {
                for a in 0..t.size().min(8) {
                    for b in a + 1..t.size().min(8) {
                        for x in PATTERNS {
                            for y in PATTERNS {
                                let mut w = vec![bg; t.size()];
                                w[a] = x;
                                w[b] = y;
                                v.push(w);
                            }
                        }
                    }
                }
            }
        }
        v
    };
    vec![
        Family {
            name: "decode",
            bounds: format!("{} types, all words from {} patterns if there are at most {limit} of them, else all pairs of words", types().len(), PATTERNS.len()),
            jobs: all_type_jobs(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for w in all(ty(job[0])) {
                    let mut c = vec![job[0]];
                    c.extend(w.into_iter().map(u64::from));
                    sink(&c);
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let w: Vec<u32> = c[1..].iter().map(|x| *x as u32).collect();
                step(hash(&(c[0], &w)));
                steps(6);
                t.decodes(&w)?;
                // through a slab
                let s = AnySlab::new(1, w.clone());
                t.reads_words(&s, 0, &w, 0)
            }),
            text: Box::new(|c: Case| format!("{} read from {:x?}", ty(c[0]).name(), &c[1..])),
        },
        Family {
            name: "word",
            bounds: if thorough { "all types of one word: all 2^32 words".into() } else { "all types of one word: words 0..2^17, the last 2^17 and those with one bit set".to_string() },
            jobs: {
                let ones: Vec<u64> = (0..types().len() as u64).filter(|t| ty(*t).size() == 1).collect();
                let chunks: Vec<u64> = if thorough { (0..1 << 15).collect() } else { vec![0, (1 << 15) - 1, 1 << 15] };
                ones.iter().flat_map(|t| chunks.iter().map(move |c| vec![*t, *c])).collect()
            },
            expand: Box::new(|job: Case, sink: Sink| sink(job)),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                if c[1] == 1 << 15 {
                    for b in 0..32 {
                        for d in 0..512u32 {
                            t.decodes(&[(1u32 << b) ^ d]).map_err(|m| format!("{:#x} {m}", (1u32 << b) ^ d))?;
                        }
                    }
                    steps(32 * 512);
                    return Ok(());
                }
                for k in 0..1u64 << 17 {
                    let x = (c[1] << 17 | k) as u32;
                    t.decodes(&[x]).map_err(|m| format!("{x:#x} {m}"))?;
                    if k % 8192 == 0 {
                        tick();
                    }
                }
                steps(1 << 17);
                Ok(())
            }),
            text: Box::new(|c: Case| format!("{} read from words {:#x}..", ty(c[0]).name(), c[1] << 17)),
        },
    ]
}

// ---- C05

/// (operation, type, argument)
fn grow_ops(thorough: bool) -> Vec<(u64, u64, u64)> {
    let names: &[&str] = if thorough { &["u32", "Unit", "(u8, u64)", "Option<u16>", "u128"] } else { &["u32", "Unit", "(u8, u64)"] };
    let mut v = vec![];
    for (i, t) in types().iter().enumerate() {
        if !names.contains(&t.name().as_str()) {
            continue;
        }
        let i = i as u64;
        v.push((0, i, 0)); // append
        v.push((1, i, 0)); // append_array
        v.push((1, i, 1));
        v.push((1, i, 3));
        v.push((2, i, 0)); // allocate
        v.push((3, i, 0)); // allocate_array
        v.push((3, i, 2));
        if t.size() > 0 {
            v.push((4, i, 0)); // write at the last item's place
        }
        if t.size() != 1 {
            v.push((6, i, 2)); // maybe_expand_to_fit
        }
    }
    for n in 0..6 {
        v.push((5, 0, n)); // reserve_capacity
    }
    v.push((7, 0, 1)); // increment_len
    v
}

/// Starting slabs: kind, words, spare capacity.
fn start(k: u64) -> (u64, AnySlab) {
    let kind = 1 + k % 3;
    let v = match k / 3 {
        0 => vec![],
        1 => Vec::with_capacity(3),
        _ => {
            let mut v = Vec::with_capacity(2);
            v.extend([7, 8]);
            v
        }
    };
    (kind, AnySlab::new(kind, v))
}

fn c05(thorough: bool) -> Vec<Family> {
    let depth = 4;
    let ops = grow_ops(thorough);
    let n = ops.len() as u64;
    let o2 = ops.clone();
    let text = move |c: Case| {
        let w: Vec<String> = c[1..]
            .iter()
            .map(|o| {
                let (k, t, a) = o2[*o as usize];
                let t = ty(t).name();
                match k {
                    0 => format!("append {t}"),
                    1 => format!("append_array {a} {t}"),
                    2 => format!("allocate {t}"),
                    3 => format!("allocate_array {a} {t}"),
                    4 => format!("write {t}"),
                    5 => format!("reserve_capacity {}", ["0", "1", "the length", "the capacity", "the capacity and one", "17"][a as usize]),
                    6 => format!("maybe_expand_to_fit {a} {t}"),
                    _ => "increment_len 1".to_string(),
                }
            })
            .collect();
        let (k, s) = start(c[0]);
        format!("on a {} with {} words and capacity {}: {}", KINDS[k as usize], s.len(), s.capacity(), w.join(", "))
    };
    let bounds = format!("all histories of {depth} operations out of {n}, on 3 kinds of growable slab with 3 starting points");
    let run = move |c: Case| -> Result<(), String> {
        let (_, mut s) = start(c[0]);
        let mut model = s.words().to_vec();
        let mut vals = 0usize;
        for o in &c[1..] {
            let (k, tn, a) = ops[*o as usize];
            let t = ty(tn);
            let cap = s.capacity();
            let end = model.len();
            vals += 1;
            let expect_array = |got: (u32, u32), n: usize| -> Result<(), String> {
                // an empty array is nowhere in particular
                if n > 0 && got != (end as u32, n as u32) || got.1 != n as u32 {
                    fail(format!("{n} items end up in {got:?} instead of at {end}"))
                } else {
                    Ok(())
                }
            };
            match k {
                0 => {
                    let v = vals % t.few();
                    let id = t.append(&mut s, v);
                    if id as usize != end {
                        return fail(format!("appended at {id} instead of {end}"));
                    }
                    // the words that an item doesn't write are those that were allocated
                    model.resize(end + t.size(), 0);
                    t.write_slab(&mut model, end, v);
                    t.reads(&s, id, v)?;
                }
                1 => {
                    let v: Vec<usize> = (0..a as usize).map(|i| (i + vals) % t.few()).collect();
                    let r = t.append_array(&mut s, &v);
                    expect_array(r, v.len())?;
                    model.resize(end + v.len() * t.size(), 0);
                    for (i, v) in v.iter().enumerate() {
                        t.write_slab(&mut model, end + i * t.size(), *v);
                        t.reads(&s, r.0 + (i * t.size()) as u32, *v)?;
                    }
                    t.read_vec(&s, r.0, r.1)?;
                }
                2 => {
                    let id = t.allocate(&mut s);
                    if id as usize != end {
                        return fail(format!("allocated at {id} instead of {end}"));
                    }
                    model.resize(end + t.size(), 0);
                }
                3 => {
                    let r = t.allocate_array(&mut s, a as usize);
                    expect_array(r, a as usize)?;
                    model.resize(end + a as usize * t.size(), 0);
                }
                4 => {
                    if let Some(i) = end.checked_sub(t.size()) {
                        let v = vals % t.few();
                        t.write(&mut s, i as u32, v);
                        t.write_slab(&mut model, i, v);
                    }
                }
                5 => {
                    let n = [0, 1, s.len(), cap, cap + 1, 17][a as usize];
                    s.reserve(n);
                    if s.capacity() < n {
                        return fail(format!("after reserving {n} the capacity is {}", s.capacity()));
                    }
                }
                6 => {
                    t.expand(&mut s, a as usize);
                    if s.capacity() < end + a as usize * t.size() {
                        return fail(format!("after expanding to fit {} more words the capacity is {}", a as usize * t.size(), s.capacity()));
                    }
                }
                _ => {
                    let i = s.increment(1);
                    if i != end {
                        return fail(format!("increment_len returns {i} instead of {end}"));
                    }
                    model.push(0);
                }
            }
            step(hash(&(s.words(), s.capacity())));
            if s.capacity() < cap {
                return fail(format!("the capacity has shrunk from {cap} to {}", s.capacity()));
            }
            if s.capacity() < s.len() {
                return fail(format!("the capacity is {} and the length {}", s.capacity(), s.len()));
            }
            if s.words() != model {
                return fail(format!("it holds {:?} instead of {:?}", s.words(), model));
            }
            if s.len() != model.len() || s.is_empty() != model.is_empty() {
                return fail(format!("its length is {} instead of {}", s.len(), model.len()));
            }
        }
        Ok(())
    };
    vec![
        Family {
            name: "grow",
            bounds,
            jobs: (0..9).flat_map(|s| (0..n).map(move |o| vec![s, o])).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for b in 0..n {
                    for c in 0..n {
                        // the deepest level for two of the starting points
                        if thorough || (job[0] == 0 || job[0] == 8) {
                            for d in 0..n {
                                sink(&[job[0], job[1], b, c, d]);
                            }
                        } else {
                            sink(&[job[0], job[1], b, c]);
                        }
                    }
                }
            }),
            run: Box::new(run),
            text: Box::new(text),
        },
        Family {
            name: "long",
            bounds: format!("{} types, 0..=40 repetitions of append, append_array, allocate, allocate_array with arrays of 0..=9 items, on 3 kinds of growable slab", types().len()),
            jobs: all_type_jobs(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for s in 0..9 {
                    for k in 0..4 {
                        for n in 0..if k % 2 == 1 { 10 } else { 1 } {
                            sink(&[job[0], s, k, n]);
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (_, mut s) = start(c[1]);
                let mut model = s.words().to_vec();
                for r in 0..40 {
                    let end = model.len();
                    let n = if c[2] % 2 == 1 { c[3] as usize } else { 1 };
                    let vals: Vec<usize> = (0..n).map(|i| (i + r) % t.few()).collect();
                    let at = match c[2] {
                        0 => (t.append(&mut s, vals[0]), 1),
                        1 => t.append_array(&mut s, &vals),
                        2 => (t.allocate(&mut s), 1),
                        _ => t.allocate_array(&mut s, n),
                    };
                    model.resize(end + n * t.size(), 0);
                    if c[2] < 2 {
                        for (i, v) in vals.iter().enumerate() {
                            t.write_slab(&mut model, end + i * t.size(), *v);
                        }
                    }
                    step(hash(&(s.words(), s.capacity())));
                    if n > 0 && at != (end as u32, n as u32) || at.1 != n as u32 {
                        return fail(format!("repetition {r} ends up in {at:?} instead of at {end}"));
                    }
                    if s.words() != model || s.len() != model.len() || s.capacity() < s.len() {
                        return fail(format!("after repetition {r} it holds {:?} instead of {:?}", s.words(), model));
                    }
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("{} on start {}, 40 times {} {}", ty(c[0]).name(), c[1], ["append", "append_array", "allocate", "allocate_array"][c[2] as usize], c[3])),
        },
        Family {
            name: "large",
            bounds: format!("{} types, slabs of 0, 250..=258, 65530..=65538 and 70000 words without spare capacity, twice each of append, append_array, allocate, allocate_array, maybe_expand_to_fit with 1, 257 and 65537 items", types().len()),
            jobs: all_type_jobs(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for start in [0u64, 70000].into_iter().chain(250..=258).chain(65530..=65538) {
                    for k in 0..5 {
                        for n in if k % 2 == 0 && k != 4 { &[1u64][..] } else if thorough || start % 9 == 0 { &[1, 257, 65537][..] } else { &[2, 257][..] } {
                            sink(&[job[0], 1 + (start + k) % 3, start, k, *n]);
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let mut s = AnySlab::new(c[1], background(3, c[2] as usize));
                let mut model = s.words().to_vec();
                for r in 0..2 {
                    tick();
                    let end = model.len();
                    let n = c[4] as usize;
                    let cap = s.capacity();
                    let vals: Vec<usize> = (0..n).map(|i| (i + r) % t.few()).collect();
                    let at = match c[3] {
                        0 => (t.append(&mut s, vals[0]), 1),
                        1 => t.append_array(&mut s, &vals),
                        2 => (t.allocate(&mut s), 1),
                        3 => t.allocate_array(&mut s, n),
                        _ => {
                            t.expand(&mut s, n);
                            if s.capacity() < end + n * t.size() {
                                return fail(format!("after expanding to fit {} more words the capacity is {}", n * t.size(), s.capacity()));
                            }
                            if s.increment(n * t.size()) != end {
                                return fail("increment_len does not return the previous length");
                            }
                            (end as u32, n as u32)
                        }
                    };
                    model.resize(end + n * t.size(), 0);
                    if c[3] < 2 {
                        for (i, v) in vals.iter().enumerate() {
                            t.write_slab(&mut model, end + i * t.size(), *v);
                        }
                    }
                    step(hash(&(&c, r)));
                    if at != (end as u32, n as u32) {
                        return fail(format!("repetition {r} ends up in {at:?} instead of at {end}"));
                    }
                    if s.len() != model.len() || s.capacity() < s.len() || s.capacity() < cap {
                        return fail(format!("after repetition {r} the length is {} instead of {} and the capacity {}", s.len(), model.len(), s.capacity()));
                    }
                    unchanged(&model, s.words(), 0..0).map_err(|m| format!("after repetition {r}, {m}"))?;
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("on a {} of {} words, twice {} of {} {}", KINDS[c[1] as usize], c[2], ["append", "append_array", "allocate", "allocate_array", "maybe_expand_to_fit"][c[3] as usize], c[4], ty(c[0]).name())),
        },
    ]
}

// ---- C06

fn c06(thorough: bool) -> Vec<Family> {
    let (most, span): (u64, u64) = if thorough { (9, 12) } else { (6, 8) };
    vec![
        Family {
            name: "array",
            bounds: format!("{} types, arrays of 0..={most} items at indices 0..={span}, the null array and indices near 2^31 and 2^32; 255..=257, 65535..=65537 and 70000 items, or at these indices", types().len()),
            jobs: all_type_jobs(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for n in 0..=most {
                    for i in 0..=span {
                        sink(&[job[0], i, n, 1]);
                    }
                    let room = (n * ty(job[0]).size() as u64).max(1);
                    for i in [u32::MAX as u64 - room, u32::MAX as u64 - room - 1, 1 << 31, (1 << 31) - 1] {
                        sink(&[job[0], i, n, 0]);
                    }
                }
                sink(&[job[0], u32::MAX as u64, 0, 0]);
                sink(&[job[0], u32::MAX as u64, 0, 1]);
                for n in [255, 256, 257, 65535, 65536, 65537, 70000] {
                    sink(&[job[0], 1, n, 0]);
                    sink(&[job[0], (1 << 24) + 1, n, 0]);
                    if n < 1000 || n == 65537 {
                        sink(&[job[0], 1, n, 2 + n % KINDS.len() as u64]);
                    }
                }
                for i in [255, 256, 257, 65535, 65536, 65537, 70000] {
                    sink(&[job[0], i, 3, 2 + i % KINDS.len() as u64]);
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (i, n) = (c[1] as u32, c[2] as u32);
                if c[3] == 0 {
                    steps(2 * n as u64 + 8);
                    return t.array(&[], i, n);
                }
                let len = if i == u32::MAX { 4 } else { i as usize + n as usize * t.size() };
                for slack in 0..2 {
                    let words = background(3, len + slack);
                    step(hash(&(c[0], i, n, slack)));
                    steps(2 * n as u64 + 8);
                    t.array(&words, i, n)?;
                    tick();
                    for kind in if c[3] == 1 { 0..KINDS.len() as u64 } else { c[3] - 2..c[3] - 1 } {
                        let s = AnySlab::new(kind, words.clone());
                        t.read_vec(&s, i, n)?;
                    }
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("an array of {} {} ({} words each) at {}", c[2], ty(c[0]).name(), ty(c[0]).size(), c[1])),
        },
        Family {
            name: "write",
            bounds: format!("{} types, arrays of 0..=4 items at indices 0..=3, data of 0..=6 items, 0..=2 words after it, all kinds of slab; arrays and data of 256..=257 and 65536..=65537 items", types().len()),
            jobs: all_type_jobs(),
            expand: Box::new(|job: Case, sink: Sink| {
                for (n, d) in [(257, 257), (257, 256), (256, 257), (65537, 65537), (65537, 1), (65537, 65536), (65536, 65537), (1, 65537)] {
                    sink(&[job[0], n, d, 1, 1, d % KINDS.len() as u64]);
                }
                for n in 0..=4 {
                    for d in 0..=6 {
                        for i in 0..=3 {
                            for slack in 0..=2 {
                                for kind in 0..KINDS.len() as u64 {
                                    sink(&[job[0], n, d, i, slack, kind]);
                                }
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let t = ty(c[0]);
                let (n, d, i, slack) = (c[1] as usize, c[2] as usize, c[3] as usize, c[4] as usize);
                // there is room for all of the data, but not all of it belongs into the array
                let before = background(3, i + n.max(d) * t.size() + slack);
                let vals: Vec<usize> = (0..d).map(|k| (k + 1) % t.few()).collect();
                let mut s = AnySlab::new(c[5], before.clone());
                t.write_array(&mut s, i as u32, n as u32, &vals);
                step(hash(&(c[0], s.words())));
                if d < n {
                    return unchanged(&before, s.words(), 0..0).map_err(|m| format!("with less data than items {m}"));
                }
                unchanged(&before, s.words(), i..i + n * t.size())?;
                for k in 0..n {
                    t.reads(&s, (i + k * t.size()) as u32, vals[k]).map_err(|m| format!("item {k}: {m}"))?;
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("{} items of {} written into an array of {} at {} of a {} with {} more words", c[2], ty(c[0]).name(), c[1], c[3], KINDS[c[5] as usize], c[4])),
        },
        Family {
            name: "union",
            bounds: format!("all pairs of word arrays of 1..={span} words at indices 0..={span} and shifted by 2^31 and to the end of the address space, or with everything multiplied by 100, 255..=257, 65535..=65537, 2^24 and 2^27+1"),
            jobs: [0u64, 1 << 31, u32::MAX as u64 - 2 * span - 1].into_iter().flat_map(|b| (0..=span).map(move |i| vec![b, i])).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for n in 1..=span {
                    for j in 0..=span {
                        for m in 1..=span {
                            sink(&[job[0] + job[1], n, job[0] + j, m]);
                            if job[0] == 0 {
                                for scale in [100, 255, 256, 257, 65535, 65536, 65537, 1 << 24, (1 << 27) + 1] {
                                    sink(&[scale * job[1], scale * n, scale * j, scale * m]);
                                }
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let (i, n, j, m) = (c[0] as u32, c[1] as u32, c[2] as u32, c[3] as u32);
                let mut a = Array::<u32>::new(i, n);
                let b = Array::<u32>::new(j, m);
                a.union(&b);
                step(hash(&(i, n, j, m)));
                let start = i.min(j);
                let end = (i as u64 + n as u64).max(j as u64 + m as u64);
                if a.index != start || a.index as u64 + a.len as u64 != end {
                    return fail(format!("the union is {a:?}"));
                }
                if b != Array::new(j, m) {
                    return fail("the argument has changed");
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("the union of {} words at {} and {} words at {}", c[1], c[0], c[3], c[2])),
        },
        Family {
            name: "contains",
            bounds: format!("all word arrays of 0..={span} words at indices 0..={span}, at 2^31 and at the end of the address space, all indices around; the same with everything multiplied by 100, 255..=257, 65535..=65537, 2^24 and 2^27+1, with the indices next to the ends"),
            jobs: [0u64, 1 << 31, u32::MAX as u64 - 2 * span].into_iter().map(|b| vec![b]).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for i in 0..=span {
                    for n in 0..=span {
                        for k in 0..=2 * span + 2 {
                            sink(&[job[0] + i, n, job[0] + k]);
                        }
                        for k in [0, u32::MAX as u64, 1 << 32, (1 << 32) + i, u64::MAX] {
                            sink(&[job[0] + i, n, k]);
                        }
                        if job[0] == 0 {
                            for scale in [100, 255, 256, 257, 65535, 65536, 65537, 1 << 24, (1 << 27) + 1] {
                                for k in 0..=2 * span + 2 {
                                    for d in [-1i64, 0, 1] {
                                        if let Ok(k) = u64::try_from((scale * k) as i64 + d) {
                                            sink(&[scale * i, scale * n, k]);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let a = Array::<u32>::new(c[0] as u32, c[1] as u32);
                step(hash(&c));
                let want = (c[0]..c[0] + c[1]).contains(&c[2]);
                if a.contains_index(c[2] as usize) != want {
                    return fail(format!("contains_index({}) is {}", c[2], !want));
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("whether {} words at {} contain {}", c[1], c[0], c[2])),
        },
    ]
}

// ---- C09

fn boundary_indices(thorough: bool) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    for b in 0..32 {
        for d in 0..if thorough { 4u32 } else { 2 } {
            v.push((1u32 << b).wrapping_add(d));
            v.push((1u32 << b).wrapping_sub(1 + d));
            v.push(u32::MAX.wrapping_sub(1u32 << b).wrapping_add(d));
        }
    }
    v.extend(0..20);
    v.extend((0..20).map(|i| u32::MAX - i));
    v.sort();
    v.dedup();
    v
}

fn std_hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn c09(thorough: bool) -> Vec<Family> {
    use crabslab::offset::Offset;
    let b = boundary_indices(thorough);
    let n = b.len();
    let (b1, b2) = (b.clone(), b.clone());
    vec![
        Family {
            name: "one",
            bounds: format!("{n} boundary indices, ids of three types"),
            jobs: b.iter().map(|i| vec![*i as u64]).collect(),
            expand: Box::new(|job: Case, sink: Sink| sink(job)),
            run: Box::new(|c: Case| {
                fn one<T: SlabItem>(i: u32) -> Result<(), String> {
                    let id = Id::<T>::new(i);
                    step(hash(&i));
                    steps(12);
                    if id.inner() != i || id.index() != i as usize || u32::from(id) != i {
                        return fail(format!("inner {} index {} u32 {}", id.inner(), id.index(), u32::from(id)));
                    }
                    if Id::<T>::from(i) != id || Id::<T>::from(i as usize) != id || Id::<T>::from(i).inner() != i || Id::<T>::from(i as usize).inner() != i {
                        return fail("conversions from integers differ");
                    }
                    if id.is_none() != (i == u32::MAX) || id.is_some() == id.is_none() {
                        return fail(format!("is_none {} is_some {}", id.is_none(), id.is_some()));
                    }
                    if Id::<T>::default().inner() != ID_NONE || Id::<T>::NONE.inner() != u32::MAX || (id == Id::default()) != (i == u32::MAX) {
                        return fail("the null id is not the default");
                    }
                    if id.clone() != id || id.cmp(&id) != std::cmp::Ordering::Equal {
                        return fail("it differs from itself");
                    }
                    let a = Array::from(id);
                    if a.index != i || a.len != 1 || a.len() != 1 || a.starting_index() != i as usize || a.at(0) != id {
                        return fail(format!("as an array it is {a:?}"));
                    }
                    let o = Id::<u32>::from(Offset::<u32, T>::new(i as usize));
                    if o.inner() != i || Offset::<u32, T>::new(i as usize).offset != i {
                        return fail(format!("an offset becomes the id {o:?}"));
                    }
                    Ok(())
                }
                let i = c[0] as u32;
                one::<u32>(i)?;
                one::<Option<u64>>(i)?;
                one::<[u8; 5]>(i)
            }),
            text: Box::new(|c: Case| format!("the id {}", c[0])),
        },
        Family {
            name: "pair",
            bounds: format!("all pairs of {n} boundary indices and offsets, all operand orders"),
            jobs: b.iter().map(|i| vec![*i as u64]).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                for j in &b1 {
                    sink(&[job[0], *j as u64]);
                }
            }),
            run: Box::new(|c: Case| {
                let (i, j) = (c[0] as u32, c[1] as u32);
                let (a, b) = (Id::<u64>::new(i), Id::<u64>::new(j));
                step(hash(&(i, j)));
                if (a == b) != (i == j) || (a != b) != (i != j) || a.cmp(&b) != i.cmp(&j) || a.partial_cmp(&b) != i.partial_cmp(&j) {
                    return fail("they don't compare as integers do");
                }
                if (a < b, a <= b, a > b, a >= b) != (i < j, i <= j, i > j, i >= j) || a.max(b).inner() != i.max(j) || a.min(b).inner() != i.min(j) {
                    return fail("they aren't ordered as integers are");
                }
                if std_hash(&a) != std_hash(&i) {
                    return fail("it doesn't hash as its index does");
                }
                if i == j && std_hash(&a) != std_hash(&b) {
                    return fail("equal ids have different hashes");
                }
                let Some(sum) = i.checked_add(j) else { return Ok(()) };
                steps(6);
                let o = Offset::<u32, u64>::new(j as usize);
                let got = [
                    (a + j).inner(),
                    (a + j as usize).inner(),
                    (j + a).inner(),
                    (j as usize + a).inner(),
                    (a + o).inner(),
                    (Offset::<u32, u64>::new(j as usize) + a).inner(),
                ];
                if got != [sum; 6] {
                    return fail(format!("the sums are {got:?} instead of {sum}"));
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("{} and {}", c[0], c[1])),
        },
        Family {
            name: "chain",
            bounds: "all chains of two offsets of 0..=40 and boundary values, with ids 0..=40 and boundary values".to_string(),
            jobs: (0..=40).chain(b2.iter().copied().map(u64::from)).map(|i| vec![i]).collect(),
            expand: Box::new(|job: Case, sink: Sink| {
                for j in (0..=40).chain([1 << 16, 1 << 31, (1u64 << 32) - 41]) {
                    for k in (0..=40).chain([1 << 16, 1 << 30]) {
                        sink(&[job[0], j, k]);
                    }
                }
            }),
            run: Box::new(|c: Case| {
                let Ok(sum) = u32::try_from(c[0] + c[1] + c[2]) else { return Ok(()) };
                let id = Id::<Option<[u64; 3]>>::new(c[0] as u32);
                let o = || Offset::<[u64; 3], Option<[u64; 3]>>::new(c[1] as usize);
                let p = || Offset::<u64, [u64; 3]>::new(c[2] as usize);
                step(hash(&c));
                steps(4);
                let got = [((id + o()) + p()).inner(), (p() + (o() + id)).inner(), (p() + (id + o())).inner(), ((o() + id) + p()).inner()];
                if got != [sum; 4] {
                    return fail(format!("they add up to {got:?} instead of {sum}"));
                }
                Ok(())
            }),
            text: Box::new(|c: Case| format!("id {} and offsets {} and {}", c[0], c[1], c[2])),
        },
    ]
}

// ---- outcomes, to compare configurations

pub fn digest(thorough: bool) {
    for t in common_types() {
        let mut h = 0u64;
        let mut n = 0;
        let mut put = |s: &str| {
            h = h.rotate_left(5) ^ hash(&s);
            n += 1;
        };
        for v in 0..t.few() + if thorough { t.many() } else { t.many().min(600) } - t.few() {
            for i in 0..2 {
                let mut w = background(3, i + t.size() + 1);
                let r = t.write_slab(&mut w, i, v);
                put(&format!("{r} {w:?}"));
            }
        }
        for p in patterns(t.size(), if thorough { 40_000 } else { 200 }) {
            put(&t.outcome(&p));
        }
        for kind in 1..OWN {
            for len in 0..t.size() + 2 {
                for i in 0..len + 2 {
                    let mut s = AnySlab::new(kind, background(3, len));
                    let r = t.write_indexed(&mut s, i, 0);
                    put(&format!("{r} {:?} {}", s.words(), t.contains(&s, i as u32)));
                    let a = t.append_array(&mut s, &[0, 0]);
                    let b = t.allocate(&mut s);
                    put(&format!("{a:?} {b} {:?} {:?}", s.words(), t.read_vec(&s, a.0, a.1)));
                }
            }
        }
        println!("{} {n} {h:x}", t.name());
    }
}
