//! Which histories decide which property.

use crate::world::*;

#[derive(Clone, Copy, PartialEq)]
pub enum RtKind {
    Cpu,
    Wgpu,
    Both,
}

impl RtKind {
    pub fn text(self) -> &'static str {
        match self {
            RtKind::Cpu => "cpu",
            RtKind::Wgpu => "wgpu",
            RtKind::Both => "both",
        }
    }
    pub fn parse(s: &str) -> RtKind {
        [RtKind::Cpu, RtKind::Wgpu, RtKind::Both].into_iter().find(|r| r.text() == s).expect("runtime")
    }
}

#[derive(Clone)]
pub struct Set {
    pub rt: RtKind,
    /// default buffer usages
    pub variant: usize,
    pub label: bool,
    /// with a logger that formats everything
    pub log: bool,
    pub init: String,
    pub ops: Vec<K>,
    pub depth: usize,
    pub thorough: usize,
    pub limits: Limits,
}

impl Clone for Limits {
    fn clone(&self) -> Self {
        Limits { ..*self }
    }
}

pub fn limits(handles: usize, objs: usize, bufs: usize) -> Limits {
    Limits { handles, objs, bufs }
}

pub fn active_of(prop: &str) -> u32 {
    match prop {
        // everything, after user code has panicked
        "C27" => C10 | C11 | C12 | C13 | C14 | C15 | C16 | C17 | C18 | C19 | C25 | C27,
        _ => 1 << prop[1..].parse::<u32>().unwrap(),
    }
}

/// Nothing has been committed.
const FRESH: &str = "";
/// One value in a full buffer.
const FULL: &str = "New1 Cm";
/// Three words in a buffer of four.
const ROOM: &str = "New3 Cm";
/// Live values at 0 and 3, free words 1-2 and 4-6, one more of the buffer's words never used.
const FRAG: &str = "New1 New2 New1 New3 Cm Drp.1 Drp.2 Cm";
/// As FRAG, with the drops of everything else pending.
const PEND: &str = "New1 New2 New1 New3 Cm Drp.1 Drp.2 Cm Drp.1 Set.0";
/// A hybrid, a clone, a weak and a GPU-only handle.
const HANDLES: &str = "New2 Cln.0 Wk.0 New1x2 Gpu.3 Cm";
/// Two buffers.
const GROWN: &str = "New1 CmK New2 Cm";

fn set(rt: RtKind, init: &str, ops: &str, depth: usize, thorough: usize, l: (usize, usize, usize)) -> Set {
    Set { rt, variant: 0, label: false, log: false, init: init.into(), ops: ks(ops), depth, thorough, limits: limits(l.0, l.1, l.2) }
}

/// Histories on top of more than fits into 8 or 16 bits.
fn large(rt: RtKind, ops: &str) -> Vec<Set> {
    let s = |init: &str, depth, thorough, l: (usize, usize, usize)| set(rt, init, ops, depth, thorough, l);
    vec![
        // arrays of more than 2^8 and 2^16 words, in the buffer and yet to come
        s("New1x300 New2x130 New1 Cm Drp.0", 3, 4, (5, 5, 1)),
        s("New1x65540 New1 Cm", 1, 2, (4, 4, 1)),
        s("New1 Cm New2x65537", 1, 2, (4, 4, 1)),
        // words beyond them in many pieces
        s("New1 New1x65540 New1 Cm Drp.1 Cm", 1, 2, (4, 4, 1)),
        // values
        s("300*New1 Cm", 2, 3, (400, 400, 1)),
        s("300*New1 Cm 100*( Drp.0 Drp.1 )", 2, 3, (400, 400, 1)),
        s("New1 300*( New1 New2 Drp.1 ) Cm New1", 2, 3, (400, 400, 1)),
        // updates
        s("New1x3 New2 Cm 300*Set.0 300*Set.1", 2, 3, (4, 4, 1)),
        // commits, numbers of values, words that have been freed (depth 0: thorough runs only)
        s("New1 New1x3 300*Cm", 2, 3, (4, 4, 1)),
        s("New2 255*( New1 Drp.1 ) Cm", 2, 3, (4, 4, 1)),
        s("New2 65540*( New1 Drp.1 ) Cm", 0, 1, (4, 4, 1)),
        s("New2 New1 65540*Cm", 1, 1, (4, 4, 1)),
        // owners of one value
        s("New2 Cm 300*Cln.0", 2, 3, (400, 4, 1)),
        s("New2 Wk.0 5*Cln.0 Gpu.2 Gpu.3 Gpu.4 Gpu.5", 3, 4, (12, 4, 1)),
        s("New2 Wk.0 Cm Gpu.0 300*Cln.0 WkG.1", 2, 3, (400, 4, 1)),
        s("New1x2 Cm 300*Cln.0 Gpu.0 Gpu.1", 2, 3, (400, 4, 1)),
    ]
}

/// As many of everything as any fixed number up to some hundreds.
const SCALE: [usize; 30] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];
fn scaled(rt: RtKind, inits: &[&str], ops: &str, depth: usize, thorough: usize) -> Vec<Set> {
    let mut v = vec![];
    for n in SCALE {
        for i in inits {
            let i = i.replace("{2n}", &(2 * n).to_string()).replace("{n+1}", &(n + 1).to_string()).replace("{n}", &n.to_string());
            v.push(set(rt, &i, ops, depth, thorough, (2 * n + 12, 2 * n + 12, n + 3)));
        }
    }
    v
}

/// Free regions of one word, then one of two, then one of three.
const HOLES: [&str; 4] = [
    "{2n}*New1 New2 New1 New3 New1 Cm {n}*Drp.# Drp.{n} Drp.{n+1} Cm",
    "{2n}*New1 New2 New1 New3 New1 Cm Drp.{2n} {n}*( Drp.# Cm ) Drp.{n+1} Cm",
    "New3 New1 New2 {2n}*New1 Cm Drp.0 Drp.1 {n}*Drp.# Cm",
    "{n}*( New2 New1 ) Cm {n}*Drp.# Cm {n}*New1",
];
/// Neighbours freed in order, in reverse order, and every other one of them first.
const NEIGHBOURS: [&str; 4] = [
    "{n}*New1 New1 Cm {n}*Drp.0 Cm",
    "{n}*New1 New1 Cm {n}*( Drp.0 Cm )",
    "{2n}*New1 New1 Cm {n}*( Drp.# Cm ) {n}*( Drp.0 Cm )",
    "{2n}*New2 New1 Cm {n}*Drp.# {n}*Drp.0",
];
/// Updates since the last commit.
const UPDATES: [&str; 8] = [
    "New1x3 New2 Cm {n}*Set.0",
    "New1x3 New2 Cm {n}*( Set.0 Set.0.2 )",
    "New2x3 New2 Cm {n}*( Set.1 Set.0.1 Set.0.2 )",
    "New2x2g New2g Cm {n}*( Set.1 Set.0.1 )",
    "New2x2 Cln.0 New1 Cln.2 Cm {n}*( Mod.0 Set.1.1 Mod.2 Set.3 )",
    "{n}*New1 Cm {n}*Set.#",
    "New2x{n} Cm {n}*Set.0.#",
    "New1x{n} New1x{n} Cm {n}*( Set.0.# Set.1.# )",
];
/// Values, arrays, weak handles, commits and growth.
const MANY: [&str; 8] = [
    "{n}*New2",
    "{n}*( New1 New2x2 ) Cm",
    "New2x{n} New1 Cm",
    "New1 New2x{n}",
    "New2 {n}*Wk.0 {n}*WkG.0 Cm",
    "New2 New1x2 {n}*Cm",
    "{n}*( New1 New2 Cm )",
    "New2 {n}*( New1x2 Drp.1 Cm )",
];
fn all_scaled(rt: RtKind, ops: &str, depth: usize, thorough: usize) -> Vec<Set> {
    let mut v = vec![];
    for p in [&HOLES[..], &NEIGHBOURS, &UPDATES, &MANY] {
        v.extend(scaled(rt, p, ops, depth, thorough));
    }
    v
}

/// Values with two to four owners of each kind.
fn many_owners(ops: &str, depth: usize, thorough: usize) -> Vec<Set> {
    ["New2 Cln.0 Cln.0 Cm", "New2 Cln.0 Cln.0 Cln.0 Cln.0 Gpu.3 Gpu.4 Cm", "New2x2 Cln.0 Cln.0 Cln.0 Gpu.3 Cm", "New1 Wk.0 WkG.0 Cln.0 Cln.0 Gpu.4 Cm"]
        .into_iter()
        .map(|i| set(RtKind::Cpu, i, ops, depth, thorough, (7, 2, 0)))
        .collect()
}

/// Values with every number of owners around powers of two.
fn exact_owners(ops: &str) -> Vec<Set> {
    let mut v = vec![];
    for n in [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512] {
        for i in ["New2", "New2x2", "New2 Gpu.1", "New2x2 Gpu.1"] {
            v.push(set(RtKind::Cpu, &format!("New3 Cm {i} {}*Cln.1", n - 1), ops, 2, 3, (600, 4, 0)));
            v.push(set(RtKind::Cpu, &format!("New3 Cm {i} {}*Cln.1 Cm", n - 1), ops, 2, 3, (600, 4, 0)));
        }
    }
    v
}

/// Items of many words.
const WIDE: [usize; 13] = [8, 16, 17, 18, 32, 33, 64, 65, 100, 128, 256, 257, 300];
fn wide(rt: RtKind, ops: &str, depth: usize, thorough: usize) -> Vec<Set> {
    WIDE.iter()
        .flat_map(|n| {
            [format!("New1 New{n} New{n}x3 Cm"), format!("New{n} Gpu.0 New3 New{n}x2 Gpu.2 Cm"), format!("New1 New{n}g New{n}x2g New1")]
                .map(|i| set(rt, &i, &format!("New{n} New{n}x2 {ops}"), depth, thorough, (5, 5, 0)))
        })
        .collect()
}

/// Arrays of every size up to some, and after a commit another one of every size up to some, and a value.
fn sizes(array: &str, before: &str, a: usize, b: usize) -> Vec<Set> {
    let ops: String = (0..b).map(|m| format!("{array}{m} ")).collect();
    (0..a).map(|n| set(RtKind::Cpu, &format!("{before} {array}{n} Cm"), &ops, 1, 1, (9, 9, 0))).collect()
}

pub fn sets_of(prop: &str) -> Vec<Set> {
    let mut v = small_sets_of(prop);
    use RtKind::*;
    if prop != "C24" {
        let logged: Vec<Set> = v.iter().map(|s| Set { log: true, depth: s.depth - 2, thorough: s.thorough - 1, ..s.clone() }).collect();
        v.extend(logged);
    }
    match prop {
        "C10" => {
            v.extend(all_scaled(Cpu, "New1 Set Same Drp Cm", 2, 2));
            v.extend(large(Cpu, "New1 New2x2 Set Mod Grd Cln Drp Cm"));
            // more updates between two commits than any fixed number of them
            for n in [5000, 70000] {
                v.push(set(Cpu, &format!("New1 New1 New1x2 Cm {n}*Set.0 Set.1"), "New1 Set Mod Grd Cln Drp", 1, 2, (5, 5, 1)));
                v.push(set(Cpu, &format!("New1 New1 New1x2 Cm {n}*( Set.0 Set.2.1 ) Drp.1"), "New1 Set Mod Drp Cm", 1, 2, (5, 5, 1)));
            }
            v.extend(wide(Cpu, "Set Same Zero Mod Grd Gpu Cln Drp Cm", 2, 3));
            v.push(set(Cpu, "New2 5000*New1", "New1 Set Drp Cm", 1, 2, (6000, 6000, 1)));
            v.push(set(Cpu, "New2 5000*New1 Cm 5000*Drp.1", "New1 Set Drp Cm", 1, 2, (6000, 6000, 1)));
        }
        "C11" => {
            v.extend(scaled(Cpu, &HOLES, "New1 New2 New3 New1x2 Drp Cm", 2, 3));
            v.extend(scaled(Cpu, &NEIGHBOURS, "New1 New2 New1x4 Drp Cm", 2, 3));
            v.extend(scaled(Cpu, &MANY, "New1 New2x2 Drp Cm", 2, 2));
            v.push(set(Cpu, FRESH, "New1 New1x2 ModN GrdN ArrN Drp Cm", 5, 6, (5, 4, 0)));
            v.push(set(Cpu, FRAG, "New1 New1x2 ModN GrdN ArrN Drp Cm", 4, 5, (7, 6, 0)));
            v.push(set(Cpu, "New2 Cm New1 Drp.1", "New1 New1x2 ModN GrdN ArrN Drp Cm", 4, 5, (7, 6, 0)));
            v.extend(large(Cpu, "New1 New3 New2x2 New1x300 Drp Cm"));
            v.extend(wide(Cpu, "New1 Drp Cm", 3, 4));
        }
        "C12" => {
            v.extend(scaled(Cpu, &UPDATES, "Set GpuW Drp Cm", 3, 3));
            v.extend(scaled(Cpu, &HOLES, "New2 GpuW Drp Cm", 2, 2));
            v.extend(scaled(Cpu, &MANY, "New1 Set GpuW Drp Cm", 2, 2));
            v.push(set(Cpu, FRESH, "New1x2 ModN GrdN ArrN Set Drp Cm", 5, 6, (5, 4, 0)));
            v.push(set(Cpu, FRAG, "New1x2 ModN GrdN ArrN Set Drp Cm", 4, 5, (7, 6, 0)));
            v.push(set(Cpu, "New2 Cm New1 Drp.1", "New1x2 ModN GrdN ArrN Set Drp Cm", 4, 5, (7, 6, 0)));
            v.extend(large(Cpu, "New1 New1x3 Set GrdR Drp Cm"));
            v.extend(many_owners("GrdR ModR Oob Set Cln Up Wk Drp Cm Insp Ask", 4, 5));
        }
        "C13" => {
            v.extend(scaled(Cpu, &HOLES, "New1 New2 New3 New1x4 Drp Cm Dfg", 2, 3));
            v.extend(scaled(Cpu, &NEIGHBOURS, "New1 New2 New1x4 Drp Cm Dfg", 2, 3));
            v.extend(large(Cpu, "New1 New2 New1x300 Drp Cm Dfg"));
        }
        "C14" => {
            v.extend(scaled(Cpu, &HOLES, "New1 New2 New3 Drp Cm", 2, 3));
            v.extend(scaled(Cpu, &MANY, "New2 Cln Gpu Up Drp Cm", 2, 2));
            for n in 65_534..65_538 {
                for i in ["New2", "New1x2"] {
                    v.push(set(Cpu, &format!("New1 Cm {i} {n}*Cln.1"), "New2 Drp Cm", 1, 2, (70_000, 4, 0)));
                }
            }
            v.push(set(Cpu, FRESH, "New1x2 ModN GrdN ArrN Gpu Cln Drp Cm", 5, 6, (5, 4, 0)));
            v.push(set(Cpu, FRAG, "New1x2 ModN GrdN ArrN Gpu Cln Drp Cm", 4, 5, (7, 6, 0)));
            v.push(set(Cpu, "New2 Cm New1 Drp.1", "New1x2 ModN GrdN ArrN Gpu Cln Drp Cm", 4, 5, (7, 6, 0)));
            v.extend(large(Cpu, "New2 Cln Gpu Wk Up Drp Cm"));
            v.extend(exact_owners("New1 New2x1 Set Cln Gpu Drp Cm"));
        }
        "C15" => {
            v.extend(scaled(Cpu, &HOLES, "New1 New2 New3 New1x9 GpuW Drp Cm", 2, 2));
            v.extend(scaled(Cpu, &MANY, "New1 New1x30 GpuW CmK Cm", 2, 3));
            v.extend(sizes("New1x", "", 90, 140));
            v.extend(sizes("New1x", "New1 Cm New2 Drp.1 Cm", 40, 70));
            v.extend(sizes("New2x", "Cm", 40, 70));
            for n in [255, 256, 257, 500, 511, 1000, 1023, 1024, 2047, 4000, 4095, 10_000, 65_500, 65_535, 65_536] {
                v.push(set(Cpu, &format!("New1x{n} Cm"), "New0 New1 New3 New1x7 New2x6 New1x24 New1x37 Drp Cm", if n < 5000 { 2 } else { 1 }, 2, (4, 4, 1)));
                v.push(set(Cpu, &format!("New1x{} New1 Cm", n - 1), "New0 New1 New3 New1x7 New2x6 New1x24 New1x37 Drp Cm", 1, 2, (4, 4, 1)));
            }
            v.extend(large(Cpu, "New1 New3 New1x300 New1x70000 Drp Cm CmK"))
        }
        "C16" => {
            v.extend(scaled(Cpu, &["New1 Cm {n}*CmK New3", "New1 {n}*( New1 CmK )", "New1 CmK {n}*( New1 Cm )", "New1 CmK {n}*Cm New3 CmK {n}*Cm"], "New3 CmK Syn ClnB Cm", 2, 3));
            v.extend(large(Cpu, "New1 New1x300 Set CmK Syn Buf Cm"));
            // handles and replacements on both sides of as many commits
            for around in [256, 65_536] {
                for before in [1, 3] {
                    for more in [0, 1, 3, 6] {
                        let init = format!("New1 CmK {}*Cm New1x3 CmK {more}*Cm", around - 1 - before);
                        v.push(set(Cpu, &init, "New1x9 New1x30 CmK Buf Syn Cm", if around > 256 { 2 } else { 4 }, if around > 256 { 3 } else { 5 }, (5, 5, 4)));
                    }
                }
            }
        }
        "C17" => {
            v.extend(all_scaled(Cpu, "New1 Set Drp Ask Cm", 2, 2));
            v.push(set(Cpu, FRESH, "New1x2 ModN GrdN ArrN Set Drp Ask Cm", 5, 6, (5, 4, 0)));
            v.push(set(Cpu, FRAG, "New1x2 ModN GrdN ArrN Set Drp Ask Cm", 4, 5, (7, 6, 0)));
            v.push(set(Cpu, "New2 Cm New1 Drp.1", "New1x2 ModN GrdN ArrN Set Drp Ask Cm", 4, 5, (7, 6, 0)));
            v.extend(large(Cpu, "New1 New1x2 Set Cln Drp Cm Ask"));
            v.extend(many_owners("GrdR ModR Oob Set Cln Up Wk Drp Cm Insp Ask", 3, 4));
        }
        "C18" => {
            v.extend(scaled(Cpu, &UPDATES, "Set Mod Oob Gpu Drp Cm", 2, 2));
            v.extend(scaled(Cpu, &MANY, "Set Cln Drp Cm", 2, 2));
            v.push(set(Cpu, FRESH, "New1x2 ModN GrdN ArrN Set Cln Gpu Drp Cm", 5, 6, (5, 4, 0)));
            v.push(set(Cpu, FRAG, "New1x2 ModN GrdN ArrN Set Cln Gpu Drp Cm", 4, 5, (7, 6, 0)));
            v.push(set(Cpu, "New2 Cm New1 Drp.1", "New1x2 ModN GrdN ArrN Set Cln Gpu Drp Cm", 4, 5, (7, 6, 0)));
            v.extend(large(Cpu, "New1x2 Set Mod Oob Grd Cln Gpu Drp Cm"));
            v.extend(wide(Cpu, "Set Mod Oob Gpu Cm", 2, 3));
        }
        "C19" => {
            v.extend(scaled(Cpu, &MANY, "Wk Up Gpu Drp Cm", 2, 2));
            v.extend(large(Cpu, "New2 Wk WkG Up Gpu Drp Cm"));
            v.extend(exact_owners("New1 Set Wk Up Gpu Drp Cm"));
        }
        "C21" => {
            v.extend(scaled(Cpu, &["New1 Cm {n}*CmK New3", "New1 {n}*( New1 CmK )", "{n}*New1 DrpA", "{n}*New1 Cm {n}*Set.#", "New1x{n} Cm DrpA {n}*Set.0.#"], "Set Drp Cm CmK Syn DrpB DrpA", 2, 3));
            v.extend(large(Cpu, "New1 New1x300 Set Drp Cm CmK Syn DrpA"));
        }
        "C22" => {
            v.extend(scaled(Both, &["{n}*New1", "New2x{n} Cm {n}*Set.0.#", "New1 {n}*( New1 Cm )"], "Set Drp Cm Rd", 1, 2));
            v.extend(large(Both, "New1 New1x300 Set Drp Cm Rd"));
            v.extend(wide(Both, "Set Drp Cm Rd", 1, 2));
        }
        "C25" => {
            v.extend(all_scaled(Cpu, "New1 Set Drp Cm", 2, 2));
            v.extend(large(Cpu, "New1 New1x300 Set Drp Cm"));
            v.extend(wide(Cpu, "Set Gpu Drp Cm", 2, 3));
            for n in [500, 1000, 1023, 1024, 5000] {
                v.push(set(Cpu, &format!("New2 {n}*New1"), "New1 Set Drp Cm", if n > 2000 { 1 } else { 2 }, 2, (6000, 6000, 1)));
                v.push(set(Cpu, &format!("New2 {n}*New1 Cm {n}*Drp.1"), "New1 New1x9 Set Drp Cm", 2, 2, (6000, 6000, 1)));
            }
        }
        "C23" => {
            v.extend(wide(Cpu, "Set Cm Rd", 2, 3));
            v.extend(wide(Wgpu, "Set Cm Rd", 2, 3));
            v.extend(large(Cpu, "New1 New2x2 Set Drp Cm Rd"));
            v.extend(large(Wgpu, "New1 New2x2 Set Drp Cm Rd"));
        }
        _ => {}
    }
    v
}

fn small_sets_of(prop: &str) -> Vec<Set> {
    use RtKind::*;
    match prop {
        "C10" => {
            let vals = "New2 New1x2 Set Mod Grd Cln Gpu Drp Cm";
            let weak = "New2 Set Grd Wk WkG Up Gpu Drp Cm";
            let arr = "New1x2 New2x2 New1x0 Set Mod Oob Cln Gpu Drp Cm";
            vec![
                set(Cpu, FRESH, vals, 6, 7, (3, 2, 0)),
                set(Cpu, FRAG, "New1 New2 New1x3 Set Mod Drp Cm", 5, 6, (4, 4, 0)),
                set(Cpu, HANDLES, weak, 4, 5, (5, 3, 0)),
                set(Cpu, FRESH, weak, 6, 7, (3, 1, 0)),
                set(Cpu, FRESH, arr, 5, 6, (3, 2, 0)),
                set(Cpu, FRESH, "New2 Same Zero ModR Set Cln Gpu Drp Cm", 5, 6, (3, 1, 0)),
                set(Cpu, FRESH, "New5 New1x2 Same Zero ModR Set Gpu Cln Cm", 5, 6, (3, 2, 0)),
                set(Cpu, "New1x2 Cln.0 Gpu.1 New2 Cln.2 Gpu.3 Cm", "Same Zero ModR Set Mod Grd Drp Cm Rd", 4, 5, (5, 3, 0)),
                set(Cpu, FULL, "New1 New3 Set GrdC ModC GrdR Swp Ask Dfg Drp Cm Upk", 5, 6, (3, 3, 0)),
                set(Cpu, FRESH, "New1 New1x2 ModN GrdN ArrN ModC Set Cln Drp Cm", 5, 6, (5, 4, 0)),
                set(Cpu, FRESH, "New2 New1x2 Set Same Mod GpuW Cln Gpu Drp Cm", 5, 6, (3, 2, 0)),
                set(Cpu, HANDLES, "New2 Set Same Grd ModR GpuW Up Gpu Drp Cm", 4, 5, (5, 3, 0)),
                set(Cpu, FRAG, "New2 ModN GrdN ArrN Set Drp Cm", 4, 5, (7, 6, 0)),
            ]
        }
        "C11" => {
            let all = "New1 New2 New3 New1x2 Drp Cm";
            vec![
                set(Cpu, FRESH, all, 6, 7, (4, 4, 0)),
                set(Cpu, FRESH, "New1 New0 New1x0 New0x2 New2x2 New1g New1x3g Drp Cm Gpu", 5, 6, (3, 3, 0)),
                set(Cpu, FRAG, all, 6, 7, (5, 5, 0)),
                set(Cpu, FRAG, "New2 New3x2 Cln Gpu Wk Up Drp Cm Dfg", 4, 5, (5, 5, 0)),
                set(Cpu, PEND, "New1 New1x6 New2x2 New0 Drp Cm Swp", 5, 6, (4, 4, 0)),
            ]
        }
        "C12" => vec![
            set(Cpu, FRESH, "New2 New1x3 Set GrdR GpuW Cln Gpu Drp Cm", 5, 6, (3, 2, 0)),
            set(Cpu, PEND, "New1 New1x3 Set Mod GpuW GrdR Drp Cm Dfg Ask", 5, 6, (4, 4, 0)),
            set(Cpu, HANDLES, "New1 New1x9 Set GrdR GpuW Up Wk Gpu Cln Drp Cm", 4, 5, (6, 4, 0)),
            set(Cpu, FRESH, "New2 New1x2 Set GrdR Cln Drp Cm Dfg", 6, 7, (3, 2, 0)),
            set(Cpu, FRAG, "New1 New1x3 Set Mod GrdR GrdC Drp Cm Dfg Insp", 5, 6, (3, 3, 0)),
            set(Cpu, HANDLES, "New1 Set Oob GrdC ModC Up Drp Cm Swp", 4, 5, (5, 3, 0)),
            set(Cpu, ROOM, "New1 New3 Set Drp Cm Ask Oob Insp", 6, 7, (3, 3, 0)),
            set(Cpu, FRESH, "New3 New5 New5x2 Same Zero ModR GrdR Cln Gpu Drp Cm", 4, 5, (3, 2, 0)),
            set(Cpu, "New3 New5 New1 Cln.0 Gpu.3 Cm", "New1 Same Zero ModR GrdR GrdC Set Cm Insp", 5, 6, (5, 4, 0)),
        ],
        "C13" => {
            let all = "New1 New2 New1x3 Drp Cm";
            vec![
                set(Cpu, FRESH, all, 7, 8, (4, 4, 0)),
                set(Cpu, FRAG, "New1 New2 New1x4 Drp Cm Dfg", 6, 7, (4, 4, 0)),
                // the order in which neighbours are freed
                set(Cpu, "New1 New1 New2 New1 Cm", "Drp Cm", 7, 8, (4, 4, 0)),
                set(Cpu, "New1 New1 New1 New1 New1 Cm", "Drp Cm", 9, 9, (5, 5, 0)),
                set(Cpu, "New1 New1 New1 New1 New1 New1 New1 Cm", "Drp Cm New2", 6, 8, (7, 7, 0)),
                set(Cpu, FRESH, "New2 New0 New1x0 New2x2 Cln Gpu Wk Up Drp Cm", 5, 6, (3, 3, 0)),
                set(Cpu, FRAG, "New0 New0x2 New0x6 New1x0 New1 New1x4 Drp Cm Dfg", 4, 5, (5, 5, 0)),
            ]
        }
        "C14" => vec![
            set(Cpu, FRESH, "New2 New1x2 Cln Gpu Drp Cm", 7, 8, (3, 3, 0)),
            set(Cpu, FRESH, "New2 Wk WkG Up Gpu Drp Cm New1", 6, 7, (3, 2, 0)),
            set(Cpu, HANDLES, "New1 New2 Cln Up Drp Cm Dfg", 5, 6, (5, 3, 0)),
            set(Cpu, FRAG, "New2 Cln Gpu Wk Up Drp Cm", 5, 6, (4, 4, 0)),
        ],
        "C15" => vec![
            set(Cpu, FRESH, "New1 New3 New1x5 GpuW Set Drp Cm CmK", 6, 7, (3, 3, 2)),
            set(Cpu, FRESH, "New1 New3 New1x5 Set Drp Cm CmK", 6, 7, (3, 3, 2)),
            set(Cpu, FRAG, "New1 New3 New1x5 Set Drp Cm CmK Dfg", 5, 6, (4, 4, 3)),
            set(Cpu, GROWN, "New1 New3 New0 New1x0 Set Drp Cm Ask Buf", 5, 6, (3, 3, 3)),
            set(Cpu, PEND, "New1 New2x2 New1x7 Set GrdC Drp Cm Swp", 5, 6, (3, 3, 1)),
        ],
        "C16" => vec![
            set(Cpu, FRESH, "New1 New3 Drp Cm CmK Buf Syn ClnB", 6, 7, (2, 2, 2)),
            set(Cpu, GROWN, "New1 New2 CmK Cm Buf Syn ClnB DrpB", 5, 6, (4, 4, 3)),
            set(Cpu, GROWN, "New3 Set Ask Swp Cm CmK Upk Syn DrpB", 5, 6, (4, 4, 2)),
            set(Cpu, FRAG, "New2 New1x3 Cm CmK Syn Dfg Drp", 5, 6, (4, 4, 2)),
        ],
        "C17" => {
            let all = "New1 New1x2 Set Cln Drp Cm Ask";
            vec![
                set(Cpu, FRESH, all, 6, 7, (3, 2, 0)),
                set(Cpu, FRESH, "New0 New1x0 New2g Mod Grd GrdR Gpu Drp Cm Ask", 5, 6, (3, 2, 0)),
                set(Cpu, HANDLES, "Set Oob GrdR GrdC Wk Up Drp Cm Ask Dfg Insp", 4, 5, (5, 2, 0)),
                set(Cpu, PEND, "New1 Set Drp Cm Ask Swp ModC", 5, 6, (4, 3, 0)),
                set(Cpu, FRESH, "New3 New5 New5x2 Same Zero ModR GrdR Cln Drp Cm Ask", 4, 5, (3, 2, 0)),
                set(Cpu, "New3 New5 New1 Cln.0 Gpu.3 Cm", "Same Zero ModR GrdR GrdC Set Up Wk Drp Cm Ask", 4, 5, (5, 3, 0)),
            ]
        }
        "C18" => vec![
            set(Cpu, FRESH, "New2 Set Mod Grd GrdR Cln Gpu Drp Cm", 6, 7, (3, 1, 0)),
            set(Cpu, FRESH, "New1x2 New1x3 Set Mod Oob Cln Gpu Drp Cm", 6, 7, (3, 1, 0)),
            set(Cpu, FRESH, "New2x2 New0 New1x0 New1g New1x2g Set Mod Oob Drp", 5, 6, (3, 2, 0)),
            set(Cpu, HANDLES, "New1 Set Grd GrdC ModC Wk WkG Up Cln Drp Cm", 4, 5, (6, 3, 0)),
            set(Cpu, FRESH, "New1 Set Grd Cln Wk Up DrpA Drp Insp", 6, 7, (3, 1, 0)),
            set(Cpu, FRESH, "New5 New5x2 New3 Set Same Zero ModR Mod GrdR Oob Cln Gpu Drp Cm", 4, 5, (3, 2, 0)),
            set(Cpu, "New1x2 Cln.0 Gpu.1 New2 Cln.2 Gpu.3 Cm", "Same Zero ModR Set Mod Grd Cln Drp Cm", 4, 5, (6, 3, 0)),
        ],
        "C19" => vec![
            set(Cpu, FRESH, "New2 Wk WkG Up Gpu Drp Cm", 7, 8, (3, 1, 0)),
            set(Cpu, FRESH, "New1 New2g Wk WkG Up Cln Set Gpu Drp Cm", 6, 7, (3, 1, 0)),
            set(Cpu, HANDLES, "New1 Wk WkG Up Set Gpu Cln Drp Cm", 5, 6, (5, 3, 0)),
            set(Cpu, FRAG, "Wk WkG Up Grd Gpu Drp Cm New2 DrpA", 5, 6, (4, 4, 0)),
        ],
        "C21" => vec![
            set(Cpu, FRESH, "New1 New1x2 Cm CmK DrpA Drp DrpB Syn Set", 6, 7, (2, 2, 2)),
            set(Cpu, HANDLES, "DrpA Swp Drp Set Mod Up Gpu Cln Wk Cm CmK", 4, 5, (6, 3, 1)),
            set(Cpu, HANDLES, "DrpA Drp Set Grd GrdR Oob Up WkG Insp", 5, 6, (5, 3, 1)),
            set(Cpu, GROWN, "New3 Cm CmK Buf Syn ClnB DrpB DrpA Swp", 5, 6, (4, 4, 3)),
            set(Cpu, PEND, "New2 Cm Ask Drp DrpA Buf DrpB Dfg Set", 5, 6, (4, 4, 2)),
            set(Wgpu, GROWN, "New3 Cm CmK Buf Syn DrpB DrpA Drp", 5, 6, (4, 4, 3)),
        ],
        "C22" => {
            let mut v = vec![
                set(Both, FRESH, "New1 New2 New1x3 Set Drp Cm Rd", 5, 6, (3, 3, 0)),
                set(Both, FRAG, "New1 New3 New1x5 Set Drp Cm Rd", 4, 5, (4, 4, 0)),
                set(Both, FRAG, "New1 New1x5 Set GpuW Drp Cm Rd", 4, 5, (4, 4, 0)),
                set(Both, HANDLES, "New2x2 New0 New1x0 Set Grd Oob Up Drp Cm CmK", 3, 4, (6, 4, 1)),
                set(Both, GROWN, "New3 Set Drp Cm CmK Buf Syn DrpB DrpA", 4, 5, (4, 4, 3)),
                set(Both, FRESH, "New5 New3 New5x2 Set Same Zero Drp Cm Rd", 4, 5, (3, 3, 0)),
            ];
            for variant in 0..6 {
                for init in [FRESH, FRAG] {
                    v.push(Set { variant, label: variant % 2 == 1, ..set(Both, init, "New1 New1x3 Set Drp Cm Rd", 4, 5, (4, 4, 0)) });
                }
            }
            v
        }
        "C23" => {
            let mut v = vec![];
            for rt in [Cpu, Wgpu] {
                v.push(set(rt, FRESH, "New1 New3 New1x2 New1x0 Set Drp Cm Rd", 5, 6, (3, 3, 0)));
                v.push(set(rt, FRAG, "New1 New1x2 GpuW Set Drp Cm Rd", 4, 5, (4, 4, 0)));
                v.push(set(rt, FRAG, "New1 New2x2 New0 Set Drp Cm Rd", 4, 5, (4, 4, 0)));
                v.push(set(rt, ROOM, "New1 New2x3 Set Gpu Drp Cm Rd Ask", 4, 5, (3, 3, 0)));
                v.push(set(rt, FRESH, "New5 New5x2 New3 Set Zero Drp Cm Rd", 4, 5, (3, 3, 0)));
                v.push(set(rt, "New3x2 New2x3 Cm Drp.0 New1x2 Cm", "Set Drp Cm New1 Rd", 4, 5, (4, 4, 0)));
            }
            v
        }
        "C24" => vec![
            set(Cpu, FRESH, "New1 New2 New1x2 Set Drp Cm Ask Rd", 4, 5, (3, 3, 0)),
            set(Cpu, FRAG, "New1 New1x3 Set Grd Cln Gpu Drp Cm", 4, 5, (4, 4, 0)),
            set(Cpu, HANDLES, "Set Mod Oob Up Wk Drp Cm CmK Syn Dfg", 3, 4, (6, 3, 2)),
            set(Cpu, FRESH, "New0 New1x0 New2x2 New1g Drp Cm CmK Buf Syn", 4, 5, (3, 3, 2)),
        ],
        "C27" => vec![
            set(Cpu, FRESH, "New4 New4x2 PNew PSet PMod PGrd PGet Drp Cm", 5, 5, (3, 2, 0)),
            set(Cpu, FRESH, "New4 PMod PGrd PSet Set Cln Wk Up Gpu Drp Cm Ask", 5, 6, (3, 2, 0)),
            set(Cpu, "New4 New4x2 Cm", "PMod PGrd PSet PGet Set Drp Cm New4", 4, 5, (3, 3, 0)),
            set(Cpu, "New4g New4x2g New4x2 Gpu.2 Cm", "PSet Set PNew Drp Cm Ask", 4, 5, (4, 4, 0)),
            set(Cpu, "New1 New4 New4x2 New1x2 Cln.1 Cln.2 Cm Drp.0 Cm", "PMod PSet PGrd Set Gpu Drp Cm New1 Dfg Swp", 3, 4, (6, 5, 0)),
            set(Cpu, FRAG, "PNew New1x4 New2 Set Drp Cm", 4, 5, (5, 5, 0)),
            set(Cpu, PEND, "PNew New4 New4x2 PSet Mod GrdC Drp Cm", 4, 5, (5, 5, 0)),
            set(Cpu, FRESH, "New1 New1x2 UNew USet UMod UGrd UDrp UCm Set Drp Cm", 4, 5, (3, 3, 0)),
            set(Cpu, HANDLES, "UNew USet UGrd UCln UUp UDrp UCm Drp Cm New1", 4, 5, (6, 4, 0)),
            set(Cpu, PEND, "New1x2 USet UMod UDrp UCm Ask Cm", 4, 5, (5, 5, 0)),
        ],
        "C25" => {
            let mut v = vec![
                set(Cpu, FRESH, "New2 New1x3 Set Mod Cln Gpu Drp Cm", 6, 7, (3, 2, 0)),
                set(Cpu, FRESH, "New0 New1x0 New1g New2x2 Same Zero ModR Set Drp Cm", 5, 6, (3, 3, 0)),
                set(Cpu, FRAG, "New1 New3 New1x5 Set Drp Cm Dfg", 5, 6, (4, 4, 0)),
                set(Cpu, HANDLES, "New2x2 Set Mod Grd GrdR GrdC ModC Oob Up Gpu Drp Cm", 4, 5, (6, 3, 0)),
                set(Cpu, PEND, "New1 New2x2 New1x7 Set GrdC Drp Cm Swp", 5, 6, (4, 4, 0)),
                set(Cpu, GROWN, "New3 Set Ask Swp Cm CmK Upk Buf Syn ClnB DrpB Insp", 5, 6, (4, 4, 2)),
                set(Cpu, FRESH, "New1 ModN GrdN ArrN Set Drp Cm", 5, 6, (6, 5, 0)),
                set(Cpu, FRAG, "New5x2 New3x3 New1x5 Set Drp Cm Rd", 4, 5, (5, 5, 0)),
                set(Cpu, FRAG, "New2 ModN GrdN ArrN Gpu Cln Drp Cm DrpA", 4, 5, (7, 6, 0)),
            ];
            // labels and usages
            for variant in 1..4 {
                for init in [FRESH, FRAG, GROWN] {
                    v.push(Set { variant, label: variant % 2 == 1, ..set(Cpu, init, "New1 New1x3 Set Drp Cm Swp", 5, 6, (4, 4, 0)) });
                }
            }
            v
        }
        _ => panic!("no such property {prop}"),
    }
}
