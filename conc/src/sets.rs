//! Which programs are explored for which property.

use crate::prog::{Op::*, *};
use std::collections::BTreeSet;

pub struct Job {
    pub prog: Prog,
    pub preemptions: Option<u32>,
    pub stale: u32,
}

pub fn oracles(p: &str) -> usize {
    match p {
        "C30" => C30,
        "C31" => C31,
        "C32" => C32,
        "C33" => C33,
        "C34" => C34,
        "C35" => C35,
        "C36" => C36,
        "C37" => C37,
        _ => usize::MAX,
    }
}

fn seqs(ops: &[Op], n: usize) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|s| ops.iter().map(move |o| [s.clone(), vec![*o]].concat())).collect();
    }
    out
}

struct Set {
    jobs: BTreeSet<(usize, Prog)>,
    out: Vec<Job>,
    log: bool,
}
impl Set {
    fn add(&mut self, init: Init, mut threads: Vec<Vec<Op>>, cpu: bool, pre: Option<u32>, stale: u32) {
        threads.sort();
        let prog = Prog { cpu, log: self.log, init, threads };
        if self.jobs.insert((stale as usize, prog.clone())) {
            self.out.push(Job { prog, preemptions: pre, stale });
        }
    }
    /// All programs whose threads perform sequences out of the given lists.
    fn product(&mut self, inits: &[Init], lists: &[Vec<Vec<Op>>], cpu: bool, pre: Option<u32>, stale: u32, keep: &dyn Fn(&[Vec<Op>]) -> bool) {
        let mut combos: Vec<Vec<Vec<Op>>> = vec![vec![]];
        for l in lists {
            combos = combos.into_iter().flat_map(|c| l.iter().map(move |s| [c.clone(), vec![s.clone()]].concat())).collect();
        }
        for i in inits {
            for c in &combos {
                if keep(c) {
                    self.add(*i, c.clone(), cpu, pre, stale);
                }
            }
        }
    }
}

fn any(c: &[Vec<Op>], o: &[Op]) -> bool {
    c.iter().flatten().any(|x| o.contains(x))
}

pub fn bounds(p: &str, tier: &str) -> String {
    let j = jobs(p, tier);
    let threads = j.iter().map(|j| j.prog.threads.len()).max().unwrap_or(0);
    let ops = j.iter().map(|j| j.prog.threads.iter().map(|t| t.len()).sum::<usize>()).max().unwrap_or(0);
    let unb = j.iter().filter(|j| j.preemptions.is_none()).count();
    format!("{} programs of up to {threads} threads and {ops} operations; {unb} of them with all interleavings, the others with bounded preemptions; {} of them with stale values for relaxed loads", j.len(), j.iter().filter(|j| j.stale > 0).count())
}


const FULL: Option<u32> = None;
const REG: [Op; 4] = [RegSet, RegMod, RegGuard, RegGpu];
const ITEM: [Op; 3] = [ItSet, ItMod, ItGpu];

pub fn jobs(p: &str, tier: &str) -> Vec<Job> {
    let mut s = Set { jobs: BTreeSet::new(), out: vec![], log: false };
    let th = tier == "thorough";
    let all = INITS;
    use Init::*;
    match p {
        // updates against commits
        "C30" => {
            let w = [New, NewArr, NewGpu, SetPair, ModCnt, GuardCnt, ArrSet, ArrMod, SetOwn, CloneOwn, GpuOnly, GuardOwn, WeakSet];
            let core = [New, SetPair, ModCnt, ArrSet, SetOwn];
            let few = [New, SetPair, ArrSet];
            let c = [Commit];
            s.product(all, &[seqs(&w, 1), seqs(&c, 1)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&w, 2), seqs(&c, 1)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&w, 1), seqs(&c, 2)], false, FULL, 0, &|_| true);
            s.product(&[Fresh, Full, Dirty], &[join(&w, &c), join(&w, &c)], false, FULL, 0, &|_| true);
            s.product(&[Fresh, Full, Dirty], &[seqs(&core, 1), seqs(&c, 1), seqs(&[Commit, Ids, SetPair, ModCnt, New, DropOwn, ReadPair], 1)], false, FULL, 0, &|_| true);
            s.product(&[Full], &[join(&few, &c), seqs(&few, 1), seqs(&c, 1)], false, Some(2), 0, &|_| true);
            s.product(&[Fresh, Full], &[seqs(&core, 1), seqs(&c, 1)], true, FULL, 0, &|_| true);
            s.product(&[Fresh, Full, Recycled], &[seqs(&few, 1), seqs(&c, 1)], false, FULL, 2, &|_| true);
            for r in [&REG[..], &ITEM[..]] {
                s.product(&[Full, Fresh], &[seqs(r, 1), seqs(r, 1), seqs(&c, 1)], false, FULL, 0, &|_| true);
                s.product(&[Full], &[join(r, &c), join(r, &c)], false, FULL, 0, &|_| true);
            }
            s.log = true;
            s.product(&[Full, Recycled], &[seqs(&w, 1), seqs(&c, 1)], false, FULL, 0, &|_| true);
            s.log = false;
            if th {
                for r in [&REG[..], &ITEM[..]] {
                    s.product(all, &[join(r, &c), join(r, &c)], false, FULL, 0, &|_| true);
                    s.product(&[Full], &[join(r, &c), seqs(r, 1), seqs(r, 1)], false, Some(3), 0, &|_| true);
                    s.product(&[Full], &[seqs(r, 2), seqs(r, 2), seqs(&c, 1)], false, Some(2), 0, &|_| true);
                }

                s.product(all, &[seqs(&w, 2), seqs(&c, 2)], false, FULL, 0, &|_| true);
                s.product(all, &[join(&w, &c), join(&w, &c)], false, FULL, 0, &|_| true);
                s.product(all, &[seqs(&core, 3), seqs(&c, 1)], false, FULL, 0, &|_| true);
                s.product(all, &[seqs(&core, 1), seqs(&c, 1), seqs(&w, 1)], false, FULL, 0, &|_| true);
                s.product(all, &[join(&core, &c), seqs(&core, 1), seqs(&c, 1)], false, Some(3), 0, &|_| true);
                s.product(&[Full], &[join(&few, &c), join(&few, &c), join(&few, &c)], false, Some(2), 0, &|_| true);
                s.product(all, &[join(&core, &c), join(&core, &c)], true, FULL, 1, &|_| true);
            }
        }
        // concurrent creation
        "C31" => {
            let n = [New, New2, NewArr, NewArr4, NewEmpty, NewGpu];
            let few = [New, NewArr4];
            let x = [New, NewArr, Commit, Defrag, DropOwn];
            s.product(all, &[seqs(&n, 1), seqs(&n, 1)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&few, 2), seqs(&few, 2)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&n, 1), seqs(&x, 2)], false, FULL, 0, &|_| true);
            s.product(all, &[join(&n, &[Commit]), join(&few, &[Commit])], false, FULL, 0, &|_| true);
            s.product(&[Full, Recycled], &[seqs(&few, 1), seqs(&few, 1), seqs(&few, 1)], false, Some(3), 0, &|_| true);
            s.product(&[Full, Recycled], &[seqs(&few, 1), seqs(&[New], 1), seqs(&[Commit], 1)], false, Some(3), 0, &|_| true);
            s.product(&[Full, Fresh], &[seqs(&few, 1), seqs(&few, 1)], true, FULL, 2, &|_| true);
            if th {
                s.product(all, &[seqs(&n, 2), seqs(&x, 2)], false, FULL, 0, &|_| true);
                s.product(all, &[seqs(&n, 1), seqs(&n, 1), seqs(&[New, Commit, Defrag, DropOwn], 1)], false, FULL, 0, &|_| true);
                s.product(&[Full, Recycled, Fresh], &[join(&few, &[Commit]), seqs(&few, 1), seqs(&[New, Commit, DropOwn], 1)], false, Some(3), 0, &|_| true);
                s.product(&[Full, Recycled], &[seqs(&few, 1), seqs(&few, 1), seqs(&few, 1), seqs(&[Commit, New], 1)], false, Some(2), 0, &|_| true);
            }
        }
        // concurrent commits
        "C32" => {
            let w = [New, NewArr4, SetPair, ModCnt, ArrSet, SetOwn, DropOwn];
            let c = [Commit];
            s.product(all, &[seqs(&c, 1), seqs(&c, 1)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&c, 2), seqs(&c, 2)], false, FULL, 0, &|_| true);
            s.product(all, &[join(&w, &c), seqs(&c, 1)], false, FULL, 0, &|_| true);
            s.product(all, &[join(&w, &c), join(&w, &c)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&c, 1), seqs(&c, 1), seqs(&w, 1)], false, FULL, 0, &|_| true);
            s.product(&[Fresh, Full], &[seqs(&c, 1), seqs(&c, 1), seqs(&c, 1)], false, FULL, 0, &|_| true);
            s.product(&[Fresh, Full], &[join(&[New, SetPair], &c), seqs(&c, 1), seqs(&c, 1)], false, Some(2), 0, &|_| true);
            s.product(&[Fresh, Full], &[join(&[New, SetPair], &c), seqs(&c, 1)], true, FULL, 1, &|_| true);
            for r in [&[RegSet, RegGpu][..], &[ItSet, ItGpu][..]] {
                s.product(&[Full, Fresh], &[join(r, &c), join(r, &c)], false, FULL, 0, &|_| true);
                s.product(&[Full], &[join(r, &c), seqs(&c, 1), seqs(&c, 1)], false, Some(2), 0, &|_| true);
            }
            s.product(&[Full, Fresh, Many], &[join2(&[New, SetPair, DropOwn], &c), join(&w, &c)], false, FULL, 0, &|_| true);
            s.product(&[Full, Recycled], &[join(&[New, SetPair, ArrSet], &c), join(&[NewArr4, ModCnt], &c), seqs(&c, 1)], false, Some(2), 0, &|_| true);
            s.product(all, &[join(&w, &c), seqs(&c, 2)], false, FULL, 0, &|_| true);
            s.log = true;
            s.product(all, &[join(&[New, NewArr4, SetPair, DropOwn], &c), seqs(&c, 1)], false, FULL, 0, &|_| true);
            s.log = false;
            if th {
                s.product(all, &[join(&w, &c), join(&w, &c), seqs(&c, 1)], false, Some(3), 0, &|_| true);
                s.product(all, &[join2(&w, &c), join(&w, &c)], false, FULL, 0, &|_| true);
                s.product(&[Fresh, Full], &[seqs(&c, 1), seqs(&c, 1), seqs(&c, 1), seqs(&w, 1)], false, Some(2), 0, &|_| true);
                s.product(all, &[join(&w, &c), seqs(&c, 2)], true, FULL, 1, &|_| true);
            }
        }
        // drops, clones, upgrades, creation
        "C33" => {
            let d = [DropOwn, DropPair, CloneDrop, WeakSet, WeakGpu, GpuOnly, New];
            let cd = [Commit, DropPair, WeakSet, New2, DropOwn];
            s.product(all, &[seqs(&d, 1), seqs(&[Commit], 1)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&d, 2), seqs(&[Commit], 1)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&d, 1), seqs(&[Commit], 2)], false, FULL, 0, &|_| true);
            s.product(&[Full, Fresh, Recycled], &[seqs(&[DropPair, DropOwn, CloneDrop, WeakSet, WeakGpu], 1), seqs(&cd, 2)], false, FULL, 0, &|_| true);
            s.product(&[Full, Fresh], &[seqs(&[DropPair, DropOwn], 1), seqs(&[DropPair, WeakSet, CloneDrop, WeakGpu], 1), seqs(&[Commit], 1)], false, FULL, 0, &|_| true);
            s.product(&[Recycled], &[seqs(&[DropPair, DropOwn], 1), join(&[Commit], &[New2, New]), seqs(&[DropPair, WeakSet, New2], 1)], false, Some(2), 0, &|_| true);
            s.product(&[Full], &[seqs(&[DropPair, DropOwn], 1), seqs(&[DropPair, WeakGpu], 1), seqs(&[Commit], 1)], false, Some(2), 2, &|_| true);
            if th {
                s.product(all, &[seqs(&d, 2), seqs(&cd, 2)], false, FULL, 0, &|_| true);
                s.product(all, &[seqs(&d, 1), seqs(&d, 1), seqs(&[Commit], 1)], false, FULL, 0, &|_| true);
                s.product(all, &[seqs(&d, 1), seqs(&d, 1), seqs(&[Commit, Defrag, Ids], 2)], false, Some(2), 0, &|_| true);
                s.product(&[Full, Recycled], &[seqs(&d, 2), seqs(&[Commit], 1)], true, FULL, 1, &|_| true);
            }
        }
        // held buffer handles
        "C34" => {
            let g = [New, NewArr4];
            let look = [Sync, GetBuf];
            for stale in [0, 2] {
                s.product(all, &[join(&g, &[Commit]), seqs(&look, 1)], false, FULL, stale, &|_| true);
                s.product(all, &[join(&g, &[Commit]), seqs(&look, 2)], false, FULL, stale, &|_| true);
                s.product(all, &[join(&g, &[Commit]), seqs(&[Sync, Commit], 2)], false, FULL, stale, &|c| any(c, &[Sync]));
                s.product(all, &[join2(&g, &[Commit]), seqs(&look, 2)], false, FULL, stale, &|_| true);
                s.product(&[Full, Fresh], &[seqs(&g, 1), seqs(&[Commit], 1), seqs(&look, 1)], false, FULL, stale, &|_| true);
                s.product(&[Full, Room], &[rep(&[NewArr4, Commit], 2), seqs(&look, 2)], false, FULL, stale, &|_| true);
            }
            s.product(&[Full], &[join(&g, &[Commit]), seqs(&look, 2)], true, FULL, 1, &|_| true);
            for stale in [0, 2] {
                s.product(&[Full, Room, Fresh], &[rep(&[NewArr4, Commit], 2), seqs(&look, 3)], false, FULL, stale, &|_| true);
                s.product(&[Full], &[rep(&[NewArr4, Commit], 3), seqs(&look, 2)], false, FULL, stale, &|_| true);
                s.product(&[Full], &[join(&[NewArr4], &[Commit]), seqs(&look, 2), seqs(&[Commit, Sync, GetBuf], 1)], false, Some(3), stale, &|_| true);
                s.product(&[Full], &[join(&[NewArr4], &[Commit]), join(&[NewArr4], &[Commit]), seqs(&look, 1)], false, Some(2), stale, &|_| true);
            }
            if th {
                for stale in [0, 3] {
                    s.product(all, &[join(&g, &[Commit]), seqs(&look, 2), seqs(&[Commit, Sync], 1)], false, FULL, stale, &|_| true);
                    s.product(all, &[rep(&[NewArr4, Commit], 2), seqs(&look, 3)], false, FULL, stale, &|_| true);
                    s.product(all, &[rep(&[NewArr4, Commit], 3), seqs(&look, 2)], false, FULL, stale, &|_| true);
                    s.product(all, &[join(&g, &[Commit]), join(&g, &[Commit]), seqs(&look, 2)], false, Some(2), stale, &|_| true);
                }
            }
        }
        // atomicity of modifications
        "C35" => {
            let m = [SetPair, ModPair, ModCnt, GuardCnt, ArrSet, ArrMod, WeakSet];
            let r = [ReadPair, GetBuf];
            s.product(all, &[seqs(&m, 1), seqs(&[SetPair, ModPair, ModCnt, GuardCnt, ArrSet, ArrMod, WeakSet, ReadPair, GetBuf, Commit], 2)], false, FULL, 0, &|c| any(c, &[Commit, ReadPair, GetBuf]) || true);
            s.product(&[Full, Dirty], &[seqs(&m, 2), seqs(&m, 2)], false, FULL, 0, &|_| true);
            s.product(&[Full, Fresh], &[seqs(&m, 1), seqs(&[Commit], 1), seqs(&[SetPair, ModCnt, ArrMod, ReadPair, GetBuf], 1)], false, FULL, 0, &|_| true);
            s.product(&[Full, Fresh], &[join(&[SetPair, ModPair, ModCnt, ArrMod], &[Commit]), seqs(&r, 2)], false, FULL, 0, &|_| true);
            s.product(&[Full], &[seqs(&[SetPair, ModCnt, ArrMod], 2), seqs(&[Commit], 1), seqs(&[GetBuf, Commit], 1)], false, Some(3), 0, &|_| true);
            s.product(&[Full], &[seqs(&m, 1), seqs(&[Commit, GetBuf], 2)], true, FULL, 1, &|_| true);
            s.product(all, &[seqs(&[ArrMod, ArrSet], 2), seqs(&[ArrVec], 1)], false, FULL, 0, &|_| true);
            s.product(&[Full], &[seqs(&[ArrMod, ArrSet], 2), seqs(&[ArrVec, ArrSet, ArrMod], 2)], false, FULL, 0, &|c| any(c, &[ArrVec]));
            s.product(&[Full], &[seqs(&[ArrMod, ArrSet], 2), seqs(&[ArrMod, ArrSet, Commit], 1), seqs(&[ArrVec], 1)], false, FULL, 0, &|_| true);
            for (r, read) in [(&REG[..], RegRead), (&ITEM[..], ItRead)] {
                s.product(all, &[seqs(r, 1), seqs(r, 1)], false, FULL, 0, &|_| true);
                s.product(&[Full, Dirty], &[seqs(r, 2), seqs(r, 1)], false, FULL, 0, &|_| true);
                s.product(&[Full], &[seqs(r, 1), seqs(r, 1), seqs(&[Commit, GetBuf, read], 1)], false, FULL, 0, &|_| true);
                s.product(&[Full], &[seqs(r, 1), seqs(r, 1), seqs(r, 1)], false, Some(3), 0, &|_| true);
                s.product(&[Full], &[seqs(r, 1), join(&[Commit, read], &[Commit, read, GetBuf])], false, FULL, 0, &|_| true);
                s.product(&[Full], &[seqs(r, 1), seqs(r, 1)], true, FULL, 1, &|_| true);
                if th {
                    s.product(all, &[seqs(r, 2), seqs(r, 2)], false, FULL, 0, &|_| true);
                    s.product(all, &[seqs(r, 1), seqs(r, 1), seqs(&[Commit, GetBuf, read], 2)], false, Some(3), 0, &|_| true);
                    s.product(&[Full], &[seqs(r, 1), seqs(r, 1), seqs(r, 1)], false, FULL, 0, &|_| true);
                    s.product(&[Full], &[seqs(r, 2), seqs(r, 1), seqs(&[Commit, read], 1)], false, Some(3), 0, &|_| true);
                }
            }
            s.log = true;
            s.product(&[Full], &[seqs(&m, 1), seqs(&[Commit, ReadPair, SetPair, ArrMod], 1)], false, FULL, 0, &|_| true);
            s.log = false;
            if th {
                s.product(all, &[seqs(&m, 2), seqs(&[SetPair, ModCnt, ArrMod, ReadPair, GetBuf, Commit], 2)], false, FULL, 0, &|_| true);
                s.product(all, &[seqs(&m, 1), seqs(&m, 1), seqs(&[Commit, GetBuf, ReadPair], 2)], false, Some(3), 0, &|_| true);
                s.product(all, &[join(&[SetPair, ModCnt, ArrMod, NewArr4], &[Commit]), seqs(&[GetBuf], 3)], false, FULL, 0, &|_| true);
                s.product(all, &[seqs(&m, 1), seqs(&[Commit], 1), seqs(&[GetBuf], 2)], true, Some(3), 1, &|_| true);
            }
        }
        // observers
        "C36" => {
            let o = [HasQ, Ids, Defrag, GetBuf, RefCnt, ReadPair, CloneDrop, WeakGpu];
            let q = [HasQ, Ids, Defrag];
            let w = [New, SetPair, ModCnt, ArrSet, DropOwn, DropPair, SetOwn, Commit];
            s.product(all, &[seqs(&o, 1), seqs(&w, 1)], false, FULL, 0, &|_| true);
            s.product(all, &[seqs(&q, 1), seqs(&w, 2)], false, FULL, 0, &|_| true);
            s.product(&[Full, Dirty, Recycled], &[seqs(&q, 2), seqs(&w, 2)], false, FULL, 0, &|_| true);
            s.product(&[Full, Fresh, Dirty], &[seqs(&q, 1), seqs(&[New, SetPair, DropOwn, ArrSet], 1), seqs(&[Commit], 1)], false, FULL, 0, &|_| true);
            s.product(&[Full, Fresh, Dirty], &[seqs(&q, 1), join(&[New, SetPair, DropOwn, DropPair], &q)], false, FULL, 0, &|_| true);
            s.product(&[Dirty], &[seqs(&q, 1), seqs(&q, 1), seqs(&[Commit], 1)], false, FULL, 0, &|_| true);
            // observers against each other
            s.product(all, &[seqs(&o, 1), seqs(&o, 1)], false, FULL, 0, &|_| true);
            s.product(&[Full, Many], &[seqs(&[RefCnt, ReadPair], 2), seqs(&[RefCnt, ReadPair], 2)], false, FULL, 0, &|_| true);
            s.product(&[Full, Many], &[seqs(&[RefCnt, Ids], 1), seqs(&[RefCnt], 1), seqs(&[RefCnt, ReadPair], 1)], false, FULL, 0, &|_| true);
            s.product(&[Full], &[seqs(&o, 1), seqs(&[Commit, New], 1)], true, FULL, 1, &|_| true);
            s.product(&[Full, Dirty], &[seqs(&o, 2), seqs(&w, 2)], false, FULL, 0, &|_| true);
            s.product(&[Full], &[seqs(&o, 1), seqs(&w, 1), seqs(&[Commit, Ids], 1)], false, Some(3), 0, &|_| true);
            if th {
                s.product(all, &[seqs(&o, 2), seqs(&w, 2)], false, FULL, 0, &|_| true);
                s.product(all, &[seqs(&o, 1), seqs(&w, 1), seqs(&[Commit, Ids], 1)], false, FULL, 0, &|_| true);
                s.product(&[Full, Dirty], &[seqs(&q, 1), join(&[New, SetPair, DropOwn], &[Commit]), seqs(&[Commit], 1)], false, Some(3), 0, &|_| true);
            }
        }
        // everything against everything
        "C37" => {
            let ops: Vec<Op> = ALL.to_vec();
            let core = [New, NewArr4, SetPair, GuardCnt, ArrMod, DropOwn, GuardOwn, WeakSet, Commit, Ids, HasQ, Defrag, Sync, GetBuf];
            s.product(&[Fresh, Full, Recycled, Many], &[seqs(&ops, 1), seqs(&ops, 1)], false, FULL, 0, &|_| true);
            s.product(&[Full], &[seqs(&core, 1), seqs(&core, 1), seqs(&core, 1)], false, Some(2), 0, &|_| true);
            s.product(&[Full], &[seqs(&core, 2), seqs(&core, 1)], false, Some(3), 0, &|_| true);
            s.product(&[Fresh, Full], &[seqs(&core, 1), seqs(&core, 1)], true, FULL, 1, &|_| true);
            s.log = true;
            s.product(&[Fresh, Full, Recycled], &[seqs(&ops, 1), seqs(&ops, 1)], false, FULL, 0, &|_| true);
            s.product(&[Full], &[seqs(&core, 1), seqs(&core, 1)], true, FULL, 1, &|_| true);
            s.product(&[Full], &[seqs(&core, 2), seqs(&core, 1)], false, Some(2), 0, &|_| true);
            if th {
                s.product(&[Full], &[seqs(&core, 1), seqs(&core, 1), seqs(&core, 1)], false, Some(2), 0, &|_| true);
            }
            s.log = false;
            if th {
                s.product(all, &[seqs(&ops, 1), seqs(&ops, 1)], true, FULL, 1, &|_| true);
                s.product(all, &[seqs(&core, 2), seqs(&core, 2)], false, Some(3), 0, &|_| true);
                s.product(all, &[seqs(&core, 1), seqs(&core, 1), seqs(&core, 1)], false, Some(3), 0, &|_| true);
            }
        }
        _ => {}
    }
    // the big ones first, so that no process is left with one at the end
    s.out.sort_by_key(|j| std::cmp::Reverse((j.prog.threads.len(), j.prog.threads.iter().map(|t| t.len()).sum::<usize>())));
    s.out
}

/// One of `a`, then one of `b`.
fn join(a: &[Op], b: &[Op]) -> Vec<Vec<Op>> {
    a.iter().flat_map(|x| b.iter().map(move |y| vec![*x, *y])).collect()
}
/// Two of `a`, then one of `b`.
fn join2(a: &[Op], b: &[Op]) -> Vec<Vec<Op>> {
    seqs(a, 2).into_iter().flat_map(|x| b.iter().map(move |y| [x.clone(), vec![*y]].concat()).collect::<Vec<_>>()).collect()
}
fn rep(a: &[Op], n: usize) -> Vec<Vec<Op>> {
    vec![a.iter().copied().cycle().take(a.len() * n).collect()]
}
