//! Histories of operations, played on an allocator in lockstep with a reference model.

use crate::handle::*;
use crate::rt::*;
use craballoc::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::ops::Bound;

pub const C10: u32 = 1 << 10;
pub const C11: u32 = 1 << 11;
pub const C12: u32 = 1 << 12;
pub const C13: u32 = 1 << 13;
pub const C14: u32 = 1 << 14;
pub const C15: u32 = 1 << 15;
pub const C16: u32 = 1 << 16;
pub const C17: u32 = 1 << 17;
pub const C18: u32 = 1 << 18;
pub const C19: u32 = 1 << 19;
pub const C21: u32 = 1 << 21;
pub const C22: u32 = 1 << 22;
pub const C23: u32 = 1 << 23;
pub const C24: u32 = 1 << 24;
pub const C25: u32 = 1 << 25;
pub const C27: u32 = 1 << 27;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    /// create a value (isz words) or, with n, an array; `G`: only its GPU part
    New(Shape, bool),
    Set,
    /// set to what it is already
    Same,
    /// set all words to zero
    Zero,
    Mod,
    /// modify without a change
    ModR,
    Grd,
    /// lock without writing
    GrdR,
    /// hold a write guard across a commit
    GrdC,
    /// commit in the middle of a modification
    ModC,
    /// create, ask, look, clone and drop in the middle of a modification
    ModN,
    /// the same while a write guard is held
    GrdN,
    /// commit, and create another value, while the items of an array are being produced
    ArrN,
    /// address items out of bounds
    Oob,
    Cln,
    Wk,
    WkG,
    Up,
    Gpu,
    Drp,
    Cm,
    /// commit, and keep the returned buffer handle
    CmK,
    /// commit by its old name
    Upk,
    Ask,
    Buf,
    Syn,
    ClnB,
    DrpB,
    Dfg,
    /// clone the allocator; use the other clone from now on
    Swp,
    /// drop a clone of the allocator
    DrpA,
    /// read back
    Rd,
    /// look at everything that does not count as asking
    Insp,
    /// the GPU writes to all of the buffer
    GpuW,
    /// as without the P, with the item-th piece of user code panicking
    PSet,
    PMod,
    PGrd,
    PGet,
    PNew,
    /// as without the U, in a destructor while a panic unwinds
    UNew,
    USet,
    UMod,
    UGrd,
    UCln,
    UUp,
    UDrp,
    UCm,
}

impl K {
    fn unwinding(self) -> Option<K> {
        Some(match self {
            K::UNew => K::New(Shape { isz: 2, n: None }, false),
            K::USet => K::Set,
            K::UMod => K::Mod,
            K::UGrd => K::Grd,
            K::UCln => K::Cln,
            K::UUp => K::Up,
            K::UDrp => K::Drp,
            K::UCm => K::Cm,
            _ => return None,
        })
    }
}

pub fn k_text(k: K) -> String {
    match k {
        K::New(s, g) => format!("New{}{}{}", s.isz, s.n.map_or(String::new(), |n| format!("x{n}")), if g { "g" } else { "" }),
        k => format!("{k:?}"),
    }
}

pub fn k_parse(s: &str) -> Option<K> {
    use K::*;
    if let Some(r) = s.strip_prefix("New") {
        let (r, g) = r.strip_suffix('g').map_or((r, false), |r| (r, true));
        let (isz, n) = match r.split_once('x') {
            Some((a, b)) => (a.parse().ok()?, Some(b.parse().ok()?)),
            None => (r.parse().ok()?, None),
        };
        return Some(New(Shape { isz, n }, g));
    }
    [Set, Same, Zero, Mod, ModR, Grd, GrdR, GrdC, ModC, ModN, GrdN, ArrN, Oob, Cln, Wk, WkG, Up, Gpu, Drp, Cm, CmK, Upk, Ask, Buf, Syn, ClnB, DrpB, Dfg, Swp, DrpA, Rd, Insp, GpuW, PSet, PMod, PGrd, PGet, PNew, UNew, USet, UMod, UGrd, UCln, UUp, UDrp, UCm]
        .into_iter()
        .find(|k| format!("{k:?}") == s)
}

pub fn ks(s: &str) -> Vec<K> {
    s.split_whitespace().map(|w| k_parse(w).unwrap_or_else(|| panic!("no operation {w}"))).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Op {
    pub k: K,
    pub h: u16,
    pub i: u32,
}

pub fn op_text(o: Op, n_items: bool) -> String {
    let mut s = k_text(o.k);
    use K::*;
    match o.k.unwinding().unwrap_or(o.k) {
        Set | Same | Zero | Mod | ModR | Grd | GrdR | GrdC | ModC | ModN | GrdN | Oob | Cln | Wk | WkG | Up | Gpu | Drp | Syn | ClnB | DrpB | PSet | PMod | PGrd | PGet | PNew => {
            s += &format!(".{}", o.h);
            if n_items || o.i > 0 {
                s += &format!(".{}", o.i);
            }
        }
        _ => {}
    }
    s
}

pub fn op_parse(s: &str) -> Option<Op> {
    let mut p = s.split('.');
    let k = k_parse(p.next()?)?;
    let h = p.next().map_or(Some(0), |x| x.parse().ok())?;
    let i = p.next().map_or(Some(0), |x| x.parse().ok())?;
    Some(Op { k, h, i })
}

pub fn hist_text(h: &[Op]) -> String {
    h.iter().map(|o| op_text(*o, false)).collect::<Vec<_>>().join(" ")
}

/// Operations, and `n*operation` or `n*( operations )` for repetitions of them; in these `#` is the
/// number of the repetition.
pub fn hist_parse(s: &str) -> Vec<Op> {
    let mut v = vec![];
    let mut words = s.split_whitespace();
    let op = |w: &str, k: usize| op_parse(&w.replace('#', &k.to_string())).unwrap_or_else(|| panic!("no operation {w}"));
    while let Some(w) = words.next() {
        let Some((n, rest)) = w.split_once('*') else {
            v.push(op(w, 0));
            continue;
        };
        let group: Vec<&str> = if rest == "(" { words.by_ref().take_while(|w| *w != ")").collect() } else { vec![rest] };
        for k in 0..n.parse::<usize>().expect("a number") {
            v.extend(group.iter().map(|w| op(w, k)));
        }
    }
    v
}

/// All of a few, or the first and the last of many and some in between.
fn some(n: usize) -> Vec<usize> {
    if n <= 64 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = [0, 1, 2, 63, 64, 127, 128, 254, 255, 256, 257, n / 2, 32767, 32768, 65534, 65535, 65536, 65537, n - 3, n - 2, n - 1].into_iter().filter(|x| *x < n).collect();
    v.sort();
    v.dedup();
    v
}

/// All of a few, or three of many.
fn first_and_last(n: usize) -> Vec<usize> {
    if n <= 16 {
        return (0..n).collect();
    }
    vec![0, n / 2, n - 1]
}

pub struct Fail {
    pub msg: String,
}

type Res = Result<(), Fail>;

#[derive(Clone, Hash)]
struct Obj {
    shape: Shape,
    loc: u32,
    uid: usize,
    cpu: Vec<Vec<u32>>,
    gpu: Vec<Vec<u32>>,
    dirty: Vec<bool>,
    /// owners of the GPU part, including those of both
    owners: usize,
    /// owners of the CPU part
    cpu_owners: usize,
    freed: bool,
    /// user code has panicked while the CPU side was being modified: nobody may use that any more
    spoiled: bool,
    /// what an item of the GPU side may be from the next commit on
    maybe: Vec<(usize, Vec<u32>)>,
}

impl Obj {
    fn n(&self) -> usize {
        self.shape.n.unwrap_or(1)
    }
    fn size(&self) -> usize {
        self.n() * self.shape.isz
    }
    fn words(&self) -> std::ops::Range<usize> {
        if self.size() == 0 {
            0..0
        } else {
            self.loc as usize..self.loc as usize + self.size()
        }
    }
}

#[derive(Clone, Copy, Hash)]
struct MH {
    obj: usize,
    kind: Kind,
}

#[derive(Clone, Hash)]
struct Epoch {
    id: usize,
    ctime: usize,
    born: usize,
    last: Vec<u32>,
}

#[derive(Default)]
struct Model {
    objs: Vec<Obj>,
    handles: Vec<MH>,
    bufs: Vec<usize>,
    free: BTreeSet<usize>,
    hwm: usize,
    cur: Vec<u32>,
    epochs: Vec<Epoch>,
    commits: usize,
    unfit: bool,
    allowed: BTreeSet<usize>,
    required: BTreeSet<usize>,
    stamp: u32,
}

pub struct World<R: Rt> {
    pub rt: R,
    allocs: Vec<SlabAllocator<R>>,
    now: usize,
    handles: Vec<Box<dyn Handle>>,
    bufs: Vec<SlabBuffer<R::Buffer>>,
    m: Model,
    active: u32,
    variant: usize,
    label: bool,
    /// everything observable, for comparisons between runs
    pub trace: Option<Vec<String>>,
}

pub struct Limits {
    pub handles: usize,
    pub objs: usize,
    pub bufs: usize,
}

macro_rules! must {
    ($self:ident, $tags:expr, $c:expr, $($m:tt)*) => {
        if $self.active & ($tags) != 0 && !($c) {
            return Err(Fail { msg: format!($($m)*) });
        }
    };
}

impl<R: Rt> World<R> {
    pub fn new(active: u32, variant: usize, label: bool, trace: bool) -> Self {
        let rt = R::make();
        if active & C25 != 0 {
            rt.calls();
        }
        let a = if label {
            SlabAllocator::new_with_label(&rt, R::usages(variant), Some("label"))
        } else {
            SlabAllocator::new(&rt, R::usages(variant))
        };
        World {
            rt,
            allocs: vec![a],
            now: 0,
            handles: vec![],
            bufs: vec![],
            m: Model::default(),
            active,
            variant,
            label,
            trace: trace.then(Vec::new),
        }
    }

    fn note(&mut self, f: impl FnOnce(&Self) -> String) {
        if self.trace.is_some() {
            let s = f(self);
            self.trace.as_mut().unwrap().push(s);
        }
    }

    /// The operations that make sense now.
    pub fn enabled(&self, ks: &[K], l: &Limits) -> Vec<Op> {
        let mut v = vec![];
        let alloc = !self.allocs.is_empty();
        let live = self.m.objs.iter().filter(|o| o.owners > 0).count();
        for &k in ks {
            use K::*;
            if let Some(plain) = k.unwinding() {
                v.extend(self.enabled(&[plain], l).into_iter().map(|o| Op { k, ..o }));
                continue;
            }
            match k {
                UNew | USet | UMod | UGrd | UCln | UUp | UDrp | UCm => unreachable!(),
                New(..) => {
                    if alloc && self.handles.len() < l.handles && live < l.objs {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                ArrN => {
                    if alloc && self.handles.len() + 1 < l.handles && live + 1 < l.objs {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                Cm | Upk | Ask | Dfg | Swp => {
                    if alloc {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                Rd => {
                    if alloc {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                DrpA => {
                    if alloc {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                CmK => {
                    if alloc && self.bufs.len() < l.bufs {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                Buf => {
                    if alloc && self.bufs.len() < l.bufs && !self.m.epochs.is_empty() {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                GpuW => {
                    if alloc && !self.m.cur.is_empty() {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                Syn | DrpB => {
                    for h in first_and_last(self.bufs.len()) {
                        v.push(Op { k, h: h as u16, i: 0 });
                    }
                }
                ClnB => {
                    if self.bufs.len() < l.bufs {
                        for h in first_and_last(self.bufs.len()) {
                            v.push(Op { k, h: h as u16, i: 0 });
                        }
                    }
                }
                Insp => {
                    if !self.handles.is_empty() {
                        v.push(Op { k, h: 0, i: 0 });
                    }
                }
                PNew => {
                    if alloc && self.handles.len() < l.handles && live < l.objs {
                        // a value or an array, with or without a CPU part
                        for (form, n) in [(0, 3), (1, 6), (2, 2), (3, 4)] {
                            v.extend((1..=n).map(|i| Op { k, h: form, i }));
                        }
                    }
                }
                Set | Same | Zero | Mod | ModR | Grd | GrdR | GrdC | ModC | ModN | GrdN | Oob | Cln | Wk | WkG | Up | Gpu | Drp | PSet | PMod | PGrd | PGet => {
                    let many = self.m.handles.len();
                    for (h, m) in self.m.handles.iter().enumerate() {
                        if many > 600 && ![0, 1, 255, many / 2, many - 1].contains(&h) || many > 16 && ![0, 1, many - 1].contains(&h) {
                            continue;
                        }
                        let o = &self.m.objs[m.obj];
                        let fits = self.handles.len() < l.handles;
                        use Kind as H;
                        if o.spoiled && matches!(m.kind, H::Hyb | H::HArr) && !matches!(k, Cln | Wk | WkG | Gpu | Drp) {
                            continue;
                        }
                        let fuses = match (k, m.kind) {
                            (PSet, H::Hyb | H::HArr) => 4,
                            (PSet, H::Gpu | H::GArr) => 3,
                            (PMod, H::Hyb | H::HArr) => 4,
                            (PGrd, H::Hyb) => 4,
                            (PGet, H::Hyb) => 1,
                            (PGet, H::HArr) => o.n() as u32,
                            _ => 0,
                        };
                        if o.n() > 0 {
                            v.extend((1..=fuses).map(|i| Op { k, h: h as u16, i }));
                        }
                        let items = match k {
                            Set | Same | Zero => match m.kind {
                                H::WHyb | H::WGpu => 0,
                                _ => o.n().min(2),
                            },
                            Mod | ModR => match m.kind {
                                H::Hyb | H::HArr => o.n().min(2),
                                _ => 0,
                            },
                            ModC => match m.kind {
                                H::Hyb | H::HArr => o.n().min(1) * alloc as usize,
                                _ => 0,
                            },
                            ModN => match m.kind {
                                H::Hyb | H::HArr => o.n().min(1) * (alloc && fits && live < l.objs) as usize,
                                _ => 0,
                            },
                            GrdN => (m.kind == H::Hyb && alloc && fits && live < l.objs) as usize,
                            Grd | GrdR => (m.kind == H::Hyb) as usize,
                            GrdC => (m.kind == H::Hyb && alloc) as usize,
                            Oob => matches!(m.kind, H::HArr | H::GArr) as usize,
                            Cln => fits as usize,
                            Wk => (fits && matches!(m.kind, H::Hyb | H::Gpu)) as usize,
                            WkG => (fits && matches!(m.kind, H::Hyb | H::WHyb)) as usize,
                            Up => (fits && matches!(m.kind, H::WHyb | H::WGpu)) as usize,
                            Gpu => matches!(m.kind, H::Hyb | H::HArr) as usize,
                            Drp => 1,
                            _ => 0,
                        };
                        for i in 0..items {
                            // of more than two items, the first and the last
                            let i = if i == 1 { o.n() - 1 } else { i };
                            v.push(Op { k, h: h as u16, i: i as u32 });
                        }
                    }
                }
            }
        }
        v
    }

    fn fresh(&mut self, isz: usize) -> Vec<u32> {
        self.m.stamp += 1;
        (0..isz as u32).map(|w| self.m.stamp << 9 | (w + 1)).collect()
    }

    fn touch(&mut self, obj: usize, item: usize, w: Vec<u32>, cpu: bool) {
        let o = &mut self.m.objs[obj];
        if cpu {
            o.cpu[item] = w.clone();
        }
        self.m.allowed.insert(o.uid);
        if o.gpu[item] != w {
            self.m.required.insert(o.uid);
        }
        o.gpu[item] = w;
        o.dirty[item] = true;
        if o.shape.n.is_none() {
            o.maybe.clear();
        } else {
            o.maybe.retain(|m| m.0 != item);
        }
    }

    /// User code has panicked in a modification of an item to these words.
    fn spoil(&mut self, obj: usize, item: usize, w: Vec<u32>, kind: Kind) {
        let o = &mut self.m.objs[obj];
        self.m.allowed.insert(o.uid);
        if matches!(kind, Kind::Hyb | Kind::HArr) {
            o.spoiled = true;
            o.dirty[item] = true;
            o.maybe.push((item, w));
        }
    }

    fn add_handle(&mut self, h: Box<dyn Handle>, obj: usize) {
        let kind = h.kind();
        let o = &mut self.m.objs[obj];
        match kind {
            Kind::Hyb | Kind::HArr => {
                o.owners += 1;
                o.cpu_owners += 1;
            }
            Kind::Gpu | Kind::GArr => o.owners += 1,
            _ => {}
        }
        self.handles.push(h);
        self.m.handles.push(MH { obj, kind });
    }

    fn created(&mut self, h: Box<dyn Handle>, shape: Shape, ws: Vec<Vec<u32>>, check: bool) -> Res {
        let loc = h.loc().unwrap();
        let uid = h.uid();
        let n = ws.len();
        let o = Obj { shape, loc, uid, cpu: ws.clone(), gpu: ws, dirty: vec![true; n], owners: 0, cpu_owners: 0, freed: false, spoiled: false, maybe: vec![] };
        self.note(|_| format!("created at {loc} with id {uid}"));
        if check {
            must!(
                self,
                C17,
                self.m.objs.iter().all(|x| x.uid != uid),
                "the new value has id {uid}, which another value has or had"
            );
            for x in &self.m.objs {
                if x.owners > 0 {
                    let (a, b) = (o.words(), x.words());
                    must!(
                        self,
                        C10 | C11 | C14 | C13,
                        a.is_empty() || b.is_empty() || a.end <= b.start || b.end <= a.start,
                        "a new allocation got the words {a:?}, of which {b:?} are still owned by the value with id {}",
                        x.uid
                    );
                }
            }
            let mut run = 0;
            let mut fits = false;
            for w in 0..self.m.hwm {
                run = if self.m.free.contains(&w) { run + 1 } else { 0 };
                fits |= run >= o.size();
            }
            if fits && o.size() > 0 {
                must!(
                    self,
                    C13,
                    o.words().all(|w| self.m.free.contains(&w)),
                    "an allocation of {} words was placed at {:?} although it fits in the free words {:?}",
                    o.size(),
                    o.words(),
                    self.m.free
                );
            }
        }
        for w in o.words() {
            self.m.free.remove(&w);
        }
        self.m.hwm = self.m.hwm.max(o.words().end);
        if !self.m.epochs.is_empty() && o.words().end > self.m.cur.len() {
            self.m.unfit = true;
        }
        self.m.allowed.insert(uid);
        self.m.required.insert(uid);
        self.m.objs.push(o);
        self.add_handle(h, self.m.objs.len() - 1);
        Ok(())
    }

    fn alloc(&self) -> &SlabAllocator<R> {
        &self.allocs[self.now]
    }

    /// What a commit asked the runtime to do.
    fn called(&self, b: &SlabBuffer<R::Buffer>) -> Res {
        if self.active & C25 == 0 {
            return Ok(());
        }
        let calls = self.rt.calls();
        let old = self.m.epochs.last().map(|e| e.id);
        let (mut new, mut copied, mut written) = (None, false, vec![false; self.m.hwm]);
        // the words of items that were created or modified since the last commit
        let mut dirty = vec![false; self.m.hwm];
        for o in &self.m.objs {
            let r = o.words();
            for (i, d) in o.dirty.iter().enumerate() {
                if *d {
                    dirty[r.start + i * o.shape.isz..][..o.shape.isz].fill(true);
                }
            }
        }
        for c in &calls {
            match c {
                Call::Create { id, capacity, label, usages } => {
                    must!(self, C25, new.is_none(), "a commit created more than one buffer: {calls:?}");
                    must!(self, C25, *capacity >= 1 && *capacity >= self.m.hwm, "a buffer of {capacity} words was created for {} words of values", self.m.hwm);
                    must!(self, C25, old.is_none() || *capacity > self.m.cur.len(), "a buffer of {} words was replaced with one of {capacity}", self.m.cur.len());
                    must!(self, C25, *usages == self.variant, "a buffer was created with the usages {usages}, the allocator with {}", self.variant);
                    must!(self, C25, label.as_deref() == self.label.then_some("label"), "a buffer was created with the label {label:?}");
                    new = Some(*id);
                }
                Call::Copy { src, dst } => {
                    must!(self, C25, !copied && Some(*dst) == new && Some(*src) == old, "a copy from buffer {src} to {dst}, the last one was {old:?}: {calls:?}");
                    must!(self, C25, written.iter().all(|w| !w), "the old contents were copied after the first write: {calls:?}");
                    copied = true;
                }
                Call::Write { buf, updates } => {
                    must!(self, C25, Some(*buf) == new.or(old), "a write to buffer {buf}, which is not the current one: {calls:?}");
                    must!(self, C25, new.is_none() || old.is_none() || copied, "a write before the old contents were copied: {calls:?}");
                    for (index, len, n) in updates {
                        must!(self, C25, *len as usize == *n, "an update of {len} words brings {n}: {calls:?}");
                        for w in *index as usize..*index as usize + *len as usize {
                            must!(self, C25, w < self.m.hwm && dirty[w], "an update of word {w}, in which there is nothing that was created or modified: {calls:?}");
                            must!(self, C25, !written[w], "word {w} was written twice in one commit: {calls:?}");
                            written[w] = true;
                        }
                    }
                }
                Call::Read => must!(self, C25, false, "a commit read from the buffer"),
            }
        }
        must!(self, C25, copied == (new.is_some() && old.is_some()), "a new buffer did not get the contents of the old one: {calls:?}");
        must!(self, C25, Some(R::id(b)) == new.or(old), "commit returned another buffer than the one it used: {calls:?}");
        Ok(())
    }

    fn committed(&mut self, b: &SlabBuffer<R::Buffer>, check: bool) -> Res {
        self.called(b)?;
        self.m.commits += 1;
        let id = R::id(b);
        let words = R::words(b);
        let first = self.m.epochs.is_empty();
        let replaced = self.m.epochs.last().is_none_or(|e| e.id != id);
        if replaced {
            let ctime = b.creation_time();
            if check {
                must!(self, C15, first || self.m.unfit, "the buffer has been replaced although everything allocated since the last commit fits in its {} words", self.m.cur.len());
                must!(
                    self,
                    C15,
                    first || words.len() > self.m.cur.len(),
                    "the buffer of {} words was replaced with one of {}",
                    self.m.cur.len(),
                    words.len()
                );
                must!(
                    self,
                    C16 | C15,
                    self.m.epochs.iter().all(|e| e.id != id),
                    "the commit went back to a buffer that had been replaced"
                );
                if let Some(e) = self.m.epochs.last() {
                    must!(self, C16, ctime > e.ctime, "the new buffer's creation time {ctime} is not greater than the old one's {}", e.ctime);
                }
            }
            if let Some(e) = self.m.epochs.last_mut() {
                e.last = std::mem::take(&mut self.m.cur);
            }
            let born = self.m.commits;
            let old = self.m.epochs.last().map_or(vec![], |e| e.last.clone());
            self.m.cur = old;
            self.m.epochs.push(Epoch { id, ctime, born, last: vec![] });
        }
        let e = self.m.epochs.last().unwrap();
        // one or the other
        for o in &mut self.m.objs {
            for (i, w) in std::mem::take(&mut o.maybe) {
                let at = o.loc as usize + i * o.shape.isz;
                if o.owners > 0 && words.get(at..at + w.len()) == Some(&w[..]) {
                    o.gpu[i] = w;
                }
            }
        }
        if check {
            must!(self, C15, !words.is_empty(), "the buffer has no words");
            must!(self, C15, replaced || words.len() == self.m.cur.len(), "a buffer that was not replaced changed its length");
            must!(self, C16, b.creation_time() == e.ctime, "the commit's buffer has creation time {}, the same buffer had {}", b.creation_time(), e.ctime);
            must!(self, C16, b.is_valid() && !b.is_invalid(), "the buffer that commit returned is not valid");
            must!(self, C16, b.is_new_this_commit() == replaced, "is_new_this_commit is {} on the buffer returned by a commit that {} it", !replaced, if replaced { "created" } else { "did not create" });
            match self.alloc().get_buffer() {
                None => must!(self, C16, false, "there is no buffer after a commit"),
                Some(g) => must!(self, C16, R::id(&g) == id && g.creation_time() == e.ctime, "commit returned another buffer than the allocator uses"),
            }
            // word by word
            let mut cover: Vec<Option<(u32, bool, usize)>> = vec![None; words.len()];
            for o in &self.m.objs {
                if o.owners == 0 {
                    continue;
                }
                let r = o.words();
                must!(self, C11 | C10 | C22, r.end <= words.len(), "the value with id {} at {r:?} is not within the buffer of {} words", o.uid, words.len());
                if r.end > words.len() {
                    continue;
                }
                for (k, w) in r.enumerate() {
                    cover[w] = Some((o.gpu[k / o.shape.isz][k % o.shape.isz], o.dirty[k / o.shape.isz], o.uid));
                }
            }
            let before = &self.m.cur;
            for w in 0..words.len() {
                let got = words[w];
                match cover[w] {
                    Some((want, dirty, uid)) => {
                        must!(
                            self,
                            if dirty { C10 | C22 | C19 } else { C10 | C14 | C22 },
                            got == want,
                            "after the commit word {w} of the buffer is {got:#x}, the value with id {uid} has {want:#x} there{}; buffer {words:x?}",
                            if dirty { "" } else { " and was not modified since the last commit" }
                        );
                        if !dirty && w < before.len() {
                            must!(
                                self,
                                if replaced { C12 | C15 } else { C12 },
                                got == before[w],
                                "the commit changed word {w} from {:#x} to {got:#x} although the value with id {uid} was not modified; buffer {words:x?}",
                                before[w]
                            );
                        }
                    }
                    None => {
                        if w < before.len() {
                            must!(
                                self,
                                if replaced { C12 | C15 } else { C12 },
                                got == before[w],
                                "the commit changed word {w} from {:#x} to {got:#x} although nothing was queued for it; buffer {words:x?}",
                                before[w]
                            );
                        }
                    }
                }
            }
        }
        self.note(|_| format!("commit: {words:x?} replaced {replaced}"));
        self.m.cur = words;
        self.m.unfit = false;
        self.m.allowed.clear();
        self.m.required.clear();
        for o in &mut self.m.objs {
            o.dirty.fill(false);
            if o.owners == 0 && !o.freed {
                o.freed = true;
                for w in o.words() {
                    self.m.free.insert(w);
                }
            }
        }
        if check {
            let a = &self.allocs[self.now];
            must!(self, C17, !a.has_queued_updates(), "has_queued_updates right after a commit");
        }
        Ok(())
    }

    fn commit(&mut self, check: bool, keep: bool) -> Res {
        let b = self.alloc().commit();
        self.committed(&b, check)?;
        if keep {
            self.bufs.push(b);
            self.m.bufs.push(self.m.epochs.len() - 1);
        }
        Ok(())
    }

    fn unown(&mut self, h: usize) {
        let m = self.m.handles.remove(h);
        let o = &mut self.m.objs[m.obj];
        let gpu = match m.kind {
            Kind::Hyb | Kind::HArr => {
                o.owners -= 1;
                o.cpu_owners -= 1;
                true
            }
            Kind::Gpu | Kind::GArr => {
                o.owners -= 1;
                true
            }
            _ => false,
        };
        if gpu {
            self.m.allowed.insert(o.uid);
            if o.owners == 0 {
                self.m.required.insert(o.uid);
            }
        }
    }

    pub fn step(&mut self, op: Op, check: bool) -> Res {
        let h = op.h as usize;
        let i = op.i as usize;
        if let Some(k) = op.k.unwinding() {
            return while_unwinding(|| self.step(Op { k, ..op }, check));
        }
        match op.k {
            K::New(s, g) => {
                let n = s.n.unwrap_or(1);
                let ws: Vec<Vec<u32>> = (0..n).map(|_| self.fresh(s.isz)).collect();
                let x = create(self.alloc(), s, &ws, g, self.m.objs.len(), &mut || {});
                self.created(x, s, ws, check)?;
            }
            K::ArrN => {
                let s = Shape { isz: 2, n: Some(2) };
                let ws: Vec<Vec<u32>> = (0..2).map(|_| self.fresh(2)).collect();
                let one = Shape { isz: 1, n: None };
                let w1 = vec![self.fresh(1)];
                let mut inner = None;
                let a = self.alloc();
                let x = create(a, s, &ws, false, self.m.objs.len(), &mut || {
                    if inner.is_none() {
                        let x = create(a, one, &w1, false, 0, &mut || {});
                        inner = Some((x, a.commit()));
                    }
                });
                let (y, b) = inner.expect("the items of an array have not been produced");
                self.created(y, one, w1, check)?;
                self.committed(&b, false)?;
                self.created(x, s, ws, check)?;
            }
            K::Set | K::Same | K::Zero => {
                let MH { obj, kind } = self.m.handles[h];
                let o = &self.m.objs[obj];
                let w = match op.k {
                    K::Set => self.fresh(o.shape.isz),
                    K::Zero => vec![0; o.shape.isz],
                    _ if matches!(kind, Kind::Hyb | Kind::HArr) => o.cpu[i].clone(),
                    _ => o.gpu[i].clone(),
                };
                let r = self.handles[h].set(i, &w);
                let prev = self.m.objs[obj].cpu[i].clone();
                if let (Some(r), true) = (r, kind == Kind::HArr) {
                    must!(self, C18, r == Some(prev.clone()), "set_item({i}) returned {r:x?} instead of the previous item {prev:x?}");
                }
                self.touch(obj, i, w, matches!(kind, Kind::Hyb | Kind::HArr));
            }
            K::ModN | K::GrdN => {
                let MH { obj, .. } = self.m.handles[h];
                let prev = self.m.objs[obj].cpu[i].clone();
                let w = self.fresh(self.m.objs[obj].shape.isz);
                let one = Shape { isz: 1, n: None };
                let w1 = vec![self.fresh(1)];
                let mut inner = None;
                let mut asked = None;
                let a = self.alloc();
                let own = &self.handles[h];
                let mut f = || {
                    let x = create(a, one, &w1, false, 0, &mut || {});
                    let seen = (a.has_queued_updates(), a.get_updated_source_ids().contains(&x.uid()), own.uid(), own.loc(), own.owners());
                    a.defrag();
                    let b = a.get_buffer();
                    std::hint::black_box(b.map(|b| (b.is_valid(), b.clone().update_if_invalid())));
                    drop(own.dup());
                    asked = Some(seen);
                    inner = Some(x);
                };
                let r = if op.k == K::ModN { own.modify(i, &w, &mut f) } else { Some(own.guard(Some(&w), &mut f)) };
                must!(self, C18, r == Some(prev.clone()), "modify({i}) showed {r:x?} to its closure, not {prev:x?}");
                let y = inner.expect("the closure has not been called");
                let (q, listed, uid, loc, owners) = asked.unwrap();
                let o = &self.m.objs[obj];
                must!(self, C17, q && listed, "in the middle of a modification, a value that was created is not reported");
                must!(
                    self,
                    C18 | C19,
                    uid == o.uid && loc == Some(o.loc) && owners == Some(o.owners),
                    "in the middle of a modification, a value has id {uid}, location {loc:?} and {owners:?} owners"
                );
                // a clone has been dropped
                let uid = o.uid;
                self.created(y, one, w1, check)?;
                self.touch(obj, i, w, true);
                self.m.allowed.insert(uid);
            }
            K::Mod | K::ModC | K::ModR => {
                let MH { obj, .. } = self.m.handles[h];
                let prev = self.m.objs[obj].cpu[i].clone();
                let w = if op.k == K::ModR { prev.clone() } else { self.fresh(self.m.objs[obj].shape.isz) };
                let mut b = None;
                let a = self.allocs.get(self.now);
                let r = self.handles[h].modify(i, &w, &mut || {
                    if op.k == K::ModC {
                        b = Some(a.unwrap().commit());
                    }
                });
                must!(self, C18, r == Some(prev.clone()), "modify({i}) showed {r:x?} to its closure, not {prev:x?}");
                if let Some(b) = b {
                    self.committed(&b, check && self.active & C17 == 0)?;
                }
                self.touch(obj, i, w, true);
            }
            K::Grd | K::GrdR | K::GrdC => {
                let MH { obj, .. } = self.m.handles[h];
                let w = (op.k != K::GrdR).then(|| self.fresh(self.m.objs[obj].shape.isz));
                let prev = self.m.objs[obj].cpu[0].clone();
                let mut b = None;
                let a = self.allocs.get(self.now);
                let r = self.handles[h].guard(w.as_deref(), &mut || {
                    if op.k == K::GrdC {
                        b = Some(a.unwrap().commit());
                    }
                });
                must!(self, C18, r == prev, "a write guard showed {r:x?}, not {prev:x?}");
                if let Some(b) = b {
                    self.committed(&b, check && self.active & C17 == 0)?;
                }
                if let Some(w) = w {
                    self.touch(obj, 0, w, true);
                }
            }
            K::PSet | K::PMod | K::PGrd | K::PGet => {
                let MH { obj, kind } = self.m.handles[h];
                let o = &self.m.objs[obj];
                let (item, isz) = (o.n() - 1, o.shape.isz);
                let prev = o.cpu[item].clone();
                let w = self.fresh(isz);
                let x = &self.handles[h];
                let mut f = || tick();
                let done = with_fuse(op.i, || match op.k {
                    K::PSet => x.set(item, &w).flatten(),
                    K::PMod => x.modify(item, &w, &mut f),
                    K::PGrd => Some(x.guard(Some(&w), &mut f)),
                    _ => x.items().map(|v| v[item].clone()),
                });
                match done {
                    None if op.k == K::PGet => {}
                    None => self.spoil(obj, item, w, kind),
                    Some(r) => {
                        if let Some(r) = r {
                            must!(self, C18, r == prev, "{:?} showed {r:x?}, not {prev:x?}", op.k);
                        }
                        if op.k != K::PGet {
                            self.touch(obj, item, w, matches!(kind, Kind::Hyb | Kind::HArr));
                        }
                    }
                }
            }
            K::PNew => {
                let s = Shape { isz: 4, n: (h % 2 == 1).then_some(2) };
                let ws: Vec<Vec<u32>> = (0..s.n.unwrap_or(1)).map(|_| self.fresh(4)).collect();
                let a = self.alloc();
                let it = self.m.objs.len();
                if let Some(x) = with_fuse(op.i, || create(a, s, &ws, h >= 2, it, &mut || {})) {
                    self.created(x, s, ws, check)?;
                }
            }
            K::Oob => {
                let MH { obj, kind } = self.m.handles[h];
                let (n, isz) = (self.m.objs[obj].n(), self.m.objs[obj].shape.isz);
                for j in [n, n + 1, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX / isz.max(1), usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX] {
                    let w = self.fresh(isz);
                    let r = self.handles[h].set(j, &w);
                    must!(self, C18, r.is_none() || r == Some(None), "set_item({j}) of an array of {n} items returned {r:x?}");
                    if kind == Kind::HArr {
                        let r = self.handles[h].modify(j, &w, &mut || {});
                        must!(self, C18, r.is_none(), "modify({j}) of an array of {n} items ran its closure");
                        let r = self.handles[h].item(j);
                        must!(self, C18, r == Some(None), "get({j}) of an array of {n} items returned {r:x?}");
                    }
                    let r = self.handles[h].item_id(j);
                    must!(self, C18, r == Some(u32::MAX), "get_id({j}) of an array of {n} items is {r:?}, not the null id");
                }
            }
            K::Cln => {
                let MH { obj, .. } = self.m.handles[h];
                let x = self.handles[h].dup();
                self.add_handle(x, obj);
            }
            K::Wk | K::WkG => {
                let MH { obj, .. } = self.m.handles[h];
                let x = self.handles[h].weak(op.k == K::WkG);
                self.add_handle(x, obj);
            }
            K::Up => {
                let MH { obj, kind } = self.m.handles[h];
                let o = &self.m.objs[obj];
                let want = o.owners > 0 && (kind == Kind::WGpu || o.cpu_owners > 0);
                let r = self.handles[h].up();
                must!(
                    self,
                    C19 | C14,
                    r.is_some() == want,
                    "upgrading a weak handle {} although the value has {} owners and {} of its CPU part",
                    if want { "failed" } else { "succeeded" },
                    o.owners,
                    o.cpu_owners
                );
                if let Some(x) = r {
                    if want {
                        self.add_handle(x, obj);
                    } else {
                        // the model cannot follow
                        std::mem::forget(x);
                    }
                }
            }
            K::Gpu => {
                let MH { obj, .. } = self.m.handles[h];
                let x = self.handles.remove(h).gpu_only();
                let kind = x.kind();
                self.handles.insert(h, x);
                self.m.handles[h].kind = kind;
                self.m.objs[obj].cpu_owners -= 1;
            }
            K::Drp => {
                drop(self.handles.remove(h));
                self.unown(h);
            }
            K::Cm => self.commit(check, false)?,
            K::CmK => self.commit(check, true)?,
            K::Upk => {
                #[allow(deprecated)]
                let b = self.alloc().upkeep();
                self.committed(&b, check)?;
            }
            K::Ask => self.ask(check)?,
            K::Buf => {
                let b = self.alloc().get_buffer();
                match b {
                    None => must!(self, C16, false, "there is no buffer after a commit"),
                    Some(b) => {
                        self.bufs.push(b);
                        self.m.bufs.push(self.m.epochs.len() - 1);
                    }
                }
            }
            K::Syn => {
                let e = self.m.bufs[h];
                let last = self.m.epochs.len() - 1;
                #[allow(deprecated)]
                let old = self.bufs[h].clone().synchronize();
                let r = self.bufs[h].update_if_invalid();
                must!(self, C16, old == r, "synchronize returned {old}, update_if_invalid {r}");
                must!(
                    self,
                    C16 | C21,
                    r == (e != last),
                    "synchronizing a handle of buffer {e} returned {r}, the allocator is at buffer {last}"
                );
                self.m.bufs[h] = last;
            }
            K::ClnB => {
                let b = self.bufs[h].clone();
                self.bufs.push(b);
                self.m.bufs.push(self.m.bufs[h]);
            }
            K::DrpB => {
                drop(self.bufs.remove(h));
                self.m.bufs.remove(h);
            }
            K::Dfg => self.alloc().defrag(),
            K::Swp => {
                if self.allocs.len() < 2 {
                    let a = self.alloc().clone();
                    self.allocs.push(a);
                }
                self.now = (self.now + 1) % self.allocs.len();
            }
            K::DrpA => {
                drop(self.allocs.remove(self.now));
                self.now = 0;
            }
            K::Rd => self.read_back()?,
            K::GpuW => {
                let n = self.m.cur.len();
                let mut ws = Vec::with_capacity(n);
                while ws.len() < n {
                    ws.extend(self.fresh((n - ws.len()).min(256)));
                }
                let b = self.alloc().get_buffer();
                let Some(b) = b else {
                    must!(self, C16, false, "there is no buffer after a commit");
                    return Ok(());
                };
                self.rt.poke(&b, &ws);
                // updates that have been queued are going to replace that
                for o in self.m.objs.iter_mut().filter(|o| o.owners > 0) {
                    let (at, isz) = (o.loc as usize, o.shape.isz);
                    for i in 0..o.n() {
                        let r = at + i * isz..at + (i + 1) * isz;
                        if isz > 0 && !o.dirty[i] && r.end <= n {
                            o.gpu[i] = ws[r].to_vec();
                        }
                    }
                }
                self.m.cur = ws;
            }
            K::UNew | K::USet | K::UMod | K::UGrd | K::UCln | K::UUp | K::UDrp | K::UCm => unreachable!(),
            K::Insp => {
                for (h, m) in self.handles.iter().zip(&self.m.handles) {
                    if self.m.objs[m.obj].spoiled {
                        continue;
                    }
                    std::hint::black_box(h.dbg());
                }
                if let Some(a) = self.allocs.get(self.now) {
                    std::hint::black_box(a.runtime());
                    std::hint::black_box(a.get_buffer().is_some());
                }
            }
        }
        if check {
            self.observe()?;
        }
        Ok(())
    }

    fn ask(&mut self, check: bool) -> Res {
        let q0 = self.alloc().has_queued_updates();
        let ids: BTreeSet<usize> = self.alloc().get_updated_source_ids().into_iter().collect();
        let q1 = self.alloc().has_queued_updates();
        let again: BTreeSet<usize> = self.alloc().get_updated_source_ids().into_iter().collect();
        self.note(|_| format!("ask: {q0} {ids:?}"));
        if check {
            let (req, all) = (&self.m.required, &self.m.allowed);
            must!(self, C17, req.is_subset(&ids), "the values {req:?} have been created, modified or dropped, reported are {ids:?}");
            must!(self, C17, ids.is_subset(all), "the ids {ids:?} are reported, only {all:?} have been created, modified or dropped");
            must!(self, C17, again == ids, "asking twice reports {ids:?}, then {again:?}");
            must!(self, C17, q0 == !ids.is_empty() && q1 == q0, "has_queued_updates says {q0}, then {q1}, with the ids {ids:?} queued");
        }
        Ok(())
    }

    /// Compare everything that can be seen without asking with the model.
    fn observe(&mut self) -> Res {
        if self.active & C25 != 0 {
            let calls = self.rt.calls();
            must!(self, C25, calls.is_empty(), "the runtime was called without a commit: {calls:?}");
        }
        let mut trace = self.trace.is_some().then(String::new);
        for (h, m) in self.handles.iter().zip(&self.m.handles) {
            let o = &self.m.objs[m.obj];
            must!(self, C18 | C17 | C19, h.uid() == o.uid, "a handle has id {}, the value had {} when it was created", h.uid(), o.uid);
            if let Some(l) = h.loc() {
                must!(self, C11 | C18 | C19, l == o.loc, "a handle says that its value is at {l}, it was created at {}", o.loc);
            }
            if let Some(n) = h.owners() {
                must!(self, C18 | C19, n == o.owners, "{:?} counts {n} owners of the value with id {}, there are {}", m.kind, o.uid, o.owners);
                if let Some(t) = &mut trace {
                    *t += &format!(" {n}");
                }
            }
            let usable = !o.spoiled || matches!(m.kind, Kind::Gpu | Kind::GArr);
            if let Some(v) = if usable { h.items() } else { None } {
                must!(self, C18, v == o.cpu, "{:?} reads {v:x?}, last written was {:x?}", m.kind, o.cpu);
                if let Some(t) = &mut trace {
                    *t += &format!(" {v:x?}");
                }
            }
            if let Some((len, empty, alen)) = h.len() {
                must!(
                    self,
                    C18,
                    len == o.n() && alen == o.n() && empty == (o.n() == 0),
                    "an array of {} items says that its length is {len}, its array's {alen}, empty {empty}",
                    o.n()
                );
                for i in some(o.n() + 1) {
                    let id = h.item_id(i).unwrap();
                    let want = if i < o.n() { o.loc + (i * o.shape.isz) as u32 } else { u32::MAX };
                    must!(self, C18, id == want, "get_id({i}) is {id}, not {want}");
                    if let Some(x) = if usable { h.item(i) } else { None } {
                        must!(self, C18, x.as_ref() == o.cpu.get(i), "get({i}) is {x:x?} in {:x?}", o.cpu);
                    }
                }
            }
        }
        let last = self.m.epochs.len().wrapping_sub(1);
        if let Some(a) = self.allocs.get(self.now) {
            match a.get_buffer() {
                None => must!(self, C16, self.m.epochs.is_empty(), "there is no buffer after a commit"),
                Some(b) => {
                    must!(self, C16, !self.m.epochs.is_empty(), "there is a buffer before the first commit");
                    let e = &self.m.epochs[last];
                    must!(self, C16 | C15, R::id(&b) == e.id, "the buffer has been replaced without a commit");
                    must!(self, C16, b.creation_time() == e.ctime && b.is_valid(), "the current buffer is not valid, or its creation time has changed");
                    must!(
                        self,
                        C16,
                        b.is_new_this_commit() == (e.born == self.m.commits),
                        "is_new_this_commit is {} on a buffer created by commit {} after {} commits",
                        b.is_new_this_commit(),
                        e.born,
                        self.m.commits
                    );
                    let w = R::words(&b);
                    must!(self, C12 | C22, w == self.m.cur, "the buffer changed without a commit, from {:x?} to {w:x?}", self.m.cur);
                }
            }
        }
        for (b, &e) in self.bufs.iter().zip(&self.m.bufs) {
            let ep = &self.m.epochs[e];
            must!(self, C16 | C21, R::id(b) == ep.id, "a handle is not on the buffer it should be on");
            #[allow(deprecated)]
            let old = b.is_new_this_upkeep();
            must!(self, C16, old == b.is_new_this_commit(), "is_new_this_upkeep is {old}, is_new_this_commit is not");
            must!(self, C16, b.creation_time() == ep.ctime, "a handle's creation time is {} instead of {}", b.creation_time(), ep.ctime);
            if !self.allocs.is_empty() {
                must!(
                    self,
                    C16,
                    b.is_valid() == (e == last) && b.is_invalid() == (e != last),
                    "a handle of buffer {e} says valid {}, invalid {} while the allocator uses buffer {last}",
                    b.is_valid(),
                    b.is_invalid()
                );
                must!(
                    self,
                    C16,
                    b.is_new_this_commit() == (ep.born == self.m.commits),
                    "is_new_this_commit is {} on a handle of a buffer created by commit {} after {} commits",
                    b.is_new_this_commit(),
                    ep.born,
                    self.m.commits
                );
            }
            let w = R::words(b);
            let want = if e == last { &self.m.cur } else { &ep.last };
            must!(self, C15 | C21, &w == want, "a buffer that has been replaced changed from {want:x?} to {w:x?}");
        }
        // buffers that nobody can refer to any more are gone, those in use are not
        let mut used: BTreeSet<usize> = self.m.bufs.iter().copied().collect();
        let mut most = used.len();
        if !self.m.epochs.is_empty() && !used.contains(&last) && (!self.allocs.is_empty() || !used.is_empty()) {
            most += 1;
        }
        if !self.m.epochs.is_empty() && !self.allocs.is_empty() {
            used.insert(last);
        }
        let live = self.rt.live();
        must!(
            self,
            C21,
            live >= used.len() && live <= most,
            "{live} buffers exist, handles and the allocator refer to {} of the {} buffers created",
            used.len(),
            self.m.epochs.len()
        );
        if let Some(t) = trace {
            self.trace.as_mut().unwrap().push(t);
        }
        Ok(())
    }

    fn read_back(&mut self) -> Res {
        if self.active & (C23 | C22 | C24) == 0 {
            return Ok(());
        }
        let a = self.alloc();
        use Bound::*;
        let len = self.m.cur.len();
        if self.m.epochs.is_empty() {
            for r in [(Unbounded, Unbounded), (Included(0), Excluded(0)), (Included(0), Excluded(1)), (Excluded(0), Unbounded)] {
                let x = R::read(a, r);
                must!(self, C23, x.is_err(), "reading before the first commit returned {x:x?}");
            }
            for h in &self.handles {
                if let Some(x) = read_typed(a, &**h) {
                    must!(self, C23, x.is_err(), "reading an array before the first commit returned {x:x?}");
                }
            }
            return Ok(());
        }
        // everything that has been allocated and is in the buffer; all of the buffer for runtimes
        // that are asked to read one
        let open = if R::GPU { self.m.hwm.min(len) } else { len };
        let mut starts = vec![(Unbounded, 0)];
        for s in some(len + 1) {
            starts.push((Included(s), s));
            if s > 0 {
                starts.push((Excluded(s - 1), s));
            }
        }
        for (sb, s) in starts {
            let mut ends = vec![(Unbounded, open)];
            for e in some(len + 1).into_iter().filter(|e| *e >= s) {
                ends.push((Excluded(e), e));
                if e > 0 && e - 1 >= s {
                    ends.push((Included(e - 1), e));
                }
            }
            for (eb, e) in ends {
                if e < s {
                    continue;
                }
                let want = &self.m.cur[s..e];
                let x = R::read(a, (sb, eb));
                must!(
                    self,
                    C23 | C22,
                    x.as_deref() == Ok(want),
                    "reading {:?} returned {x:x?} instead of {want:x?}",
                    (sb, eb)
                );
            }
        }
        for (h, m) in self.handles.iter().zip(&self.m.handles) {
            let o = &self.m.objs[m.obj];
            if o.words().end > len || (o.size() == 0 && o.n() > 0) {
                continue;
            }
            let want: Vec<Vec<u32>> = if o.size() == 0 {
                vec![]
            } else {
                self.m.cur[o.words()].chunks(o.shape.isz).map(|c| c.to_vec()).collect()
            };
            if let Some(x) = read_typed(a, &**h) {
                must!(self, C23, x.as_ref() == Ok(&want), "reading the array of the value with id {} returned {x:x?} instead of {want:x?}", o.uid);
            }
        }
        self.note(|_| "read".into());
        Ok(())
    }

    /// Bring the history to an end: commit, drop everything, use all of the space again.
    pub fn finish(mut self, check_all: bool, reverse: bool) -> Res {
        if self.active & C17 != 0 && !self.allocs.is_empty() {
            self.ask(true)?;
        }
        if !self.allocs.is_empty() && check_all {
            self.commit(true, false)?;
            self.observe()?;
            while !self.handles.is_empty() {
                let h = if reverse { self.handles.len() - 1 } else { 0 };
                self.step(Op { k: K::Drp, h: h as u16, i: 0 }, false)?;
            }
            if self.active & C17 != 0 {
                self.ask(true)?;
            }
            self.commit(true, false)?;
            self.observe()?;
            let hwm = self.m.hwm;
            if hwm > 0 {
                let before = self.m.epochs.len();
                let s = Shape { isz: 1, n: Some(hwm) };
                let ws: Vec<Vec<u32>> = (0..hwm).map(|_| self.fresh(1)).collect();
                let x = create(self.alloc(), s, &ws, false, 0, &mut || {});
                let loc = x.loc().unwrap() as usize;
                must!(
                    self,
                    C13 | C14,
                    loc + hwm <= hwm,
                    "after everything was dropped, an array of all {hwm} words of the slab was placed at {loc}"
                );
                self.created(x, s, ws, true)?;
                self.commit(true, false)?;
                self.observe()?;
                must!(self, C13 | C15, self.m.epochs.len() == before, "the buffer grew although everything had been dropped");
                self.step(Op { k: K::Drp, h: 0, i: 0 }, false)?;
            }
        }
        let World { rt, allocs, handles, bufs, active, m, .. } = self;
        // either order of dropping
        if reverse {
            drop(allocs);
            drop(handles);
            drop(bufs);
        } else {
            drop(bufs);
            drop(handles);
            drop(allocs);
        }
        let live = rt.live();
        if active & C21 != 0 && live != 0 {
            return Err(Fail { msg: format!("{live} of {} buffers are never released", m.epochs.len()) });
        }
        Ok(())
    }

    pub fn hash(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let m = &self.m;
        // rename stamps in order of appearance
        let mut names = BTreeMap::new();
        let mut name = |w: u32| {
            if w == 0 {
                return u32::MAX;
            }
            let n = names.len() as u32;
            *names.entry(w >> 9).or_insert(n) << 9 | (w & 511)
        };
        for o in &m.objs {
            if o.owners == 0 && o.freed && m.handles.iter().all(|x| m.objs[x.obj].uid != o.uid) {
                continue;
            }
            (o.loc, o.shape, o.owners, o.cpu_owners, o.freed, o.spoiled, o.maybe.len(), &o.dirty).hash(&mut h);
            for w in o.cpu.iter().chain(&o.gpu).flatten() {
                name(*w).hash(&mut h);
            }
        }
        for x in &m.handles {
            (x.obj, x.kind).hash(&mut h);
        }
        for w in &m.cur {
            name(*w).hash(&mut h);
        }
        let last = m.epochs.len();
        for b in &m.bufs {
            (last - b).hash(&mut h);
        }
        (m.hwm, &m.free, m.unfit, self.allocs.len(), self.now, m.epochs.is_empty(), m.allowed.len(), m.required.len()).hash(&mut h);
        h.finish()
    }
}
