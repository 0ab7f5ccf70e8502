//! The kinds of slab, and the item types behind one interface.
use crate::items::*;
use crabslab::*;
use std::marker::PhantomData;

/// A growable slab that somebody else might write: it never grows on its own.
pub struct Strict {
    words: Vec<u32>,
    cap: usize,
}

impl Slab for Strict {
    fn len(&self) -> usize {
        self.words.len()
    }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T {
        self.words[..].read_unchecked(id)
    }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
        self.words[..].write_indexed(t, index)
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
        self.words[..].write_indexed_slice(t, index)
    }
}

impl GrowableSlab for Strict {
    fn capacity(&self) -> usize {
        self.cap
    }
    fn reserve_capacity(&mut self, capacity: usize) {
        self.cap = self.cap.max(capacity);
    }
    fn increment_len(&mut self, n: usize) -> usize {
        let i = self.words.len();
        self.words.resize(i + n, 0);
        self.cap = self.cap.max(i + n);
        i
    }
}

pub enum AnySlab {
    Slice(Vec<u32>),
    Vec(Vec<u32>),
    Cpu(CpuSlab<Vec<u32>>),
    CpuStrict(CpuSlab<Strict>),
}

pub const KINDS: [&str; 4] = ["[u32]", "Vec<u32>", "CpuSlab<Vec<u32>>", "CpuSlab<user-defined>"];
/// Those of crabslab itself.
pub const OWN: u64 = 3;

macro_rules! on {
    ($self:expr, $s:ident => $e:expr) => {
        match $self {
            AnySlab::Slice(v) => {
                let $s = &v[..];
                $e
            }
            AnySlab::Vec($s) => $e,
            AnySlab::Cpu($s) => $e,
            AnySlab::CpuStrict($s) => $e,
        }
    };
}
macro_rules! on_mut {
    ($self:expr, $s:ident => $e:expr) => {
        match $self {
            AnySlab::Slice(v) => {
                let $s = &mut v[..];
                $e
            }
            AnySlab::Vec($s) => $e,
            AnySlab::Cpu($s) => $e,
            AnySlab::CpuStrict($s) => $e,
        }
    };
}
macro_rules! on_grow {
    ($self:expr, $s:ident => $e:expr) => {
        match $self {
            AnySlab::Slice(_) => unreachable!(),
            AnySlab::Vec($s) => $e,
            AnySlab::Cpu($s) => $e,
            AnySlab::CpuStrict($s) => $e,
        }
    };
}

impl AnySlab {
    pub fn new(kind: u64, words: Vec<u32>) -> Self {
        match kind {
            0 => AnySlab::Slice(words),
            1 => AnySlab::Vec(words),
            2 => AnySlab::Cpu(CpuSlab::new(words)),
            _ => AnySlab::CpuStrict(CpuSlab::new(Strict { cap: words.capacity(), words })),
        }
    }
    pub fn words(&self) -> &[u32] {
        match self {
            AnySlab::Slice(v) | AnySlab::Vec(v) => v,
            AnySlab::Cpu(c) => c.as_ref(),
            AnySlab::CpuStrict(s) => &s.as_ref().words,
        }
    }
    /// What the slab itself says its length is.
    pub fn len(&self) -> usize {
        on!(self, s => Slab::len(s))
    }
    pub fn is_empty(&self) -> bool {
        on!(self, s => Slab::is_empty(s))
    }
    pub fn capacity(&self) -> usize {
        on_grow!(self, s => GrowableSlab::capacity(s))
    }
    pub fn reserve(&mut self, n: usize) {
        on_grow!(self, s => s.reserve_capacity(n))
    }
    pub fn increment(&mut self, n: usize) -> usize {
        on_grow!(self, s => s.increment_len(n))
    }
}

/// An item type with its values, the first few of which are for combinations.
pub struct Imp<T> {
    vals: Vec<T>,
    few: usize,
}

pub trait Ty: Send + Sync {
    fn name(&self) -> String;
    fn size(&self) -> usize;
    fn few(&self) -> usize;
    fn many(&self) -> usize;
    fn value(&self, v: usize) -> String;
    fn write_slab(&self, s: &mut [u32], i: usize, v: usize) -> usize;
    fn write_indexed(&self, s: &mut AnySlab, i: usize, v: usize) -> usize;
    fn write(&self, s: &mut AnySlab, id: u32, v: usize);
    fn write_slice(&self, s: &mut AnySlab, i: usize, v: &[usize]) -> usize;
    fn write_array(&self, s: &mut AnySlab, i: u32, n: u32, v: &[usize]);
    fn contains(&self, s: &AnySlab, id: u32) -> bool;
    /// The checked and the unchecked read give this value.
    fn reads(&self, s: &AnySlab, id: u32, v: usize) -> Result<(), String>;
    /// The checked read gives the default.
    fn reads_default(&self, s: &AnySlab, id: u32) -> Result<(), String>;
    /// The checked read gives what is in these words.
    fn reads_words(&self, s: &AnySlab, id: u32, words: &[u32], i: usize) -> Result<(), String>;
    /// The same from two places.
    fn same_at(&self, a: &[u32], i: usize, b: &[u32], j: usize) -> Result<(), String>;
    /// Whatever is in there, it decodes.
    fn decodes(&self, words: &[u32]) -> Result<(), String>;
    /// Everything there is about an array handle.
    fn array(&self, words: &[u32], i: u32, n: u32) -> Result<(), String>;
    /// The vector read element by element.
    fn read_vec(&self, s: &AnySlab, i: u32, n: u32) -> Result<(), String>;
    fn append(&self, s: &mut AnySlab, v: usize) -> u32;
    fn append_array(&self, s: &mut AnySlab, v: &[usize]) -> (u32, u32);
    fn allocate(&self, s: &mut AnySlab) -> u32;
    fn allocate_array(&self, s: &mut AnySlab, n: usize) -> (u32, u32);
    fn expand(&self, s: &mut AnySlab, n: usize);
    fn outcome(&self, words: &[u32]) -> String;
}

impl<T: Item> Imp<T> {
    fn pick(&self, v: &[usize]) -> Vec<T> {
        v.iter().map(|i| self.vals[i % self.vals.len()].clone()).collect()
    }
}

fn same<T: Item>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got.same(want) {
        Ok(())
    } else {
        Err(format!("{what} {got:?} instead of {want:?}"))
    }
}

impl<T: Item> Ty for Imp<T> {
    fn name(&self) -> String {
        let mut n = std::any::type_name::<T>().to_string();
        for p in ["core::marker::", "core::option::", "crabslab::array::", "crabslab::id::", "inputs::items::", "inputs_noglam::items::", "glam::f32::sse2::vec4::", "glam::"] {
            n = n.replace(p, "");
        }
        n
    }
    fn size(&self) -> usize {
        T::SLAB_SIZE
    }
    fn few(&self) -> usize {
        self.few
    }
    fn many(&self) -> usize {
        self.vals.len()
    }
    fn value(&self, v: usize) -> String {
        format!("{:?}", self.vals[v % self.vals.len()])
    }
    fn write_slab(&self, s: &mut [u32], i: usize, v: usize) -> usize {
        self.vals[v].write_slab(i, s)
    }
    fn write_indexed(&self, s: &mut AnySlab, i: usize, v: usize) -> usize {
        on_mut!(s, s => s.write_indexed(&self.vals[v], i))
    }
    fn write(&self, s: &mut AnySlab, id: u32, v: usize) {
        on_mut!(s, s => s.write(Id::new(id), &self.vals[v]))
    }
    fn write_slice(&self, s: &mut AnySlab, i: usize, v: &[usize]) -> usize {
        let d = self.pick(v);
        on_mut!(s, s => s.write_indexed_slice(&d, i))
    }
    fn write_array(&self, s: &mut AnySlab, i: u32, n: u32, v: &[usize]) {
        let d = self.pick(v);
        on_mut!(s, s => s.write_array(Array::new(i, n), &d))
    }
    fn contains(&self, s: &AnySlab, id: u32) -> bool {
        on!(s, s => Slab::contains(s, Id::<T>::new(id)))
    }
    fn reads(&self, s: &AnySlab, id: u32, v: usize) -> Result<(), String> {
        let got: T = on!(s, s => s.read(Id::new(id)));
        same("read gives", &got, &self.vals[v])?;
        let got: T = on!(s, s => s.read_unchecked(Id::new(id)));
        same("read_unchecked gives", &got, &self.vals[v])?;
        let mut t = T::default();
        on!(s, s => s.read_into_if_some(Id::new(id), &mut t));
        same("read_into_if_some gives", &t, &self.vals[v])
    }
    fn reads_default(&self, s: &AnySlab, id: u32) -> Result<(), String> {
        let got: T = on!(s, s => s.read(Id::new(id)));
        same("read out of bounds gives", &got, &T::default())
    }
    fn reads_words(&self, s: &AnySlab, id: u32, words: &[u32], i: usize) -> Result<(), String> {
        let got: T = on!(s, s => s.read(Id::new(id)));
        same("read gives", &got, &T::read_slab(i, words))
    }
    fn same_at(&self, a: &[u32], i: usize, b: &[u32], j: usize) -> Result<(), String> {
        same("read gives", &T::read_slab(i, a), &T::read_slab(j, b))
    }
    fn decodes(&self, words: &[u32]) -> Result<(), String> {
        let v = T::read_slab(0, words);
        if let Expect::Is(e) = T::expect(words) {
            same("decodes to", &v, &e)?;
        }
        for bg in [0u32, !0, 1] {
            let mut w = vec![bg; T::SLAB_SIZE + 2];
            v.write_slab(1, &mut w);
            same("after writing the decoded value and reading it, it is", &T::read_slab(1, &w), &v)?;
        }
        Ok(())
    }
    fn array(&self, words: &[u32], i: u32, n: u32) -> Result<(), String> {
        let a = Array::<T>::new(i, n);
        let fail = |m: String| Err(m);
        if a.len() != n as usize || a.is_empty() != (n == 0) || a.starting_index() != i as usize {
            return fail(format!("len {} is_empty {} starting_index {}", a.len(), a.is_empty(), a.starting_index()));
        }
        if a.is_null() != (i == u32::MAX) {
            return fail(format!("is_null {}", a.is_null()));
        }
        let want: Vec<u32> = (0..n).map(|k| i + k * T::SLAB_SIZE as u32).collect();
        for k in 0..n as usize {
            if k % 8192 == 0 {
                crate::tick();
            }
            if a.at(k).inner() != want[k] {
                return fail(format!("at({k}) is {:?} instead of {}", a.at(k), want[k]));
            }
        }
        for k in [n as usize, n as usize + 1, n as usize + 7, u32::MAX as usize - 1, u32::MAX as usize, 1 << 32, usize::MAX / 2, usize::MAX] {
            if k >= n as usize && !a.at(k).is_none() {
                return fail(format!("at({k}) past the end is {:?}", a.at(k)));
            }
        }
        let it: Vec<u32> = a.iter().map(|x| x.inner()).collect();
        if it != want {
            let k = it.iter().zip(&want).position(|(a, b)| a != b);
            return fail(format!("iteration yields {} ids instead of {}, the first that differs is {k:?}", it.len(), want.len()));
        }
        // an iterator that has been copied part of the way, and one that has ended
        let mut x = a.iter();
        let _ = x.next();
        let y = x.clone();
        if x.map(|x| x.inner()).ne(want.iter().skip(1).copied()) || y.count() != want.len().saturating_sub(1) {
            return fail("a copied iterator does not go on where the original was".into());
        }
        let mut x = a.iter();
        for _ in 0..n {
            let _ = x.next();
        }
        if x.next().is_some() || x.next().is_some() {
            return fail("an iterator goes on past the end".into());
        }
        // the other ways to advance one
        let places: Vec<usize> = if n <= 16 { (0..n as usize + 2).collect() } else { vec![0, 1, 255, 256, n as usize - 1, n as usize] };
        for k in places {
            let mut x = a.iter();
            if x.nth(k).map(|x| x.inner()) != want.get(k).copied() || x.next().map(|x| x.inner()) != want.get(k + 1).copied() {
                return fail(format!("nth({k}) does not yield item {k}, or the next one not the one after it"));
            }
            // what is left after a jump, also after one past the end
            for before in [0, 1] {
                let mut x = a.iter();
                for _ in 0..before {
                    let _ = x.next();
                }
                let _ = x.nth(k);
                let left = want.len().saturating_sub(before + k + 1);
                let (lo, hi) = x.size_hint();
                if lo > left || hi.is_some_and(|h| h < left) {
                    return fail(format!("after {before} items and nth({k}) the size hint is {lo} to {hi:?}, {left} are left"));
                }
                let y = x.clone();
                if x.map(|x| x.inner()).ne(want.iter().skip(before + k + 1).copied()) || y.count() != left {
                    return fail(format!("after {before} items and nth({k}) other items are left"));
                }
            }
            let mut x = a.iter();
            for _ in 0..k {
                let _ = x.next();
            }
            let left = want.len().saturating_sub(k);
            let (lo, hi) = x.size_hint();
            if lo > left || hi.is_some_and(|h| h < left) {
                return fail(format!("after {k} items the size hint is {lo} to {hi:?}, {left} are left"));
            }
            if x.clone().count() != left || x.clone().last().map(|x| x.inner()) != want.get(k..).and_then(|w| w.last().copied()) {
                return fail(format!("after {k} items count or last are wrong"));
            }
            if x.clone().skip(1).map(|x| x.inner()).ne(want.iter().skip(k + 1).copied()) || x.clone().step_by(3).map(|x| x.inner()).ne(want.iter().skip(k).step_by(3).copied()) {
                return fail(format!("after {k} items skipping goes wrong"));
            }
            if x.fold(0u64, |s, x| s.wrapping_mul(31).wrapping_add(x.inner() as u64)) != want.iter().skip(k).fold(0u64, |s, x| s.wrapping_mul(31).wrapping_add(*x as u64)) {
                return fail(format!("after {k} items folding goes wrong"));
            }
        }
        let u = a.into_u32_array();
        if u.len() != n as usize * T::SLAB_SIZE || (u.index != i) {
            return fail(format!("as words it is {u:?}"));
        }
        if !words.is_empty() || n == 0 {
            let s = a.sub_slab(words);
            let want: &[u32] = if u.is_empty() { &[] } else { &words[i as usize..i as usize + u.len()] };
            if s != want {
                return fail(format!("the sub slab is {s:?} instead of {want:?}"));
            }
        }
        let c = a;
        if c != a || a != Array::new(i, n) || a == Array::new(i, n + 1) || (i != u32::MAX && a == Array::new(i + 1, n)) {
            return fail("it doesn't compare as its index and length do".into());
        }
        let id = Id::<T>::new(i);
        let one = Array::from(id);
        if one.index != i || one.len != 1 {
            return fail(format!("the array of one id is {one:?}"));
        }
        Ok(())
    }
    fn read_vec(&self, s: &AnySlab, i: u32, n: u32) -> Result<(), String> {
        let v: Vec<T> = on!(s, s => s.read_vec(Array::<T>::new(i, n)));
        if v.len() != n as usize {
            return Err(format!("the vector has {} items", v.len()));
        }
        let w = s.words();
        for (k, got) in v.iter().enumerate() {
            let at = i as usize + k * T::SLAB_SIZE;
            let want = if at + T::SLAB_SIZE <= w.len() { T::read_slab(at, w) } else { T::default() };
            same(&format!("item {k} of the vector is"), got, &want)?;
        }
        Ok(())
    }
    fn append(&self, s: &mut AnySlab, v: usize) -> u32 {
        on_grow!(s, s => GrowableSlab::append(s, &self.vals[v]).inner())
    }
    fn append_array(&self, s: &mut AnySlab, v: &[usize]) -> (u32, u32) {
        let d = self.pick(v);
        let a = on_grow!(s, s => s.append_array(&d));
        (a.index, a.len)
    }
    fn allocate(&self, s: &mut AnySlab) -> u32 {
        on_grow!(s, s => s.allocate::<T>().inner())
    }
    fn allocate_array(&self, s: &mut AnySlab, n: usize) -> (u32, u32) {
        let a = on_grow!(s, s => s.allocate_array::<T>(n));
        (a.index, a.len)
    }
    fn expand(&self, s: &mut AnySlab, n: usize) {
        on_grow!(s, s => s.maybe_expand_to_fit::<T>(n))
    }
    fn outcome(&self, words: &[u32]) -> String {
        let v = T::read_slab(0, words);
        let mut w = vec![7; T::SLAB_SIZE];
        let n = v.write_slab(0, &mut w);
        format!("{v:?} {w:?} {n}").replace("inputs_noglam::", "inputs::")
    }
}

fn imp<T: Item>() -> Box<dyn Ty> {
    let mut vals = T::values(false);
    let few = vals.len();
    vals.extend(T::values(true));
    Box::new(Imp { vals, few })
}

pub fn all_types() -> Vec<Box<dyn Ty>> {
    let mut v = vec![];
    macro_rules! push {
        ($t:ty) => {
            v.push(imp::<$t>())
        };
    }
    crate::for_all_items!(push);
    crate::for_all_glam!(push);
    v
}

/// For the outcomes that are compared between configurations.
pub fn common_types() -> Vec<Box<dyn Ty>> {
    let mut v = vec![];
    macro_rules! push {
        ($t:ty) => {
            v.push(imp::<$t>())
        };
    }
    crate::for_all_items!(push);
    v
}
