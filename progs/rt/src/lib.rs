//! Checks of derived items, against layouts calculated here from the words of their fields.
pub use crabslab;
use crabslab::{offset::Offset, Id, Slab, SlabItem};
use std::sync::atomic::{AtomicU64, Ordering};

pub static STEPS: AtomicU64 = AtomicU64::new(0);

/// Values that can be told apart.
pub trait Mk {
    fn mk(k: u32) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => {$( impl Mk for $t { fn mk(k: u32) -> Self { (k as $t).wrapping_mul(0x4f2b_1d37u32 as $t) | 1 } } )*};
}
ints!(u8, u16, u32, i32);
impl Mk for u64 {
    fn mk(k: u32) -> Self {
        (u32::mk(k) as u64) << 32 | u32::mk(k + 77) as u64
    }
}
impl Mk for u128 {
    fn mk(k: u32) -> Self {
        (u64::mk(k) as u128) << 64 | u64::mk(k + 99) as u128
    }
}
impl Mk for f32 {
    fn mk(k: u32) -> Self {
        k as f32 * 1.25
    }
}
impl Mk for bool {
    fn mk(k: u32) -> Self {
        k % 2 == 1
    }
}
impl Mk for () {
    fn mk(_: u32) -> Self {}
}
impl<T> Mk for std::marker::PhantomData<T> {
    fn mk(_: u32) -> Self {
        std::marker::PhantomData
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(k: u32) -> Self {
        if k % 3 == 0 {
            None
        } else {
            Some(T::mk(k))
        }
    }
}
impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(k: u32) -> Self {
        std::array::from_fn(|i| T::mk(k + 1000 * i as u32))
    }
}
impl<A: Mk, B: Mk> Mk for (A, B) {
    fn mk(k: u32) -> Self {
        (A::mk(k), B::mk(k + 500))
    }
}
impl<T> Mk for Id<T> {
    fn mk(k: u32) -> Self {
        Id::new(u32::mk(k))
    }
}
impl<T> Mk for crabslab::Array<T> {
    fn mk(k: u32) -> Self {
        crabslab::Array::new(u32::mk(k), k)
    }
}

pub fn mk<T: Mk>(k: u32) -> T {
    T::mk(k)
}

/// The words of a field on its own, on some background.
pub fn words<T: SlabItem>(t: &T, bg: u32) -> Vec<u32> {
    let mut w = vec![bg; T::SLAB_SIZE];
    t.write_slab(0, &mut w);
    w
}

/// The words of each field.
pub type Fields = Vec<Vec<u32>>;

fn fail(name: &str, what: &str, detail: String) {
    println!("FAIL {name}: {what}: {detail}");
}

/// Checks the layout of a value: `head` words first (the discriminant), then its fields in order,
/// then padding up to `size`.
pub fn layout<T: SlabItem>(name: &str, size: usize, head: &[u32], fields: &dyn Fn(&T, u32) -> Option<Fields>, value: &T) {
    if T::SLAB_SIZE != size {
        return fail(name, "size", format!("SLAB_SIZE is {} instead of {size}", T::SLAB_SIZE));
    }
    for i in 0..3usize {
        for slack in 0..2 {
            for bg in [0u32, !0, 0x5a5a_0001] {
                STEPS.fetch_add(2, Ordering::Relaxed);
                let mut w = vec![bg; i + size + slack];
                let n = value.write_slab(i, &mut w);
                if n != i + size {
                    return fail(name, "write", format!("it returns {n} instead of {}", i + size));
                }
                let Some(f) = fields(value, bg) else {
                    return fail(name, "value", "it is another variant".into());
                };
                let mut want = vec![bg; i];
                want.extend(head);
                for x in &f {
                    want.extend(x);
                }
                want.resize(i + size + slack, bg);
                if w != want {
                    return fail(name, "layout", format!("written at {i} it gives {w:x?} instead of {want:x?}"));
                }
                // and back, in different surroundings
                let mut v = w.clone();
                for x in v[..i].iter_mut() {
                    *x = !*x;
                }
                for x in v[i + size..].iter_mut() {
                    *x = !*x;
                }
                let back = T::read_slab(i, &v);
                match fields(&back, bg) {
                    None => return fail(name, "round trip", "it comes back as another variant".into()),
                    Some(b) if b != f => return fail(name, "round trip", format!("its fields come back as {b:x?} instead of {f:x?}")),
                    _ => {}
                }
                let mut again = vec![bg; i + size + slack];
                back.write_slab(i, &mut again);
                if again != w {
                    return fail(name, "round trip", format!("writing it again gives {again:x?} instead of {w:x?}"));
                }
            }
        }
    }
}

/// Checks the constants of one field of a struct: `at` words from its start.
#[allow(clippy::too_many_arguments)]
pub fn field<T: SlabItem, F: SlabItem>(
    name: &str,
    offset: fn() -> Offset<F, T>,
    size: usize,
    index: usize,
    fields: &dyn Fn(&T, u32) -> Option<Fields>,
    value: &T,
    other: &F,
) {
    let f = fields(value, 0).unwrap();
    let at: usize = f[..index].iter().map(|x| x.len()).sum();
    if offset().offset as usize != at {
        return fail(name, "offset", format!("the offset of field {index} is {} instead of {at}", offset().offset));
    }
    if size != F::SLAB_SIZE || size != f[index].len() {
        return fail(name, "field size", format!("the size of field {index} is {size} instead of {}", f[index].len()));
    }
    for i in 0..3usize {
        STEPS.fetch_add(3, Ordering::Relaxed);
        let mut w = vec![0u32; i + T::SLAB_SIZE + 2];
        value.write_slab(i, &mut w);
        let id = Id::<T>::new(i as u32);
        for fid in [id + offset(), offset() + id] {
            if fid.index() != i + at {
                return fail(name, "offset", format!("added to {i} it gives {fid:?}"));
            }
            let mut x = w.clone();
            let got: F = x[..].read_unchecked(fid);
            if words(&got, 0) != f[index] {
                return fail(name, "field read", format!("field {index} reads as {:x?} instead of {:x?}", words(&got, 0), f[index]));
            }
            x[..].write(fid, other);
            for k in 0..w.len() {
                if x[k] != w[k] && !(i + at..i + at + size).contains(&k) {
                    return fail(name, "field write", format!("writing field {index} changes word {k}"));
                }
            }
            let back: T = x[..].read_unchecked(id);
            let b = fields(&back, 0).unwrap();
            for k in 0..b.len() {
                let want = if k == index { words(other, 0) } else { f[k].clone() };
                if b[k] != want {
                    return fail(name, "field write", format!("after writing field {index}, field {k} is {:x?} instead of {want:x?}", b[k]));
                }
            }
        }
    }
}

/// What words that are no variant of an enum read as.
pub fn unknown<T: SlabItem + Default>(name: &str, variants: u32) {
    let want = words(&T::default(), 0);
    for d in [variants, variants + 1, variants + 255, 1 << 31, 256, !0] {
        if d < variants {
            continue;
        }
        for bg in [0, 1, !0] {
            STEPS.fetch_add(1, Ordering::Relaxed);
            let mut w = vec![bg; T::SLAB_SIZE];
            w[0] = d;
            let got = words(&T::read_slab(0, &w), 0);
            if got != want {
                return fail(name, "unknown variant", format!("discriminant {d:#x} reads as {got:x?} instead of {want:x?}"));
            }
        }
    }
}

pub fn done() {
    println!("STEPS {}", STEPS.load(Ordering::Relaxed));
}

/// Runs the checks of one definition. A panic is a failure of that definition.
pub fn guard(name: &str, f: fn()) {
    if std::panic::catch_unwind(f).is_err() {
        fail(name, "panic", "it panics".into());
    }
}
