//! Every combination of special words in values made of words, and tuples of every shape.
use crate::items::{Item, Unit};
use crate::{hash, step, steps, Case, Family, Sink};
use crabslab::*;

/// Words that are special to some type: integers, floats, units, nearly units.
pub const SPECIAL: [u32; 27] = [
    0, 1, 2, 0xff, 0x8000, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, // integers, -0.0, NaNs
    0x3f80_0000, 0xbf80_0000, 0x3f80_0001, 0x3f7f_ffff, 0x3f7f_fff0, // 1.0, -1.0, nearly 1.0
    0x3f00_0000, 0x3f35_04f3, 0xbf35_04f3, 0x3f19_999a, 0x3f4c_cccd, // 0.5, sqrt(0.5), 0.6, 0.8
    0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, // infinities, NaNs
    0x0080_0000, 0x4f00_0000, // the least normal float, 2^31
];

/// A type all of whose words can be anything.
struct Wordy {
    name: &'static str,
    words: usize,
    /// how many special words are tried
    of: usize,
    check: fn(&[u32]) -> Result<u64, String>,
}

/// Written to the middle of a slab, a value reads back from there, and alone.
fn check<T: SlabItem>(v: T, words: &dyn Fn(&T) -> Vec<u32>) -> Result<u64, String> {
    let want = words(&v);
    let n = T::SLAB_SIZE;
    let mut seen = 0;
    for bg in [0u32, 0xdead_beef] {
        let mut slab = [bg; 40];
        let end = slab[..].write_indexed(&v, 1);
        if end != 1 + n {
            return Err(format!("writing it at 1 returns {end}, it has {n} words"));
        }
        if slab[0] != bg || slab[1 + n..].iter().any(|w| *w != bg) {
            return Err(format!("writing it at 1 leaves {:x?}", &slab[..n + 3]));
        }
        let r: T = slab[..].read_unchecked(Id::new(1));
        let got = words(&r);
        if got != want {
            return Err(format!("words {want:x?} read back as {got:x?}"));
        }
        seen = hash(&&slab[..n + 2]);
    }
    Ok(seen)
}

macro_rules! wordy {
    ($($t:ty, $n:expr, $of:expr, |$w:ident| $make:expr, |$v:ident| $words:expr);* $(;)?) => {
        vec![$(Wordy {
            name: stringify!($t),
            words: $n,
            of: $of,
            check: |$w: &[u32]| check::<$t>($make, &|$v: &$t| $words),
        }),*]
    };
}

fn f(w: u32) -> f32 {
    f32::from_bits(w)
}
fn two(w: &[u32]) -> u64 {
    w[0] as u64 | (w[1] as u64) << 32
}
fn four(w: &[u32]) -> u128 {
    two(w) as u128 | (two(&w[2..]) as u128) << 64
}
fn split(x: u128, n: usize) -> Vec<u32> {
    (0..n).map(|i| (x >> (32 * i)) as u32).collect()
}

fn types() -> Vec<Wordy> {
    let mut v = wordy! {
        u32, 1, 27, |w| w[0], |v| vec![*v];
        i32, 1, 27, |w| w[0] as i32, |v| vec![*v as u32];
        f32, 1, 27, |w| f(w[0]), |v| vec![v.to_bits()];
        Id<u64>, 1, 27, |w| Id::new(w[0]), |v| vec![v.inner()];
        u64, 2, 27, |w| two(w), |v| split(*v as u128, 2);
        i64, 2, 27, |w| two(w) as i64, |v| split(*v as u64 as u128, 2);
        f64, 2, 27, |w| f64::from_bits(two(w)), |v| split(v.to_bits() as u128, 2);
        Array<u64>, 2, 27, |w| Array::new(w[0], w[1]), |v| vec![v.index, v.len];
        u128, 4, 22, |w| four(w), |v| split(*v, 4);
        i128, 4, 22, |w| four(w) as i128, |v| split(*v as u128, 4);
        [f32; 3], 3, 27, |w| [f(w[0]), f(w[1]), f(w[2])], |v| v.iter().map(|x| x.to_bits()).collect();
        (f64, u64), 4, 16, |w| (f64::from_bits(two(w)), two(&w[2..])), |v| [split(v.0.to_bits() as u128, 2), split(v.1 as u128, 2)].concat();
        (Option<u32>, Option<Id<u32>>, Option<f32>), 3, 27, |w| (Some(w[0]), Some(Id::new(w[1])), Some(f(w[2]))),
            |v| vec![v.0.unwrap_or(7777), v.1.map_or(7777, |i| i.inner()), v.2.map_or(7777, |x| x.to_bits())];
    };
    #[cfg(feature = "glam")]
    {
        use glam::*;
        v.extend(wordy! {
            Vec2, 2, 27, |w| Vec2::new(f(w[0]), f(w[1])), |v| v.to_array().iter().map(|x| x.to_bits()).collect();
            Vec3, 3, 27, |w| Vec3::new(f(w[0]), f(w[1]), f(w[2])), |v| v.to_array().iter().map(|x| x.to_bits()).collect();
            Vec4, 4, 27, |w| Vec4::new(f(w[0]), f(w[1]), f(w[2]), f(w[3])), |v| v.to_array().iter().map(|x| x.to_bits()).collect();
            Quat, 4, 27, |w| Quat::from_xyzw(f(w[0]), f(w[1]), f(w[2]), f(w[3])), |v| v.to_array().iter().map(|x| x.to_bits()).collect();
            UVec2, 2, 27, |w| UVec2::new(w[0], w[1]), |v| v.to_array().to_vec();
            UVec3, 3, 27, |w| UVec3::new(w[0], w[1], w[2]), |v| v.to_array().to_vec();
            UVec4, 4, 22, |w| UVec4::new(w[0], w[1], w[2], w[3]), |v| v.to_array().to_vec();
        });
        // matrices: every choice of columns
        v.push(Wordy {
            name: "Mat4",
            words: 4,
            of: COLUMNS.len(),
            check: |w| {
                let c: Vec<f32> = w.iter().flat_map(|k| COLUMNS[SPECIAL.iter().position(|s| s == k).unwrap()]).map(f).collect();
                let m = Mat4::from_cols_slice(&c);
                check(m, &|m: &Mat4| m.to_cols_array().iter().map(|x| x.to_bits()).collect())
            },
        });
    }
    v
}

#[cfg(feature = "glam")]
const COLUMNS: [[u32; 4]; 14] = {
    let (o, l, m, h, s) = (0, 0x3f80_0000, 0xbf80_0000, 0x3f00_0000, 0x3f35_04f3);
    [
        [l, o, o, o],
        [o, l, o, o],
        [o, o, l, o],
        [o, o, o, l],
        [o, o, o, o],
        [0x8000_0000, o, o, o],
        [l, l, l, l],
        [m, o, o, o],
        [s, s, o, o],
        [h, h, h, h],
        [0x3f80_0001, o, o, o],
        [0x7fc0_0000, 0x7f80_0000, 0xff80_0000, 1],
        [0x4120_0000, 0x4130_0000, 0x4140_0000, l],
        [1, 2, 3, 4],
    ]
};

// ---- tuples

struct Tuple {
    name: &'static str,
    check: fn() -> Result<(usize, u64), String>,
}

/// All values, at two indices, on two backgrounds; the size is the sum of the sizes.
fn tuple<T: Item>(size: usize) -> Result<(usize, u64), String> {
    if T::SLAB_SIZE != size {
        return Err(format!("it has {} words, its items have {size}", T::SLAB_SIZE));
    }
    let mut seen = 0;
    let vals = T::values(true);
    for v in &vals {
        for at in [0usize, 3] {
            for bg in [0u32, 0xdead_beef] {
                let mut slab = vec![bg; at + size + 2];
                let end = slab.write_indexed(v, at);
                if end != at + size {
                    return Err(format!("writing {v:?} at {at} returns {end}, it has {size} words"));
                }
                if slab[..at].iter().chain(&slab[at + size..]).any(|w| *w != bg) {
                    return Err(format!("writing {v:?} at {at} touches words around it"));
                }
                let got: T = slab.read(Id::new(at as u32));
                if !got.same(v) {
                    return Err(format!("{v:?} reads back as {got:?}"));
                }
                seen ^= hash(&slab);
            }
        }
    }
    Ok((vals.len() * 4, seen))
}

/// An array's items follow each other.
fn array<T: Item + Copy, const N: usize>() -> Result<(usize, u64), String>
where
    [T; N]: Default,
{
    for v in <[T; N]>::values(false) {
        let mut slab = vec![0u32; N * T::SLAB_SIZE + 1];
        let mut other = slab.clone();
        slab.write_indexed(&v, 0);
        let mut i = 0;
        for x in &v {
            i = other.write_indexed(x, i);
        }
        if slab != other {
            return Err(format!("{v:?} is written as {slab:x?}, its items as {other:x?}"));
        }
    }
    tuple::<[T; N]>(N * T::SLAB_SIZE)
}
macro_rules! array_of {
    ($v:ident, [$($t:ty),*], $n:tt) => {
        $($v.push(Tuple { name: concat!("[", stringify!($t), "; ", stringify!($n), "]"), check: || array::<$t, $n>() });)*
    };
}
macro_rules! arrays {
    ($v:ident, $t:tt, $($n:tt)*) => {
        $(array_of!($v, $t, $n);)*
    };
}

macro_rules! tuple_of {
    ($v:ident, $($t:ty),*) => {
        $v.push(Tuple { name: stringify!(($($t,)*)), check: || tuple::<($($t,)*)>(0 $(+ <$t as SlabItem>::SLAB_SIZE)*) });
    };
}
/// The tuples of a length with one item that differs, at every position.
macro_rules! each_place {
    ($v:ident, $w:ty, [$($before:ty),*], []) => {};
    ($v:ident, $w:ty, [$($before:ty),*], [$x:ty $(, $rest:ty)*]) => {
        tuple_of!($v $(, $before)*, $w $(, $rest)*);
        each_place!($v, $w, [$($before,)* $x], [$($rest),*]);
    };
}
macro_rules! each_length {
    ($v:ident, $w:ty, [$($t:ty),*]) => {
        each_place!($v, $w, [], [$($t),*]);
        each_length!(@next $v, $w, [$($t),*]);
    };
    (@next $v:ident, $w:ty, [$x:ty]) => {};
    (@next $v:ident, $w:ty, [$x:ty $(, $rest:ty)+]) => { each_length!($v, $w, [$($rest),*]); };
}

fn tuples() -> Vec<Tuple> {
    let mut v: Vec<Tuple> = vec![];
    each_length!(v, u64, [u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32]);
    each_length!(v, Unit, [u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32]);
    each_place!(v, bool, [], [u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64]);
    tuple_of!(v, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);
    tuple_of!(v, u8, u64, u8, u64, u8, u64, u8, u64, u8, u64, u8, u64);
    arrays!(v, [u32, u8, i16, f32, bool, u64, Unit, [u32; 3], (u8, u64), Id<u32>], 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    v
}

// ---- families

pub fn c01() -> Vec<Family> {
    let ts: &'static Vec<Wordy> = Box::leak(Box::new(types()));
    let us: &'static Vec<Tuple> = Box::leak(Box::new(tuples()));
    vec![
        Family {
            name: "words",
            bounds: format!("{} types made of one to four arbitrary words (or columns of words), every combination of {} special words, at index 1 of a slab, 2 backgrounds", ts.len(), SPECIAL.len()),
            jobs: ts.iter().enumerate().flat_map(|(t, x)| (0..x.of as u64).map(move |a| vec![t as u64, a])).collect(),
            expand: Box::new(move |job: Case, sink: Sink| {
                let x = &ts[job[0] as usize];
                let mut c = vec![0u64; x.words + 1];
                c[0] = job[0];
                c[1] = job[1];
                loop {
                    sink(&c);
                    let mut i = 2;
                    loop {
                        if i == c.len() {
                            return;
                        }
                        c[i] += 1;
                        if c[i] < x.of as u64 {
                            break;
                        }
                        c[i] = 0;
                        i += 1;
                    }
                }
            }),
            run: Box::new(move |c: Case| {
                let mut w = [0u32; 4];
                for (w, k) in w.iter_mut().zip(&c[1..]) {
                    *w = SPECIAL[*k as usize];
                }
                let h = (ts[c[0] as usize].check)(&w[..c.len() - 1])?;
                if c[1..].iter().all(|k| k % 4 == 3) {
                    step(h);
                }
                steps(4);
                Ok(())
            }),
            text: Box::new(move |c: Case| format!("{} of the words {:x?}", ts[c[0] as usize].name, c[1..].iter().map(|k| SPECIAL[*k as usize]).collect::<Vec<_>>())),
        },
        Family {
            name: "tuples",
            bounds: format!("{} types: tuples of 1 to 12 items one of which, at every position, has more or fewer words than the others, and arrays of 0 to 32 items; up to 1500 values each", us.len()),
            jobs: (0..us.len() as u64).map(|t| vec![t]).collect(),
            expand: Box::new(|job: Case, sink: Sink| sink(job)),
            run: Box::new(move |c: Case| {
                let (n, h) = (us[c[0] as usize].check)()?;
                step(h);
                steps(2 * n as u64);
                Ok(())
            }),
            text: Box::new(move |c: Case| us[c[0] as usize].name.to_string()),
        },
    ]
}
