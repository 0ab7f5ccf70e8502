//! The closed list of item types, the values tried for each, and what arbitrary words must decode to.
use crabslab::{Array, Id, SlabItem};
use std::fmt::Debug;
use std::marker::PhantomData;

/// How much is said about what some words decode to.
pub enum Expect<T> {
    /// Exactly this.
    Is(T),
    /// Anything valid.
    Any,
}
use Expect::*;

pub trait Item: SlabItem + Default + Clone + Debug + Send + Sync {
    /// The values tried: many, or a few for use inside of other items.
    fn values(many: bool) -> Vec<Self>;
    /// Equality bit for bit.
    fn same(&self, other: &Self) -> bool;
    /// What `words` (exactly as many as the item has) must decode to.
    fn expect(_words: &[u32]) -> Expect<Self> {
        Any
    }
}

/// All combinations if there are not too many, otherwise every one at a time around a few bases.
pub fn combos(sizes: &[usize], limit: usize) -> Vec<Vec<usize>> {
    let product = sizes.iter().fold(1usize, |a, b| a.saturating_mul(*b));
    let mut out = vec![];
    if product <= limit {
        let mut v = vec![0; sizes.len()];
        loop {
            out.push(v.clone());
            let mut i = 0;
            loop {
                if i == v.len() {
                    return out;
                }
                v[i] += 1;
                if v[i] < sizes[i] {
                    break;
                }
                v[i] = 0;
                i += 1;
            }
        }
    }
    for base in 0..3 {
        let b: Vec<usize> = sizes.iter().enumerate().map(|(i, n)| (i * (base + 1) + base) % n).collect();
        out.push(b.clone());
        for i in 0..sizes.len() {
            for v in 0..sizes[i] {
                let mut c = b.clone();
                c[i] = v;
                out.push(c);
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn limit(many: bool) -> usize {
    if many {
        1500
    } else {
        30
    }
}

macro_rules! narrow {
    ($($t:ty),*) => {$(
        impl Item for $t {
            fn values(many: bool) -> Vec<Self> {
                if many {
                    (<$t>::MIN..=<$t>::MAX).collect()
                } else {
                    vec![0 as $t, 1, <$t>::MIN, <$t>::MAX, <$t>::MAX / 2 + 1, 0x5a]
                }
            }
            fn same(&self, o: &Self) -> bool { self == o }
            fn expect(w: &[u32]) -> Expect<Self> { Is(w[0] as $t) }
        }
    )*};
}
narrow!(u8, i8, u16, i16);

macro_rules! wide {
    ($t:ty, $bits:expr, $expect:expr) => {
        impl Item for $t {
            fn values(many: bool) -> Vec<Self> {
                let mut v = vec![0 as $t, 1, <$t>::MIN, <$t>::MAX];
                // every byte different
                let mut m: $t = 0;
                for i in 0..$bits / 8 {
                    m |= (0x11 + 0x0d * i as $t) << (8 * i);
                }
                v.push(m);
                v.push(!m);
                if many {
                    for b in 0..$bits {
                        v.push((1 as $t) << b);
                        v.push(!((1 as $t) << b));
                        v.push(<$t>::MAX >> b);
                        v.push(<$t>::MIN >> b);
                        v.push(m.rotate_left(b as u32));
                    }
                }
                v
            }
            fn same(&self, o: &Self) -> bool { self == o }
            fn expect(w: &[u32]) -> Expect<Self> {
                let f: fn(&[u32]) -> Expect<Self> = $expect;
                f(w)
            }
        }
    };
}
wide!(u32, 32, |w| Is(w[0]));
wide!(i32, 32, |_| Any);
wide!(u64, 64, |_| Any);
wide!(i64, 64, |_| Any);
wide!(u128, 128, |_| Any);
wide!(i128, 128, |_| Any);

pub const F32S: [u32; 16] = [
    0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffc1_2345, 0xff80_0001, 0x7fff_ffff, 0xffff_ffff,
    1, 0x807f_ffff, 0x7f7f_ffff, 0x0080_0000,
];

impl Item for f32 {
    fn values(many: bool) -> Vec<Self> {
        if many {
            let mut v: Vec<u32> = F32S.to_vec();
            v.extend(u32::values(true));
            v.into_iter().map(f32::from_bits).collect()
        } else {
            [1u32, 0x8000_0000, 0xff80_0001, 0x7fc1_2345, 0x4048_f5c3].into_iter().map(f32::from_bits).collect()
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}

impl Item for f64 {
    fn values(many: bool) -> Vec<Self> {
        let mut v: Vec<u64> = vec![0x8000_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff8_1234_5678_9abc, 0x7ff0_0000_0000_0000, 0x4009_21fb_5444_2d18];
        if many {
            v.extend(u64::values(true));
        }
        v.into_iter().map(f64::from_bits).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}

impl Item for bool {
    fn values(_: bool) -> Vec<Self> {
        vec![false, true]
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn expect(w: &[u32]) -> Expect<Self> {
        Is(w[0] == 1)
    }
}

impl<T: SlabItem + Send + Sync> Item for Id<T> {
    fn values(many: bool) -> Vec<Self> {
        u32::values(many).into_iter().map(Id::new).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.inner() == o.inner()
    }
}

impl<T: SlabItem + Send + Sync> Item for Array<T> {
    fn values(many: bool) -> Vec<Self> {
        let u = u32::values(many);
        let n = u.len();
        let mut v: Vec<Self> = (0..n).map(|i| Array::new(u[i], u[(i * 7 + 1) % n])).collect();
        v.push(Array::NONE);
        v
    }
    fn same(&self, o: &Self) -> bool {
        self.index == o.index && self.len == o.len
    }
}

impl<T: Item> Item for Option<T> {
    fn values(many: bool) -> Vec<Self> {
        let mut v = vec![None];
        v.extend(T::values(many).into_iter().map(Some));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn expect(w: &[u32]) -> Expect<Self> {
        if w[0] != 1 {
            return Is(None);
        }
        match T::expect(&w[1..]) {
            Is(t) => Is(Some(t)),
            // what the payload decodes to when it is alone
            Any => Is(Some(T::read_slab(0, &w[1..]))),
        }
    }
}

impl<T: Item + Copy, const N: usize> Item for [T; N]
where
    [T; N]: Default,
{
    fn values(many: bool) -> Vec<Self> {
        let d = T::values(false);
        let c = combos(&vec![d.len(); N], limit(many));
        let mut out: Vec<Self> = c.into_iter().map(|c| std::array::from_fn(|i| d[c[i]])).collect();
        if many && N > 0 && N < 3 {
            // every value of the element in every place
            let m = T::values(true);
            for x in m.iter().take(2000) {
                for j in 0..N {
                    let mut a: Self = std::array::from_fn(|i| d[(i + 1) % d.len()]);
                    a[j] = *x;
                    out.push(a);
                }
            }
        }
        out
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
}

impl<T: std::any::Any + Send + Sync> Item for PhantomData<T> {
    fn values(_: bool) -> Vec<Self> {
        vec![PhantomData]
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}

macro_rules! tuples {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Item),*> Item for ($($t,)*) {
            fn values(many: bool) -> Vec<Self> {
                let d = ($($t::values(false),)*);
                let c = combos(&[$(d.$i.len()),*], limit(many));
                c.into_iter().map(|c| ($(d.$i[c[$i]].clone(),)*)).collect()
            }
            fn same(&self, o: &Self) -> bool {
                true $(&& self.$i.same(&o.$i))*
            }
        }
    };
}
tuples!(A 0);
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, D 3);
tuples!(A 0, B 1, C 2, D 3, E 4);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

#[cfg(feature = "glam")]
mod g {
    use super::*;
    use glam::*;
    macro_rules! vecs {
        ($($t:ty, $e:ty, $n:expr, $new:expr, $to:expr);* $(;)?) => {$(
            impl Item for $t {
                fn values(many: bool) -> Vec<Self> {
                    let f: fn([$e; $n]) -> $t = $new;
                    <[$e; $n]>::values(many).into_iter().map(f).collect()
                }
                fn same(&self, o: &Self) -> bool {
                    let f: fn(&$t) -> [$e; $n] = $to;
                    f(self).same(&f(o))
                }
            }
        )*};
    }
    vecs! {
        Vec2, f32, 2, Vec2::from_array, |v| v.to_array();
        Vec3, f32, 3, Vec3::from_array, |v| v.to_array();
        Vec4, f32, 4, Vec4::from_array, |v| v.to_array();
        Quat, f32, 4, Quat::from_array, |v| v.to_array();
        UVec2, u32, 2, UVec2::from_array, |v| v.to_array();
        UVec3, u32, 3, UVec3::from_array, |v| v.to_array();
        UVec4, u32, 4, UVec4::from_array, |v| v.to_array();
        Mat4, f32, 16, |a| Mat4::from_cols_array(&a), |m| m.to_cols_array();
    }
}

// ---- derived items

#[derive(Clone, Copy, Debug, SlabItem)]
pub struct Rec {
    pub a: u8,
    pub b: u64,
    pub c: bool,
}
/// A default that zeroes do not decode to.
impl Default for Rec {
    fn default() -> Self {
        Rec { a: 42, b: 43 << 32, c: true }
    }
}
impl Item for Rec {
    fn values(many: bool) -> Vec<Self> {
        <(u8, u64, bool)>::values(many).into_iter().map(|(a, b, c)| Rec { a, b, c }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b && self.c == o.c
    }
    fn expect(w: &[u32]) -> Expect<Self> {
        Is(Rec { a: w[0] as u8, b: u64::read_slab(0, &w[1..3]), c: w[3] == 1 })
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]
pub struct Unit;
impl Item for Unit {
    fn values(_: bool) -> Vec<Self> {
        vec![Unit]
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}

#[derive(Clone, Copy, Debug, Default, SlabItem)]
pub struct Pair<A, B>(pub A, pub B);
impl<A: Item, B: Item> Item for Pair<A, B> {
    fn values(many: bool) -> Vec<Self> {
        <(A, B)>::values(many).into_iter().map(|(a, b)| Pair(a, b)).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
    fn expect(w: &[u32]) -> Expect<Self> {
        match (A::expect(&w[..A::SLAB_SIZE]), B::expect(&w[A::SLAB_SIZE..])) {
            (Is(a), Is(b)) => Is(Pair(a, b)),
            _ => Any,
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]
pub enum Small {
    A,
    #[default]
    B,
    C(u8),
}
impl Item for Small {
    fn values(many: bool) -> Vec<Self> {
        let mut v = vec![Small::A, Small::B];
        v.extend(u8::values(many).into_iter().map(Small::C));
        v
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn expect(w: &[u32]) -> Expect<Self> {
        Is(match w[0] {
            0 => Small::A,
            1 => Small::B,
            2 => Small::C(w[1] as u8),
            _ => Small::B,
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, SlabItem)]
pub enum Big {
    First(u32, u64),
    Second,
    Third { x: bool, y: Option<u16>, z: i8 },
    Fourth(Small),
    Fifth([u16; 2]),
}
/// A default with a payload.
impl Default for Big {
    fn default() -> Self {
        Big::Fifth([7, 8])
    }
}
impl Item for Big {
    fn values(many: bool) -> Vec<Self> {
        let mut v = vec![Big::Second];
        v.extend(<(u32, u64)>::values(many).into_iter().map(|(a, b)| Big::First(a, b)));
        v.extend(<(bool, Option<u16>, i8)>::values(many).into_iter().map(|(x, y, z)| Big::Third { x, y, z }));
        v.extend(Small::values(false).into_iter().map(Big::Fourth));
        v.extend(<[u16; 2]>::values(false).into_iter().map(Big::Fifth));
        v
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn expect(w: &[u32]) -> Expect<Self> {
        Is(match w[0] {
            0 => Big::First(w[1], u64::read_slab(0, &w[2..4])),
            1 => Big::Second,
            2 => Big::Third { x: w[1] == 1, y: (w[2] == 1).then_some(w[3] as u16), z: w[4] as i8 },
            3 => match Small::expect(&w[1..3]) {
                Is(s) => Big::Fourth(s),
                Any => return Any,
            },
            4 => Big::Fifth(<[u16; 2]>::read_slab(0, &w[1..3])),
            _ => Big::Fifth([7, 8]),
        })
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]
pub enum Flags {
    Zero,
    One,
    Two,
    #[default]
    Three,
}
impl Item for Flags {
    fn values(_: bool) -> Vec<Self> {
        vec![Flags::Zero, Flags::One, Flags::Two, Flags::Three]
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn expect(w: &[u32]) -> Expect<Self> {
        Is(match w[0] {
            0 => Flags::Zero,
            1 => Flags::One,
            2 => Flags::Two,
            _ => Flags::Three,
        })
    }
}

/// Calls `$m!(type)` for every item type.
#[macro_export]
macro_rules! for_all_items {
    ($m:ident) => {
        $m!(u32);
        $m!(u8);
        $m!(i8);
        $m!(u16);
        $m!(i16);
        $m!(i32);
        $m!(u64);
        $m!(i64);
        $m!(u128);
        $m!(i128);
        $m!(f32);
        $m!(f64);
        $m!(bool);
        $m!(Id<u32>);
        $m!(Id<Big>);
        $m!(Array<u32>);
        $m!(Array<Rec>);
        $m!(PhantomData<u64>);
        $m!(Unit);
        $m!(Option<u32>);
        $m!(Option<bool>);
        $m!(Option<u64>);
        $m!(Option<Id<u32>>);
        $m!(Option<Option<u8>>);
        $m!(Option<PhantomData<u8>>);
        $m!(Option<Rec>);
        $m!(Option<Small>);
        $m!(Option<(u8, f64)>);
        $m!([u32; 0]);
        $m!([u32; 1]);
        $m!([u8; 3]);
        $m!([i16; 2]);
        $m!([u64; 3]);
        $m!([Option<u16>; 3]);
        $m!([[f32; 2]; 2]);
        $m!([Small; 2]);
        $m!([bool; 5]);
        $m!([(u8, u64); 2]);
        $m!([Unit; 4]);
        $m!((u32,));
        $m!((u8, u64));
        $m!((i128, bool, u16));
        $m!((f32, f64, i8, Id<u32>));
        $m!((u8, i8, u16, i16, u32));
        $m!((u64, bool, Option<u32>, f32, i64, u8));
        $m!((u8, u8, u8, u8, u8, u8, u8));
        $m!((bool, u32, u32, u32, u32, u32, u64, u32));
        $m!((u32, u32, u32, u32, u32, u32, u32, u32, i16));
        $m!((u8, u16, u32, u64, u128, i8, i16, i32, i64, i128));
        $m!((u32, bool, u32, bool, u32, bool, u32, bool, u32, bool, u32));
        $m!((u8, i64, bool, f32, u16, f64, Id<u32>, i8, u32, Unit, i16, u64));
        $m!(((u8, bool), [u16; 2], Option<(u32, u64)>));
        $m!((Array<u32>, PhantomData<u32>, Small));
        $m!(Rec);
        $m!(Small);
        $m!(Flags);
        $m!(Big);
        $m!(Option<Big>);
        $m!([Big; 2]);
        $m!(Pair<u8, u64>);
        $m!(Pair<Option<Rec>, Flags>);
        $m!(Pair<Unit, Big>);
        $m!(Pair<[Flags; 3], bool>);
    };
}

#[cfg(feature = "glam")]
#[macro_export]
macro_rules! for_all_glam {
    ($m:ident) => {
        $m!(glam::Vec2);
        $m!(glam::Vec3);
        $m!(glam::Vec4);
        $m!(glam::Quat);
        $m!(glam::UVec2);
        $m!(glam::UVec3);
        $m!(glam::UVec4);
        $m!(glam::Mat4);
        $m!(Option<glam::Vec3>);
        $m!([glam::UVec2; 2]);
        $m!((glam::Vec2, u8, glam::Quat));
        $m!(Pair<glam::Vec4, glam::Mat4>);
    };
}
#[cfg(not(feature = "glam"))]
#[macro_export]
macro_rules! for_all_glam {
    ($m:ident) => {};
}
