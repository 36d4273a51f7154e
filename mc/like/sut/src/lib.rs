//! What the number mapping of every built-in type should be, written down
//! independently of `enum_like`, and a type-erased way to call both.
pub use enum_like::{EnumLike, EnumValues, PackedU16, PackedU8};
use std::num::NonZeroU8;

/// The expected mapping: `make` builds the value with a given number out of
/// plain Rust constructors, `index` gets the number back by looking at it.
pub trait Spec: Copy + 'static {
    fn count() -> u128;
    fn make(i: u128) -> Self;
    fn index(self) -> u128;
    /// Radix of every digit of the number, lowest first.
    fn radix() -> Vec<u128> {
        vec![Self::count()]
    }
}

// ---- built-in types ------------------------------------------------------

impl Spec for () {
    fn count() -> u128 {
        1
    }
    fn make(_: u128) -> Self {}
    fn index(self) -> u128 {
        0
    }
}
impl Spec for bool {
    fn count() -> u128 {
        2
    }
    fn make(i: u128) -> Self {
        [false, true][i as usize]
    }
    fn index(self) -> u128 {
        match self {
            false => 0,
            true => 1,
        }
    }
}
impl<T: Spec> Spec for Option<T> {
    fn count() -> u128 {
        T::count() + 1
    }
    fn make(i: u128) -> Self {
        if i < T::count() {
            Some(T::make(i))
        } else {
            None
        }
    }
    fn index(self) -> u128 {
        self.map_or(T::count(), |x| x.index())
    }
}
impl<T: Spec, S: Spec> Spec for Result<T, S> {
    fn count() -> u128 {
        T::count() + S::count()
    }
    fn make(i: u128) -> Self {
        if i < T::count() {
            Ok(T::make(i))
        } else {
            Err(S::make(i - T::count()))
        }
    }
    fn index(self) -> u128 {
        match self {
            Ok(x) => x.index(),
            Err(x) => T::count() + x.index(),
        }
    }
}
impl<T: Spec, const N: usize> Spec for [T; N] {
    fn count() -> u128 {
        let mut p = 1u128;
        for _ in 0..N {
            p *= T::count();
        }
        p
    }
    fn make(i: u128) -> Self {
        let mut r = i;
        std::array::from_fn(|_| {
            let d = r % T::count();
            r /= T::count();
            T::make(d)
        })
    }
    fn index(self) -> u128 {
        let mut w = 1u128;
        let mut s = 0u128;
        for x in self.iter() {
            s = s.wrapping_add(x.index().wrapping_mul(w));
            w = w.wrapping_mul(T::count());
        }
        s
    }
    fn radix() -> Vec<u128> {
        vec![T::count(); N]
    }
}
macro_rules! tuples {
    ($($name:ident)*) => { tuples!(@ [] $($name)*); };
    (@ [$($have:ident)*]) => {};
    (@ [$($have:ident)*] $next:ident $($rest:ident)*) => {
        #[allow(non_snake_case, unused_assignments, unused_mut)]
        impl<$($have: Spec,)* $next: Spec> Spec for ($($have,)* $next,) {
            fn count() -> u128 {
                1 $(* $have::count())* * $next::count()
            }
            fn make(i: u128) -> Self {
                let mut r = i;
                $(let $have = $have::make(r % $have::count()); r /= $have::count();)*
                let $next = $next::make(r % $next::count());
                ($($have,)* $next,)
            }
            fn index(self) -> u128 {
                let ($($have,)* $next,) = self;
                let mut w = 1u128;
                let mut s = 0u128;
                $(s = s.wrapping_add($have.index().wrapping_mul(w)); w *= $have::count();)*
                s.wrapping_add($next.index().wrapping_mul(w))
            }
            fn radix() -> Vec<u128> {
                vec![$($have::count(),)* $next::count()]
            }
        }
        tuples!(@ [$($have)* $next] $($rest)*);
    };
}
tuples!(A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13 A14 A15 A16 A17 A18 A19 A20 A21 A22 A23 A24 A25 A26 A27 A28 A29 A30 A31);

// ---- item types with their own mapping -------------------------------------
// Deliberately without PartialEq, Debug, Default; with niches, references,
// large alignment; from_discr panics on numbers out of range.

macro_rules! item {
    ($t:ident, $n:expr, $vals:expr, |$x:ident| $find:expr) => {
        unsafe impl EnumLike for $t {
            const NUM_VARIANTS: usize = $n;
            fn to_discr(self) -> usize {
                Spec::index(self) as usize
            }
            fn from_discr(x: usize) -> Self {
                assert!(x < $n, "item asked for the value numbered {} of {}", x, Self::NUM_VARIANTS);
                Spec::make(x as u128)
            }
        }
        impl Spec for $t {
            fn count() -> u128 {
                $n
            }
            fn make(i: u128) -> Self {
                assert!(i < $n);
                let v: fn(usize) -> $t = $vals;
                v(i as usize)
            }
            fn index(self) -> u128 {
                let $x = self;
                $find
            }
        }
    };
}

#[derive(Clone, Copy)]
pub enum Never {}
unsafe impl EnumLike for Never {
    const NUM_VARIANTS: usize = 0;
    fn to_discr(self) -> usize {
        match self {}
    }
    fn from_discr(x: usize) -> Self {
        panic!("asked for the value numbered {} of an empty type", x)
    }
}
impl Spec for Never {
    fn count() -> u128 {
        0
    }
    fn make(_: u128) -> Self {
        panic!("no value")
    }
    fn index(self) -> u128 {
        match self {}
    }
}

#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct One;
item!(One, 1, |_| One, |_x| 0);

#[derive(Clone, Copy)]
pub enum Two {
    A = 100,
    B = 7,
}
item!(Two, 2, |i| if i == 0 { Two::A } else { Two::B }, |x| match x {
    Two::A => 0,
    Two::B => 1,
});

#[derive(Clone, Copy)]
pub struct Tri(char);
item!(Tri, 3, |i| Tri(['z', '\u{10FFFF}', '\0'][i]), |x| match x.0 {
    'z' => 0,
    '\u{10FFFF}' => 1,
    '\0' => 2,
    c => 1_000_000 + c as u128,
});

#[derive(Clone, Copy)]
pub struct Four(&'static str);
item!(Four, 4, |i| Four(["", "abc", "b", "ac"][i]), |x| match x.0 {
    "" => 0,
    "abc" => 1,
    "b" => 2,
    "ac" => 3,
    _ => 1_000_000,
});

#[derive(Clone, Copy)]
pub struct Five(NonZeroU8);
item!(Five, 5, |i| Five(NonZeroU8::new([1, 2, 3, 4, 255][i]).unwrap()), |x| match x.0.get() {
    n @ 1..=4 => n as u128 - 1,
    255 => 4,
    n => 1_000_000 + n as u128,
});

#[derive(Clone, Copy)]
#[repr(align(16))]
pub struct Wide(u128);
item!(Wide, 3, |i| Wide([u128::MAX, 0, 1 << 100][i]), |x| match x.0 {
    u128::MAX => 0,
    0 => 1,
    n if n == 1 << 100 => 2,
    _ => 1_000_000,
});

#[derive(Clone, Copy)]
pub struct D17(i32);
item!(D17, 17, |i| D17(-1000 + i as i32 * 3), |x| if (x.0 + 1000) % 3 == 0 { ((x.0 + 1000) / 3) as u128 } else { 1_000_000 });

/// 2^63 and 2^62 values.
#[derive(Clone, Copy)]
pub struct H63(u64);
item!(H63, 0x8000_0000_0000_0000, |i| H63(!(i as u64)), |x| !x.0 as u128);
#[derive(Clone, Copy)]
pub struct H62(u64);
item!(H62, 0x4000_0000_0000_0000, |i| H62(!(i as u64)), |x| !x.0 as u128);

/// N values, as numbers of the value itself; equality, order and hash of the
/// value deliberately disagree with its number.
#[derive(Clone, Copy, Debug)]
pub struct Num<const N: usize>(pub usize);
unsafe impl<const N: usize> EnumLike for Num<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        assert!(x < N, "asked for the value numbered {} of {}", x, N);
        Num(x)
    }
}
impl<const N: usize> Spec for Num<N> {
    fn count() -> u128 {
        N as u128
    }
    fn make(i: u128) -> Self {
        Num(i as usize)
    }
    fn index(self) -> u128 {
        self.0 as u128
    }
}
impl<const N: usize> PartialEq for Num<N> {
    fn eq(&self, o: &Self) -> bool {
        self.0 / 2 == o.0 / 2
    }
}
impl<const N: usize> Eq for Num<N> {}
impl<const N: usize> PartialOrd for Num<N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for Num<N> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.0 / 2).cmp(&(self.0 / 2))
    }
}
impl<const N: usize> std::hash::Hash for Num<N> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_usize(self.0 / 2)
    }
}

// ---- type-erased access -----------------------------------------------------

/// One type: the expected mapping next to the real one.
#[derive(Clone, Copy)]
pub struct Ty {
    pub name: &'static str,
    pub num: usize,
    pub count: fn() -> u128,
    pub radix: fn() -> Vec<u128>,
    /// number the code gives to the value expected to have number i
    pub to: fn(u128) -> usize,
    /// expected number of the value the code builds for a number
    pub from: fn(usize) -> u128,
    /// from(to(value i))
    pub back: fn(u128) -> u128,
    /// to(from(k))
    pub forth: fn(usize) -> usize,
    pub vals: fn() -> Box<dyn Vals>,
}
impl Ty {
    pub const fn of<T: Spec + EnumLike>(name: &'static str) -> Ty {
        Ty {
            name,
            num: T::NUM_VARIANTS,
            count: T::count,
            radix: T::radix,
            to: |i| T::make(i).to_discr(),
            from: |k| T::from_discr(k).index(),
            back: |i| T::from_discr(T::make(i).to_discr()).index(),
            forth: |k| T::from_discr(k).to_discr(),
            vals: || Box::new(T::values()),
        }
    }
}

/// A values iterator; items are reported by their number.
pub trait Vals {
    fn next(&mut self) -> Option<usize>;
    fn nth(&mut self, n: usize) -> Option<usize>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn fork(&self) -> Box<dyn Vals>;
    fn last(self: Box<Self>) -> Option<usize>;
    fn count(self: Box<Self>) -> usize;
    /// everything that is left, through the adapters users reach for
    fn collect(self: Box<Self>) -> Vec<usize>;
    fn fold(self: Box<Self>) -> Vec<usize>;
}
impl<I, T> Vals for I
where
    I: Iterator<Item = T> + ExactSizeIterator + Clone + 'static,
    T: EnumLike,
{
    fn next(&mut self) -> Option<usize> {
        Iterator::next(self).map(|x| x.to_discr())
    }
    fn nth(&mut self, n: usize) -> Option<usize> {
        Iterator::nth(self, n).map(|x| x.to_discr())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        Iterator::size_hint(self)
    }
    fn len(&self) -> usize {
        ExactSizeIterator::len(self)
    }
    fn fork(&self) -> Box<dyn Vals> {
        Box::new(self.clone())
    }
    fn last(self: Box<Self>) -> Option<usize> {
        Iterator::last(*self).map(|x| x.to_discr())
    }
    fn count(self: Box<Self>) -> usize {
        Iterator::count(*self)
    }
    fn collect(self: Box<Self>) -> Vec<usize> {
        let v: Vec<T> = Iterator::collect(*self);
        v.into_iter().map(|x| x.to_discr()).collect()
    }
    fn fold(self: Box<Self>) -> Vec<usize> {
        Iterator::fold(*self, vec![], |mut v, x| {
            v.push(x.to_discr());
            v
        })
    }
}

/// Writes of a hasher, kept as they come.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl std::hash::Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}

/// One packed single-value type.
#[derive(Clone, Copy)]
pub struct Packed {
    pub name: &'static str,
    pub bytes: usize,
    pub size: usize,
    pub count: usize,
    /// expected number of the value packed and unpacked again; through a copy
    /// and a clone too
    pub trip: fn(usize) -> [u128; 3],
    pub eq: fn(usize, usize) -> (bool, bool),
    pub cmp: fn(usize, usize) -> (std::cmp::Ordering, Option<std::cmp::Ordering>, [bool; 4]),
    pub hash: fn(usize) -> Vec<u8>,
}
macro_rules! packed {
    ($f:ident, $p:ident, $b:expr) => {
        pub const fn $f<T: Spec + EnumLike + Ord + std::hash::Hash>(name: &'static str, count: usize) -> Packed {
            Packed {
                name,
                bytes: $b,
                size: std::mem::size_of::<$p<T>>(),
                count,
                trip: |i| {
                    let p = $p::new(T::make(i as u128));
                    let q = p;
                    let r = Clone::clone(&p);
                    [p.get().index(), q.get().index(), r.get().index()]
                },
                eq: |i, j| {
                    let (a, b) = ($p::new(T::make(i as u128)), $p::new(T::make(j as u128)));
                    (a == b, a != b)
                },
                cmp: |i, j| {
                    let (a, b) = ($p::new(T::make(i as u128)), $p::new(T::make(j as u128)));
                    (a.cmp(&b), a.partial_cmp(&b), [a < b, a <= b, a > b, a >= b])
                },
                hash: |i| {
                    let mut h = Rec::default();
                    std::hash::Hash::hash(&$p::new(T::make(i as u128)), &mut h);
                    h.0
                },
            }
        }
    };
}
packed!(packed8, PackedU8, 1);
packed!(packed16, PackedU16, 2);
/// Names for the derive, whose parser predates constant arguments.
pub type N32 = Num<4294967296>;
pub type N16 = Num<65535>;
