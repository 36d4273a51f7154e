//! One type definition, all containers. The values are written down
//! independently of the crates under test (`Spec`).
pub use enum_like::{EnumLike, PackedU16, PackedU8};
pub use enum_like_derive;
use enum_set2::EnumSet;
pub use likesut::Spec;

// Leaf types, with derived mappings.
macro_rules! fieldless {
    ($t:ident $n:literal: $($v:ident $i:literal),*) => {
        #[derive(Clone, Copy, enum_like_derive::EnumLike)]
        pub enum $t { $($v),* }
        impl Spec for $t {
            fn count() -> u128 { $n }
            fn make(i: u128) -> Self { match i { $($i => $t::$v,)* _ => panic!("no value {}", i) } }
            fn index(self) -> u128 { match self { $($t::$v => $i),* } }
        }
    };
}
fieldless!(Never 0:);
fieldless!(Two 2: Yes 0, No 1);
fieldless!(Tri 3: Red 0, Green 1, Blue 2);
fieldless!(Four 4: North 0, East 1, South 2, West 3);
fieldless!(D17 17: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16);
#[derive(Clone, Copy, enum_like_derive::EnumLike)]
pub struct One;
impl Spec for One {
    fn count() -> u128 {
        1
    }
    fn make(_: u128) -> Self {
        One
    }
    fn index(self) -> u128 {
        0
    }
}
#[derive(Clone, Copy, enum_like_derive::EnumLike)]
pub enum Five {
    Tri(Tri),
    Lone,
    Last,
}
impl Spec for Five {
    fn count() -> u128 {
        5
    }
    fn make(i: u128) -> Self {
        match i {
            0 => Five::Lone,
            1 => Five::Last,
            _ => Five::Tri(Tri::make(i - 2)),
        }
    }
    fn index(self) -> u128 {
        match self {
            Five::Lone => 0,
            Five::Last => 1,
            Five::Tri(t) => 2 + Spec::index(t),
        }
    }
}
/// 2^16 - 1 and 2^32 values, made of smaller ones.
pub type N16 = (Tri, (Five, (D17, (Byte, One))));
pub type N32 = [Byte; 4];
#[derive(Clone, Copy, enum_like_derive::EnumLike)]
pub struct Byte(pub [Four; 3], pub (Two, bool));
impl Spec for Byte {
    fn count() -> u128 {
        256
    }
    fn make(i: u128) -> Self {
        Byte(Spec::make(i % 64), Spec::make(i / 64))
    }
    fn index(self) -> u128 {
        Spec::index(self.0) + 64 * Spec::index(self.1)
    }
}
pub fn pick<T: Spec>(r: &mut u128) -> T {
    let c = T::count();
    let v = T::make(*r % c);
    *r /= c;
    v
}

/// Stores values (named by their expected number) and reads them back in
/// every way; or what differs.
pub type Trip = fn(&[u128]) -> Result<(), String>;
#[derive(Clone, Copy)]
pub struct Store {
    pub name: &'static str,
    /// bits of a block, 0 for other containers
    pub bits: u32,
    pub trip: Trip,
}
pub struct Ty {
    pub name: &'static str,
    pub count: u128,
    pub declared: usize,
    pub stores: Vec<Store>,
    pub set: fn(&[u128], u128) -> Result<(), String>,
}
pub fn ty<T: Spec + EnumLike>(name: &'static str, stores: Vec<Store>) -> Ty {
    Ty { name, count: T::count(), declared: T::NUM_VARIANTS, stores, set: set::<T> }
}
fn val<T: Spec>(x: &[u128]) -> Vec<T> {
    x.iter().map(|i| T::make(*i)).collect()
}
fn same(how: &str, got: &mut dyn Iterator<Item = u128>, want: &[u128]) -> Result<(), String> {
    let got: Vec<u128> = got.collect();
    if got != want {
        return Err(format!("{}: stored {:?}, read back {:?}", how, want, got));
    }
    Ok(())
}
macro_rules! back {
    ($f:ident, $m:ident, $bits:literal) => {
        pub fn $f<T: Spec + EnumLike>() -> Store {
            fn trip<T: Spec + EnumLike>(x: &[u128]) -> Result<(), String> {
                use enum_vec::$m::EnumVec;
                let w = val::<T>(x);
                let mut v = EnumVec::<T>::new();
                for y in &w {
                    v.push(*y);
                }
                same("push and get", &mut (0..v.len()).map(|i| v.get(i).map_or(u128::MAX, |y| y.index())), x)?;
                same("push and pop", &mut std::iter::from_fn(|| v.pop()).map(|y| y.index()).collect::<Vec<_>>().into_iter().rev(), x)?;
                let v = EnumVec::from_slice(&w);
                same("from_slice and iter", &mut v.iter().map(|y| y.index()), x)?;
                same("from_slice and iter backwards", &mut v.iter().rev().map(|y| y.index()).collect::<Vec<_>>().into_iter().rev(), x)?;
                same("from_slice and to_vec", &mut v.to_vec().into_iter().map(|y| y.index()), x)?;
                let mut v: EnumVec<T> = w.iter().copied().collect();
                let mut seen = vec![];
                v.for_each(|y| seen.push(y.index()));
                same("collect and for_each", &mut seen.into_iter(), x)?;
                same("collect and into_iter", &mut v.into_iter().map(|y| y.index()), x)?;
                if let Some(f) = w.first() {
                    let mut v = EnumVec::from_elem(*f, w.len());
                    for (i, y) in w.iter().enumerate() {
                        v.set(i, *y);
                    }
                    same("from_elem, set and get", &mut (0..v.len()).map(|i| v.get(i).map_or(u128::MAX, |y| y.index())), x)?;
                    v.swap(0, w.len() - 1);
                    v.swap(0, w.len() - 1);
                    let last = v.remove(w.len() - 1);
                    v.insert(w.len() - 1, last);
                    same("swap, remove and insert", &mut v.iter().map(|y| y.index()), x)?;
                    for (i, y) in w.iter().enumerate() {
                        if !v.any(*y) {
                            return Err(format!("any misses element {} of {:?}", i, x));
                        }
                        if v.all(*y) != x.iter().all(|z| *z == x[i]) {
                            return Err(format!("all of element {} is {} of {:?}", i, v.all(*y), x));
                        }
                    }
                }
                Ok(())
            }
            Store { name: stringify!($m), bits: $bits, trip: trip::<T> }
        }
    };
}
back!(u8_, vec_u8, 8);
back!(u16_, vec_u16, 16);
back!(u32_, vec_u32, 32);
back!(u64_, vec_u64, 64);
back!(u128_, vec_u128, 128);
back!(small_, smallvec_u32, 32);
macro_rules! packed {
    ($f:ident, $p:ident) => {
        pub fn $f<T: Spec + EnumLike>() -> Store {
            fn trip<T: Spec + EnumLike>(x: &[u128]) -> Result<(), String> {
                let a: Vec<$p<T>> = x.iter().map(|i| $p::new(T::make(*i))).collect();
                let b = a.clone();
                same("new and get", &mut b.iter().map(|p| p.get().index()), x)
            }
            Store { name: stringify!($p), bits: 0, trip: trip::<T> }
        }
    };
}
packed!(p8_, PackedU8);
packed!(p16_, PackedU16);

/// The values in a set; `all` is the number of values if they are to be
/// looked up one by one.
fn set<T: Spec + EnumLike>(x: &[u128], all: u128) -> Result<(), String> {
    let mut want: Vec<u128> = x.to_vec();
    want.sort();
    want.dedup();
    let sorted = |it: &mut dyn Iterator<Item = u128>| {
        let mut v: Vec<u128> = it.collect();
        v.sort();
        v
    };
    let mut s = EnumSet::<T>::new();
    for i in x {
        s.insert(T::make(*i));
    }
    let t: EnumSet<T> = x.iter().rev().map(|i| T::make(*i)).collect();
    for (how, s) in [("insert", &s), ("collect", &t)] {
        let got = sorted(&mut s.iter().map(|y| y.index()));
        if got != want {
            return Err(format!("{} and iter: stored {:?}, read back {:?}", how, want, got));
        }
        if s.len() != want.len() {
            return Err(format!("{} and len: stored {:?}, len {}", how, want, s.len()));
        }
        for i in 0..all {
            if s.contains(T::make(i)) != want.contains(&i) {
                return Err(format!("{} and contains: stored {:?}, contains({}) is {}", how, want, i, s.contains(T::make(i))));
            }
        }
    }
    for (k, i) in want.iter().enumerate() {
        if !s.remove(T::make(*i)) || s.contains(T::make(*i)) {
            return Err(format!("remove: {} of {:?}", i, want));
        }
        let got = sorted(&mut s.iter().map(|y| y.index()));
        if got != want[k + 1..] {
            return Err(format!("remove: left {:?} of {:?}, should be {:?}", got, want, &want[k + 1..]));
        }
    }
    Ok(())
}
