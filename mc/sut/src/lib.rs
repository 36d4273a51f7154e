//! Type-erased access to the real packed vectors: one adapter per back end and
//! number of variants. Values cross the interface as `u64`.
use enum_vec::EnumLike;
use mccore::alloc::{scope, unscoped};
use std::any::Any;
use std::fmt;
use std::hash::{Hash, Hasher};

/// The element type: value `v` in `0..N` has discriminant `N-1-v`, so that a
/// value is never mistaken for its discriminant.
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct V<const N: usize>(pub u64);

thread_local! {
    pub static BAD_DISCR: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

unsafe impl<const N: usize> EnumLike for V<N> {
    const NUM_VARIANTS: usize = N;
    #[inline]
    fn to_discr(self) -> usize {
        N - 1 - self.0 as usize
    }
    #[inline]
    fn from_discr(x: usize) -> Self {
        if x >= N {
            BAD_DISCR.set(Some(x));
            panic!("from_discr({}) with only {} variants", x, N);
        }
        V((N - 1 - x) as u64)
    }
}
impl<const N: usize> fmt::Debug for V<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_tuple("V").field(&self.0).finish()
    }
}

/// The environment's iterator: yields `n` generated values, promises what it
/// is told to promise, and panics at `panic_at` if that comes first.
#[derive(Clone)]
pub struct Src<'a> {
    pub vals: &'a [u64],
    pub pos: usize,
    pub lo: usize,
    pub hi: Option<usize>,
    pub panic_at: usize,
}
impl<'a> Src<'a> {
    pub fn exact(vals: &'a [u64]) -> Self {
        Src { vals, pos: 0, lo: vals.len(), hi: Some(vals.len()), panic_at: usize::MAX }
    }
}
struct SrcIter<'a, const N: usize>(Src<'a>);
impl<'a, const N: usize> Iterator for SrcIter<'a, N> {
    type Item = V<N>;
    fn next(&mut self) -> Option<V<N>> {
        if self.0.pos == self.0.panic_at {
            self.0.pos += 1;
            panic!("injected: iterator");
        }
        let r = self.0.vals.get(self.0.pos).map(|&v| V(v));
        self.0.pos += 1;
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.lo.saturating_sub(self.0.pos), self.0.hi.map(|h| h.saturating_sub(self.0.pos)))
    }
}

pub trait DynIter {
    fn next(&mut self) -> Option<u64>;
    fn next_back(&mut self) -> Option<u64>;
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn nth_back(&mut self, n: usize) -> Option<u64>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    /// Finishers: 0 count, 1 last, 2 fold to the end, 3 rfold, 4 collect via
    /// rev, 5 for loop, and others
    fn finish(self: Box<Self>, how: u8) -> Vec<u64>;
}
struct ItN<I>(I);
impl<const N: usize, I: DoubleEndedIterator<Item = V<N>> + ExactSizeIterator> DynIter for ItN<I> {
    fn next(&mut self) -> Option<u64> {
        self.0.next().map(|v| v.0)
    }
    fn next_back(&mut self) -> Option<u64> {
        self.0.next_back().map(|v| v.0)
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.0.nth(n).map(|v| v.0)
    }
    fn nth_back(&mut self, n: usize) -> Option<u64> {
        self.0.nth_back(n).map(|v| v.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn finish(self: Box<Self>, how: u8) -> Vec<u64> {
        let it = self.0;
        match how {
            0 => vec![it.count() as u64],
            1 => it.last().map(|v| v.0).into_iter().collect(),
            2 => it.fold(vec![], |mut a, v| {
                a.push(v.0);
                a
            }),
            3 => it.rfold(vec![], |mut a, v| {
                a.push(v.0);
                a
            }),
            4 => it.rev().map(|v| v.0).collect(),
            5 => {
                let mut a = vec![];
                for v in it {
                    a.push(v.0);
                }
                a
            }
            6 => it.step_by(2).map(|v| v.0).collect(),
            7 => it.skip(1).map(|v| v.0).collect(),
            9 => {
                let mut a = vec![];
                it.for_each(|v| a.push(v.0));
                a
            }
            10 => {
                let mut it = it;
                let mut a = vec![];
                let r = it.find(|v| {
                    a.push(v.0);
                    false
                });
                a.push(r.is_some() as u64);
                a.push(it.len() as u64);
                a
            }
            11 => {
                let mut it = it;
                let mut a = vec![];
                let r = it.rfind(|v| {
                    a.push(v.0);
                    false
                });
                a.push(r.is_some() as u64);
                a.push(it.len() as u64);
                a
            }
            12 => {
                // stops half-way, then goes on from there
                let mut it = it;
                let half = it.len() / 2;
                let mut k = 0;
                let p = it.position(|_| {
                    k += 1;
                    k > half
                });
                let mut a = vec![p.map_or(u64::MAX, |x| x as u64), it.len() as u64];
                k = 0;
                let half = it.len() / 2;
                let p = it.rposition(|_| {
                    k += 1;
                    k > half
                });
                a.push(p.map_or(u64::MAX, |x| x as u64));
                a.extend(it.map(|v| v.0));
                a
            }
            13 => {
                let mut it = it;
                let mut a = vec![];
                let r = it.all(|v| {
                    a.push(v.0);
                    a.len() != 2
                });
                a.push(r as u64);
                let r = it.any(|v| {
                    a.push(v.0);
                    false
                });
                a.push(r as u64);
                a.push(it.len() as u64);
                a
            }
            14 => {
                let mut it = it;
                let mut a: Vec<u64> = it.by_ref().take(1).map(|v| v.0).collect();
                let hi = it.max_by_key(|v| v.0);
                a.push(hi.map_or(0, |v| v.0));
                a
            }
            15 => it.map(|v| v.0).min().into_iter().collect(),
            16 => {
                let (a, b): (Vec<_>, Vec<_>) = it.partition(|v| v.0 % 2 == 0);
                a.into_iter().chain(b).map(|v| v.0).collect()
            }
            17 => it.zip(1..4u64).map(|(v, k)| v.0 ^ k << 60).collect(),
            _ => it.enumerate().map(|(i, v)| (i as u64) << 32 ^ v.0).collect(),
        }
    }
}

pub trait Dyn: Any {
    fn any_mut(&mut self) -> &mut dyn Any;
    fn as_any(&self) -> &dyn Any;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, i: usize) -> Option<u64>;
    fn set(&mut self, i: usize, v: u64);
    fn push(&mut self, v: u64);
    fn pop(&mut self) -> Option<u64>;
    fn swap(&mut self, i: usize, j: usize);
    fn swap_remove(&mut self, i: usize) -> u64;
    fn insert(&mut self, i: usize, v: u64);
    fn remove(&mut self, i: usize) -> u64;
    fn truncate(&mut self, n: usize);
    fn clear(&mut self);
    fn reserve(&mut self, n: usize);
    fn shrink(&mut self);
    fn resize(&mut self, n: usize, v: u64);
    fn extend(&mut self, s: Src);
    fn append(&mut self, o: &mut dyn Dyn);
    fn split_off(&mut self, at: usize) -> Box<dyn Dyn>;
    fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool);
    fn for_each(&mut self, f: &mut dyn FnMut(&mut u64));
    fn clone_box(&self) -> Box<dyn Dyn>;
    fn clone_from(&mut self, o: &dyn Dyn);
    fn eq(&self, o: &dyn Dyn) -> bool;
    fn ne(&self, o: &dyn Dyn) -> bool;
    fn myself(&self) -> &dyn Dyn;
    fn hash(&self, h: &mut dyn Hasher);
    fn debug(&self, alt: bool) -> String;
    fn to_vec(&self) -> Vec<u64>;
    fn into_vec(self: Box<Self>) -> Vec<u64>;
    fn iter<'a>(&'a self) -> Box<dyn DynIter + 'a>;
    fn ref_iter<'a>(&'a self) -> Box<dyn DynIter + 'a>;
    fn into_iter(self: Box<Self>) -> Box<dyn DynIter>;
    fn any(&self, v: u64) -> bool;
    fn all(&self, v: u64) -> bool;
    fn capacity(&self) -> usize;
    // raw and storage access
    fn blocks(&self) -> usize;
    fn cap_blocks(&self) -> usize;
    fn word(&self, b: usize) -> u128;
    fn ptr(&self) -> usize;
    fn key(&self, out: &mut Vec<u8>);
    /// Whatever else the vector itself consists of.
    fn hidden(&self, out: &mut Vec<u8>);
    unsafe fn get_raw(&self, i: usize) -> usize;
    unsafe fn set_raw(&mut self, i: usize, d: usize);
    unsafe fn set_len(&mut self, n: usize);
    unsafe fn set_word(&mut self, b: usize, w: u128);
    /// Reads all elements with `get`, at most `cap` of them.
    fn read(&self, cap: usize, out: &mut Vec<u64>);
}

pub trait Make: Sync + Send {
    fn name(&self) -> &'static str;
    fn block_bits(&self) -> usize;
    fn small(&self) -> bool;
    fn n(&self) -> usize;
    fn new(&self) -> Box<dyn Dyn>;
    fn default(&self) -> Box<dyn Dyn>;
    fn with_capacity(&self, n: usize) -> Box<dyn Dyn>;
    fn from_elem(&self, v: u64, n: usize) -> Box<dyn Dyn>;
    fn from_slice(&self, v: &[u64]) -> Box<dyn Dyn>;
    fn from_vec(&self, v: &[u64]) -> Box<dyn Dyn>;
    fn collect(&self, s: Src) -> Box<dyn Dyn>;
    /// `enum_vec![v; n]`
    fn mac_fill(&self, v: u64, n: usize) -> Box<dyn Dyn>;
    /// `enum_vec![]`, `enum_vec![a]`, `enum_vec![a, b, c]`, and with a comma
    /// after the last; each item is asked for once, in order.
    fn mac_list(&self, form: u64, v: &[u64]) -> Box<dyn Dyn>;
}

pub struct Mk<E>(std::marker::PhantomData<fn() -> E>);
impl<E> Mk<E> {
    pub const NEW: Self = Mk(std::marker::PhantomData);
}

pub fn dc<T: 'static>(o: &mut dyn Dyn) -> &mut T {
    o.any_mut().downcast_mut::<T>().expect("same configuration")
}

macro_rules! backend {
    ($m:ident, $W:ident, $bits:expr, $blk:ty, $small:expr) => {
        pub struct $W<const N: usize>(pub enum_vec::$m::EnumVec<V<N>>);
        impl<const N: usize> Dyn for $W<N> {
            fn any_mut(&mut self) -> &mut dyn Any {
                self
            }
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn len(&self) -> usize {
                self.0.len()
            }
            fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
            fn get(&self, i: usize) -> Option<u64> {
                self.0.get(i).map(|v| v.0)
            }
            fn set(&mut self, i: usize, v: u64) {
                scope(|| self.0.set(i, V(v)))
            }
            fn push(&mut self, v: u64) {
                scope(|| self.0.push(V(v)))
            }
            fn pop(&mut self) -> Option<u64> {
                scope(|| self.0.pop().map(|v| v.0))
            }
            fn swap(&mut self, i: usize, j: usize) {
                scope(|| self.0.swap(i, j))
            }
            fn swap_remove(&mut self, i: usize) -> u64 {
                scope(|| self.0.swap_remove(i).0)
            }
            fn insert(&mut self, i: usize, v: u64) {
                scope(|| self.0.insert(i, V(v)))
            }
            fn remove(&mut self, i: usize) -> u64 {
                scope(|| self.0.remove(i).0)
            }
            fn truncate(&mut self, n: usize) {
                scope(|| self.0.truncate(n))
            }
            fn clear(&mut self) {
                scope(|| self.0.clear())
            }
            fn reserve(&mut self, n: usize) {
                scope(|| self.0.reserve(n))
            }
            fn shrink(&mut self) {
                scope(|| self.0.shrink_to_fit())
            }
            fn resize(&mut self, n: usize, v: u64) {
                scope(|| self.0.resize(n, V(v)))
            }
            fn extend(&mut self, s: Src) {
                scope(|| self.0.extend(SrcIter::<N>(s)))
            }
            fn append(&mut self, o: &mut dyn Dyn) {
                scope(|| self.0.append(&mut dc::<Self>(o).0))
            }
            fn split_off(&mut self, at: usize) -> Box<dyn Dyn> {
                let r = scope(|| self.0.split_off(at));
                Box::new($W(r))
            }
            fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool) {
                scope(|| self.0.retain(|v| unscoped(|| f(v.0))))
            }
            fn for_each(&mut self, f: &mut dyn FnMut(&mut u64)) {
                scope(|| self.0.for_each(|v| unscoped(|| f(&mut v.0))))
            }
            fn clone_box(&self) -> Box<dyn Dyn> {
                let r = scope(|| self.0.clone());
                Box::new($W(r))
            }
            fn clone_from(&mut self, o: &dyn Dyn) {
                let o = &o.as_any().downcast_ref::<Self>().unwrap().0;
                scope(|| self.0.clone_from(o))
            }
            fn eq(&self, o: &dyn Dyn) -> bool {
                self.0 == o.as_any().downcast_ref::<Self>().unwrap().0
            }
            fn ne(&self, o: &dyn Dyn) -> bool {
                self.0 != o.as_any().downcast_ref::<Self>().unwrap().0
            }
            fn myself(&self) -> &dyn Dyn {
                self
            }
            fn hash(&self, mut h: &mut dyn Hasher) {
                self.0.hash(&mut h)
            }
            fn debug(&self, alt: bool) -> String {
                if alt {
                    format!("{:#?}", self.0)
                } else {
                    format!("{:?}", self.0)
                }
            }
            fn to_vec(&self) -> Vec<u64> {
                self.0.to_vec().into_iter().map(|v| v.0).collect()
            }
            fn into_vec(self: Box<Self>) -> Vec<u64> {
                let v: Vec<V<N>> = self.0.into();
                v.into_iter().map(|v| v.0).collect()
            }
            fn iter<'a>(&'a self) -> Box<dyn DynIter + 'a> {
                Box::new(ItN(self.0.iter()))
            }
            fn ref_iter<'a>(&'a self) -> Box<dyn DynIter + 'a> {
                Box::new(ItN((&self.0).into_iter()))
            }
            fn into_iter(self: Box<Self>) -> Box<dyn DynIter> {
                Box::new(ItN(self.0.into_iter()))
            }
            fn any(&self, v: u64) -> bool {
                self.0.any(V(v))
            }
            fn all(&self, v: u64) -> bool {
                self.0.all(V(v))
            }
            fn capacity(&self) -> usize {
                self.0.capacity()
            }
            fn blocks(&self) -> usize {
                self.0.storage().len()
            }
            fn cap_blocks(&self) -> usize {
                self.0.storage().capacity()
            }
            fn word(&self, b: usize) -> u128 {
                self.0.storage()[b] as u128
            }
            fn ptr(&self) -> usize {
                self.0.storage().as_ptr() as usize
            }
            fn key(&self, out: &mut Vec<u8>) {
                out.extend_from_slice(&(self.0.len() as u64).to_le_bytes());
                // how much room is left before the next reallocation: none,
                // one block, more
                let s = self.0.storage();
                out.push((s.capacity() - s.len()).min(2) as u8);
                for w in self.0.storage().iter() {
                    out.extend_from_slice(&w.to_le_bytes());
                }
            }
            fn hidden(&self, out: &mut Vec<u8>) {
                let all = std::mem::size_of_val(&self.0);
                let st = std::mem::size_of_val(self.0.storage());
                if all > st + std::mem::size_of::<usize>() {
                    let base = &self.0 as *const _ as *const u8;
                    let at = self.0.storage() as *const _ as usize - base as usize;
                    for i in (0..all).filter(|i| *i < at || *i >= at + st) {
                        out.push(unsafe { base.add(i).read_volatile() });
                    }
                }
            }
            unsafe fn get_raw(&self, i: usize) -> usize {
                self.0.get_raw_unchecked(i)
            }
            unsafe fn set_raw(&mut self, i: usize, d: usize) {
                scope(|| self.0.set_raw_unchecked(i, d))
            }
            unsafe fn set_len(&mut self, n: usize) {
                self.0.set_len(n)
            }
            unsafe fn set_word(&mut self, b: usize, w: u128) {
                self.0.storage_mut()[b] = w as $blk
            }
            fn read(&self, cap: usize, out: &mut Vec<u64>) {
                out.clear();
                for i in 0..self.0.len().min(cap) {
                    match self.0.get(i) {
                        Some(v) => out.push(v.0),
                        None => break,
                    }
                }
            }
        }
        impl<const N: usize> Make for Mk<$W<N>> {
            fn name(&self) -> &'static str {
                stringify!($m)
            }
            fn block_bits(&self) -> usize {
                $bits
            }
            fn small(&self) -> bool {
                $small
            }
            fn n(&self) -> usize {
                N
            }
            fn new(&self) -> Box<dyn Dyn> {
                let r = scope(|| enum_vec::$m::EnumVec::<V<N>>::new());
                Box::new($W(r))
            }
            fn default(&self) -> Box<dyn Dyn> {
                let r = scope(|| enum_vec::$m::EnumVec::<V<N>>::default());
                Box::new($W(r))
            }
            fn with_capacity(&self, n: usize) -> Box<dyn Dyn> {
                let r = scope(|| enum_vec::$m::EnumVec::<V<N>>::with_capacity(n));
                Box::new($W(r))
            }
            fn from_elem(&self, v: u64, n: usize) -> Box<dyn Dyn> {
                let r = scope(|| enum_vec::$m::EnumVec::<V<N>>::from_elem(V(v), n));
                Box::new($W(r))
            }
            fn from_slice(&self, v: &[u64]) -> Box<dyn Dyn> {
                let s: Vec<V<N>> = v.iter().map(|&x| V(x)).collect();
                let r = scope(|| enum_vec::$m::EnumVec::<V<N>>::from_slice(&s));
                Box::new($W(r))
            }
            fn from_vec(&self, v: &[u64]) -> Box<dyn Dyn> {
                let s: Vec<V<N>> = v.iter().map(|&x| V(x)).collect();
                let r: enum_vec::$m::EnumVec<V<N>> = scope(|| s.into());
                Box::new($W(r))
            }
            fn collect(&self, s: Src) -> Box<dyn Dyn> {
                let r: enum_vec::$m::EnumVec<V<N>> = scope(|| SrcIter::<N>(s).collect());
                Box::new($W(r))
            }
            fn mac_fill(&self, v: u64, n: usize) -> Box<dyn Dyn> {
                use enum_vec::$m::EnumVec;
                let mut asked = 0;
                let r: EnumVec<V<N>> = scope(|| {
                    enum_vec::enum_vec![{
                        asked += 1;
                        V(v)
                    }; n]
                });
                assert!(asked == 1, "enum_vec![x; n] evaluated x {} times", asked);
                Box::new($W(r))
            }
            fn mac_list(&self, form: u64, v: &[u64]) -> Box<dyn Dyn> {
                use enum_vec::$m::EnumVec;
                let mut it = v.iter();
                let mut x = || V(*it.next().expect("asked once for each"));
                let r: EnumVec<V<N>> = scope(|| match form {
                    0 => enum_vec::enum_vec![x(), x(), x()],
                    1 => enum_vec::enum_vec![],
                    2 => enum_vec::enum_vec![x()],
                    3 => enum_vec::enum_vec![x(), x(),],
                    _ => enum_vec::enum_vec![x(), x(), x(), x(), x(), x(), x(), x(), x(),],
                });
                Box::new($W(r))
            }
        }
    };
}

backend!(vec_u8, U8, 8, u8, false);
backend!(vec_u16, U16, 16, u16, false);
backend!(vec_u32, U32, 32, u32, false);
backend!(vec_u64, U64, 64, u64, false);
backend!(vec_u128, U128, 128, u128, false);
backend!(smallvec_u32, Small, 32, u32, true);
pub const fn nv(w: usize, flip: usize) -> usize {
    if w == 64 {
        usize::MAX
    } else if w == 1 || (w + flip) % 2 == 0 {
        1usize << w
    } else {
        (1usize << (w - 1)) + 1
    }
}
#[macro_export]
macro_rules! widths {
    ($v:ident, $W:ident, $flip:expr, $($w:literal)*) => {
        $( $v.push(&Mk::<$W<{ nv($w, $flip) }>>::NEW as &'static dyn Make); )*
    };
}
#[macro_export]
macro_rules! w8 { ($v:ident, $W:ident, $f:expr) => { widths!($v, $W, $f, 1 2 3 4 5 6 7 8) } }
#[macro_export]
macro_rules! w16 { ($v:ident, $W:ident, $f:expr) => { w8!($v, $W, $f); widths!($v, $W, $f, 9 10 11 12 13 14 15 16) } }
#[macro_export]
macro_rules! w32 { ($v:ident, $W:ident, $f:expr) => { w16!($v, $W, $f); widths!($v, $W, $f, 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32) } }
#[macro_export]
macro_rules! w64b { ($v:ident, $W:ident, $f:expr) => { widths!($v, $W, $f, 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64) } }
