//! Packed vectors of element types at every limit: for every back end, types
//! with 2^k - 1, 2^k and 2^k + 1 values. Values are named by their number.
pub use enum_vec;
use enum_vec::EnumLike;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct N<const V: usize>(pub usize);
unsafe impl<const V: usize> EnumLike for N<V> {
    const NUM_VARIANTS: usize = V;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        assert!(x < V, "asked for the value numbered {} of {}", x, V);
        N(x)
    }
}

/// One vector, type-erased.
pub trait Vect {
    fn push(&mut self, v: usize);
    fn pop(&mut self) -> Option<usize>;
    fn insert(&mut self, i: usize, v: usize);
    fn remove(&mut self, i: usize) -> usize;
    fn set(&mut self, i: usize, v: usize);
    fn get(&self, i: usize) -> Option<usize>;
    fn len(&self) -> usize;
    fn shrink(&mut self);
    fn blocks(&self) -> usize;
    fn block_bytes(&self) -> usize;
    fn to_vec(&self) -> Vec<usize>;
    fn items(&self) -> Vec<usize>;
    fn any(&self, v: usize) -> bool;
    fn all(&self, v: usize) -> bool;
    fn resize(&mut self, n: usize, v: usize);
    fn extend(&mut self, v: &[usize]);
    /// overwrites one whole block
    fn raw(&mut self, i: usize, word: u128);
}
#[derive(Clone, Copy)]
pub struct Cfg {
    pub back: &'static str,
    pub n: usize,
    pub bits: usize,
    pub small: bool,
    pub from_elem: fn(usize, usize) -> Box<dyn Vect>,
    pub from_slice: fn(&[usize]) -> Box<dyn Vect>,
    pub collect: fn(&[usize]) -> Box<dyn Vect>,
}
#[macro_export]
macro_rules! back {
    ($name:ident, $m:ident, $block:ty, $small:expr) => {
        pub mod $name {
            use super::*;
            use enum_vec::$m::EnumVec;
            pub struct W<const V: usize>(pub EnumVec<N<V>>);
            impl<const V: usize> Vect for W<V> {
                fn push(&mut self, v: usize) {
                    self.0.push(N(v))
                }
                fn pop(&mut self) -> Option<usize> {
                    self.0.pop().map(|x| x.0)
                }
                fn insert(&mut self, i: usize, v: usize) {
                    self.0.insert(i, N(v))
                }
                fn remove(&mut self, i: usize) -> usize {
                    self.0.remove(i).0
                }
                fn set(&mut self, i: usize, v: usize) {
                    self.0.set(i, N(v))
                }
                fn get(&self, i: usize) -> Option<usize> {
                    self.0.get(i).map(|x| x.0)
                }
                fn len(&self) -> usize {
                    self.0.len()
                }
                fn shrink(&mut self) {
                    self.0.shrink_to_fit()
                }
                fn blocks(&self) -> usize {
                    self.0.storage().len()
                }
                fn block_bytes(&self) -> usize {
                    std::mem::size_of_val(&self.0.storage()[..]) / self.0.storage().len().max(1)
                }
                fn to_vec(&self) -> Vec<usize> {
                    self.0.to_vec().into_iter().map(|x| x.0).collect()
                }
                fn items(&self) -> Vec<usize> {
                    self.0.iter().map(|x| x.0).collect()
                }
                fn any(&self, v: usize) -> bool {
                    self.0.any(N(v))
                }
                fn all(&self, v: usize) -> bool {
                    self.0.all(N(v))
                }
                fn resize(&mut self, n: usize, v: usize) {
                    self.0.resize(n, N(v))
                }
                fn extend(&mut self, v: &[usize]) {
                    self.0.extend(v.iter().map(|x| N(*x)))
                }
                fn raw(&mut self, i: usize, word: u128) {
                    unsafe { self.0.storage_mut()[i] = word as $block }
                }
            }
            pub const fn cfg<const V: usize>() -> Cfg {
                Cfg {
                    back: stringify!($m),
                    n: V,
                    bits: std::mem::size_of::<$block>() * 8,
                    small: $small,
                    from_elem: |v, n| mccore::alloc::scope(|| Box::new(W::<V>(EnumVec::from_elem(N(v), n)))),
                    from_slice: |v| {
                        let v: Vec<N<V>> = v.iter().map(|x| N(*x)).collect();
                        mccore::alloc::scope(|| Box::new(W::<V>(EnumVec::from_slice(&v))))
                    },
                    collect: |v| mccore::alloc::scope(|| Box::new(W::<V>(v.iter().map(|x| N(*x)).collect()))),
                }
            }
        }
    };
}
back!(u8_, vec_u8, u8, false);
back!(u16_, vec_u16, u16, false);
back!(u32_, vec_u32, u32, false);
back!(u64_, vec_u64, u64, false);
back!(u128_, vec_u128, u128, false);
back!(small_, smallvec_u32, u32, true);
