//! Operations on a packed vector: textual form, the plain-vector model and the
//! execution on the real thing.
use mccore::mix;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vecsut::{Dyn, Make, Src};

pub const MAX: u64 = u64::MAX;

macro_rules! kinds {
    ($($k:ident $n:literal),* $(,)?) => {
        #[allow(dead_code)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        #[repr(u8)]
        pub enum K { $($k),* }
        pub const KINDS: &[(K, &str, usize)] = &[$((K::$k, stringify!($k), $n)),*];
    };
}
kinds! {
    // creation
    New 0, Default 0, WithCap 1, FromElem 2, FromVec 2, FromSlice 2, Collect 4, MacFill 2, MacList 2,
    // element-wise
    Push 1, PushN 2, Pop 0, Get 1, Set 2, Swap 2, Truncate 1, Clear 0, Reserve 1, Shrink 0,
    // positional
    SwapRemove 1, Insert 2, Remove 1,
    // bulk
    Resize 2, Extend 4, Append 3, AppendInto 3, SplitOff 2, ToVec 0,
    // callbacks
    Retain 1, ForEach 1,
    // copies
    CloneSwap 0, CloneDrop 0, CloneFrom 3,
    // faults
    ExtendPanic 4, CollectPanic 4, RetainPanic 2, ForEachPanic 2,
    // raw access
    RawSet 2, RawGrow 3, LenDownUp 1, SetWord 2,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Op {
    pub k: K,
    pub a: [u64; 4],
}
impl Op {
    pub fn text(&self) -> String {
        let (_, n, c) = KINDS[self.k as usize];
        let mut s = n.to_string();
        for i in 0..c {
            if self.a[i] == MAX {
                s.push_str(" MAX");
            } else {
                s.push_str(&format!(" {}", self.a[i]));
            }
        }
        s
    }
    pub fn parse(s: &str) -> Option<Op> {
        let mut it = s.split_whitespace();
        let name = it.next()?;
        let &(k, _, c) = KINDS.iter().find(|x| x.1 == name)?;
        let mut a = [0; 4];
        for x in a.iter_mut().take(c) {
            let w = it.next()?;
            *x = if w == "MAX" { MAX } else { w.parse().ok()? };
        }
        Some(Op { k, a })
    }
}
pub fn text(h: &[Op]) -> String {
    h.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ")
}
pub fn parse(s: &str) -> Option<Vec<Op>> {
    s.split(';').filter(|x| !x.trim().is_empty()).map(Op::parse).collect()
}
pub fn o0(k: K) -> Op {
    Op { k, a: [0; 4] }
}
pub fn o1(k: K, a: u64) -> Op {
    Op { k, a: [a, 0, 0, 0] }
}
pub fn o2(k: K, a: u64, b: u64) -> Op {
    Op { k, a: [a, b, 0, 0] }
}
pub fn o3(k: K, a: u64, b: u64, c: u64) -> Op {
    Op { k, a: [a, b, c, 0] }
}
pub fn o4(k: K, a: u64, b: u64, c: u64, d: u64) -> Op {
    Op { k, a: [a, b, c, d] }
}

/// Static facts about a configuration.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub mk: &'static dyn Make,
    /// Number of variants.
    pub n: u64,
    /// Bits per element, by definition rather than from the library.
    pub w: usize,
    /// Bits per block.
    pub s: usize,
    /// Elements per block.
    pub e: usize,
}
impl Cfg {
    pub fn of(mk: &'static dyn Make) -> Cfg {
        let n = mk.n() as u64;
        let w = (64 - (n - 1).leading_zeros()) as usize;
        let s = mk.block_bits();
        Cfg { mk, n, w, s, e: s / w }
    }
    pub fn name(&self) -> String {
        format!("{}/{}", self.mk.name(), self.n)
    }
    pub fn blocks(&self, elems: usize) -> usize {
        elems.div_ceil(self.e)
    }
}

/// Element `i` of content pattern `seed`.
pub fn val(seed: u64, i: u64, n: u64) -> u64 {
    match seed {
        0 => 0,
        1 => n - 1,
        2 => i % n,
        3 => n - 1 - i % n,
        5 => (i & 1) * (n - 1),
        6 => (!i & 1) * (n - 1),
        _ => mix(i ^ seed << 40) % n,
    }
}
pub fn vals(seed: u64, len: u64, n: u64) -> Vec<u64> {
    (0..len).map(|i| val(seed, i, n)).collect()
}
/// Whether predicate `p` keeps the `i`-th element it is shown, of value `v`.
pub fn pred(p: u64, i: u64, v: u64) -> bool {
    match p {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        3 => i % 2 == 1,
        4 => v == 0,
        5 => v != 0,
        6 => i != 0,
        7 => mix(i ^ v.wrapping_mul(31)) & 3 != 0,
        8 => v % 2 == 0,
        _ => i >= 59 || p >> (i + 4) & 1 == 1,
    }
}
/// What updater `f` makes of the `i`-th element.
pub fn upd(f: u64, i: u64, v: u64, n: u64) -> u64 {
    match f {
        0 => v,
        1 => n - 1 - v,
        2 => 0,
        3 => n - 1,
        4 => (v + 1) % n,
        5 => mix(i ^ 77) % n,
        6 => if i % 3 == 1 { n - 1 - v } else { v },
        // every other element becomes one value
        _ if f >> 63 == 1 => if i & 1 == 0 { f & !(1 << 63) } else { v },
        _ => if i == f - 16 { n - 1 - v } else { v },
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Unit,
    Opt(Option<u64>),
    Val(u64),
    List(Vec<u64>),
    Panic,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Exp {
    Out(Out),
    /// The call panics in a callback and leaves the old elements, in any
    /// order, possibly duplicated, at the same length.
    Shuffled,
}

/// Contents of the other vector in appends.
fn other(cfg: &Cfg, n: u64, seed: u64, kind: u64) -> Box<dyn Dyn> {
    let v = vals(seed, n, cfg.n);
    match kind & 3 {
        0 => cfg.mk.from_vec(&v),
        1 => {
            // stale storage beyond the length
            let mut l = v.clone();
            l.extend(vals(1, 2 * cfg.e as u64 + 1, cfg.n));
            let mut o = cfg.mk.from_vec(&l);
            o.truncate(n as usize);
            o
        }
        2 => {
            let mut o = cfg.mk.from_vec(&v);
            o.reserve(3 * cfg.e + 1);
            o
        }
        _ => {
            // garbage in unused bits
            let mut o = cfg.mk.new();
            for &x in v.iter().rev() {
                o.insert(0, x);
            }
            o
        }
    }
}

fn hint_hi(h: u64) -> Option<usize> {
    if h == MAX {
        None
    } else {
        Some(h as usize)
    }
}

/// Items in each form of `enum_vec![...]`.
pub const LISTS: [u64; 5] = [3, 0, 1, 2, 9];

/// Applies `op` to the plain vector.
pub fn model(cfg: &Cfg, m: &mut Vec<u64>, op: &Op) -> Exp {
    use Exp::Out as X;
    let n = cfg.n;
    let l = m.len() as u64;
    let [a, b, c, d] = op.a;
    match op.k {
        K::New | K::Default | K::WithCap => m.clear(),
        K::FromElem | K::MacFill => *m = vec![a; b as usize],
        K::FromVec | K::FromSlice | K::Collect => *m = vals(b, a, n),
        K::MacList => *m = vals(a, LISTS[b as usize], n),
        K::Push => m.push(a),
        K::PushN => m.extend(vals(b, a, n)),
        K::Pop => return X(Out::Opt(m.pop())),
        K::Get => return X(Out::Opt(if a < l { Some(m[a as usize]) } else { None })),
        K::Set => {
            if a >= l {
                return X(Out::Panic);
            }
            m[a as usize] = b;
        }
        K::Swap => {
            if a >= l || b >= l {
                return X(Out::Panic);
            }
            m.swap(a as usize, b as usize);
        }
        K::Truncate => m.truncate(a.min(l) as usize),
        K::Clear => m.clear(),
        K::Reserve => {
            if l.checked_add(a).is_none() {
                return X(Out::Panic);
            }
        }
        K::Shrink | K::CloneSwap => (),
        K::CloneDrop => return X(Out::List(m.clone())),
        K::CloneFrom => {
            if c & 4 != 0 {
                // the other one becomes a copy, and carries on
                return X(Out::List(m.clone()));
            }
            *m = vals(b, a, n);
            return X(Out::List(m.clone()));
        }
        K::SwapRemove => {
            if a >= l {
                return X(Out::Panic);
            }
            return X(Out::Val(m.swap_remove(a as usize)));
        }
        K::Insert => {
            if a > l {
                return X(Out::Panic);
            }
            m.insert(a as usize, b);
        }
        K::Remove => {
            if a >= l {
                return X(Out::Panic);
            }
            return X(Out::Val(m.remove(a as usize)));
        }
        K::Resize => m.resize(a as usize, b),
        K::Extend => m.extend(vals(b, a, n)),
        K::Append => {
            m.extend(vals(b, a, n));
            return X(Out::List(vec![0, 1, n - 1]));
        }
        K::AppendInto => {
            let mut o = vals(b, a, n);
            o.append(m);
            if c & 4 != 0 {
                // carry on with the drained one
                return X(Out::List(o));
            }
            *m = o;
            return X(Out::List(vec![0, 1, n - 1]));
        }
        K::SplitOff => {
            if a > l {
                return X(Out::Panic);
            }
            let mut r = m.split_off(a as usize);
            if b == 1 {
                std::mem::swap(m, &mut r);
            }
            return X(Out::List(r));
        }
        K::ToVec => {
            let mut r = m.clone();
            r.extend_from_slice(m);
            return X(Out::List(r));
        }
        K::Retain => {
            let seen = m.clone();
            let mut i = 0;
            m.retain(|&v| {
                i += 1;
                pred(a, i - 1, v)
            });
            return X(Out::List(seen));
        }
        K::ForEach => {
            let seen = m.clone();
            for (i, v) in m.iter_mut().enumerate() {
                *v = upd(a, i as u64, *v, n);
            }
            return X(Out::List(seen));
        }
        K::ExtendPanic => {
            let got = d.min(a);
            m.extend(vals(b, got, n));
            if d <= a {
                return X(Out::Panic);
            }
        }
        K::CollectPanic => {
            if d <= a {
                return X(Out::Panic);
            }
            *m = vals(b, a, n);
        }
        K::RetainPanic => {
            if b < l {
                return Exp::Shuffled;
            }
            return model(cfg, m, &o1(K::Retain, a));
        }
        K::ForEachPanic => {
            if b < l {
                for i in 0..b {
                    m[i as usize] = upd(a, i, m[i as usize], n);
                }
                return X(Out::Panic);
            }
            return model(cfg, m, &o1(K::ForEach, a));
        }
        K::RawSet => m[a as usize] = n - 1 - b,
        K::RawGrow => m.extend(vals(b, a, n)),
        K::LenDownUp => {
            let mut r = m[..a as usize].to_vec();
            r.extend_from_slice(m);
            return X(Out::List(r));
        }
        K::SetWord => {
            let base = a as usize * cfg.e;
            for j in 0..cfg.e {
                if base + j < m.len() {
                    m[base + j] = val(b, j as u64, n);
                }
            }
        }
    }
    X(Out::Unit)
}

/// The block made of pattern `seed`, with `junk` in the bits no element uses.
pub fn word(cfg: &Cfg, seed: u64) -> u128 {
    let mut w: u128 = 0;
    for j in 0..cfg.e {
        w |= ((cfg.n - 1 - val(seed, j as u64, cfg.n)) as u128) << (j * cfg.w);
    }
    let used = cfg.e * cfg.w;
    if seed & 1 == 1 && used < cfg.s {
        w |= (!0u128 << used) & (!0u128 >> (128 - cfg.s));
    }
    w
}

fn contents(v: &dyn Dyn) -> Vec<u64> {
    let mut r = vec![];
    v.read(1 << 22, &mut r);
    r
}
/// Shows that an emptied vector is empty and usable again.
fn reuse(o: &mut dyn Dyn, n: u64) -> Vec<u64> {
    let l = o.len() as u64;
    o.push(n - 1);
    vec![l, o.len() as u64, o.get(0).unwrap_or(12345)]
}

/// The call itself, on the real vector. May panic.
fn call(cfg: &Cfg, v: &mut Box<dyn Dyn>, op: &Op) -> Out {
    let n = cfg.n;
    let [a, b, c, d] = op.a;
    let ua = a as usize;
    match op.k {
        K::New => *v = cfg.mk.new(),
        K::Default => *v = cfg.mk.default(),
        K::WithCap => *v = cfg.mk.with_capacity(ua),
        K::FromElem => *v = cfg.mk.from_elem(a, b as usize),
        K::FromVec => *v = cfg.mk.from_vec(&vals(b, a, n)),
        K::FromSlice => *v = cfg.mk.from_slice(&vals(b, a, n)),
        K::Collect => {
            let x = vals(b, a, n);
            *v = cfg.mk.collect(Src { vals: &x, pos: 0, lo: c as usize, hi: hint_hi(d), panic_at: usize::MAX });
        }
        K::MacFill => *v = cfg.mk.mac_fill(a, b as usize),
        K::MacList => *v = cfg.mk.mac_list(b, &vals(a, LISTS[b as usize], n)),
        K::Push => v.push(a),
        K::PushN => {
            for i in 0..a {
                v.push(val(b, i, n));
            }
        }
        K::Pop => return Out::Opt(v.pop()),
        K::Get => return Out::Opt(v.get(ua)),
        K::Set => v.set(ua, b),
        K::Swap => v.swap(ua, b as usize),
        K::Truncate => v.truncate(ua),
        K::Clear => v.clear(),
        K::Reserve => v.reserve(ua),
        K::Shrink => v.shrink(),
        K::SwapRemove => return Out::Val(v.swap_remove(ua)),
        K::Insert => v.insert(ua, b),
        K::Remove => return Out::Val(v.remove(ua)),
        K::Resize => v.resize(ua, b),
        K::Extend => {
            let x = vals(b, a, n);
            v.extend(Src { vals: &x, pos: 0, lo: c as usize, hi: hint_hi(d), panic_at: usize::MAX });
        }
        K::Append => {
            let mut o = other(cfg, a, b, c);
            v.append(&mut *o);
            return Out::List(reuse(&mut *o, n));
        }
        K::AppendInto => {
            let mut o = other(cfg, a, b, c);
            o.append(&mut **v);
            if c & 4 != 0 {
                return Out::List(contents(&*o));
            }
            std::mem::swap(v, &mut o);
            return Out::List(reuse(&mut *o, n));
        }
        K::SplitOff => {
            let mut r = v.split_off(ua);
            if b == 1 {
                std::mem::swap(v, &mut r);
            }
            return Out::List(contents(&*r));
        }
        K::ToVec => {
            let mut r = v.to_vec();
            r.extend(v.clone_box().into_vec());
            return Out::List(r);
        }
        K::Retain | K::RetainPanic => {
            let at = if op.k == K::Retain { MAX } else { b };
            let mut seen = vec![];
            let mut i = 0;
            v.retain(&mut |x| {
                if i == at {
                    panic!("injected: predicate");
                }
                seen.push(x);
                i += 1;
                pred(a, i - 1, x)
            });
            return Out::List(seen);
        }
        K::ForEach | K::ForEachPanic => {
            let at = if op.k == K::ForEach { MAX } else { b };
            let mut seen = vec![];
            let mut i = 0;
            v.for_each(&mut |x| {
                if i == at {
                    panic!("injected: updater");
                }
                seen.push(*x);
                *x = upd(a, i, *x, n);
                i += 1;
            });
            return Out::List(seen);
        }
        K::CloneSwap => *v = v.clone_box(),
        K::CloneDrop => {
            let o = v.clone_box();
            return Out::List(contents(&*o));
        }
        K::CloneFrom => {
            let mut o = other(cfg, a, b, c);
            if c & 4 != 0 {
                o.clone_from(&**v);
                std::mem::swap(v, &mut o);
            } else {
                v.clone_from(&*o);
            }
            return Out::List(contents(&*o));
        }
        K::ExtendPanic => {
            let x = vals(b, a, n);
            v.extend(Src { vals: &x, pos: 0, lo: c as usize, hi: None, panic_at: d as usize });
        }
        K::CollectPanic => {
            let x = vals(b, a, n);
            *v = cfg.mk.collect(Src { vals: &x, pos: 0, lo: c as usize, hi: None, panic_at: d as usize });
        }
        K::RawSet => unsafe { v.set_raw(ua, b as usize) },
        K::RawGrow => unsafe {
            let l = v.len();
            v.reserve(ua);
            if c == 1 {
                v.set_len(l + ua);
            }
            for i in 0..ua {
                v.set_raw(l + i, (n - 1 - val(b, i as u64, n)) as usize);
            }
            if c == 0 {
                v.set_len(l + ua);
            }
        },
        K::LenDownUp => unsafe {
            let l = v.len();
            v.set_len(ua);
            let mut r = contents(&**v);
            v.set_len(l);
            r.extend(contents(&**v));
            return Out::List(r);
        },
        K::SetWord => unsafe { v.set_word(ua, word(cfg, b)) },
    }
    Out::Unit
}

/// Executes `op` on the real vector.
pub fn exec(cfg: &Cfg, v: &mut Box<dyn Dyn>, op: &Op) -> Out {
    match catch_unwind(AssertUnwindSafe(|| call(cfg, v, op))) {
        Ok(o) => o,
        Err(p) => {
            drop(p);
            Out::Panic
        }
    }
}
