//! The properties decided by exploring histories of one vector.
use crate::alpha::*;
use crate::engine::*;
use crate::ops::*;
use mccore::alloc;
use std::hash::Hasher;
use vecsut::{Dyn, DynIter};

pub fn by_id(id: &str, deep: bool) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C01" => Box::new(C01(deep)),
        "C02" => Box::new(C02(deep)),
        "C03" => Box::new(C03(deep)),
        "C04" => Box::new(C04(deep)),
        "C05" => Box::new(C05(deep)),
        "C06" => Box::new(C06(deep)),
        "C07" => Box::new(C07(deep)),
        "C08" => Box::new(C08(deep)),
        "C09" => Box::new(C09(deep)),
        "C10" => Box::new(C10(deep)),
        "C11" => Box::new(C11),
        "C12" => Box::new(C12(deep)),
        "C13" => Box::new(C13(deep)),
        _ => return None,
    })
}

fn is(o: &Op, ks: &[K]) -> bool {
    ks.contains(&o.k)
}
fn everything(j: &Job, m: &[u64], left: usize, deep: bool, out: &mut Vec<Op>) {
    let full = deep || left == 0;
    elementwise(j, m, full, out);
    positional(j, m, full, out);
    bulk(j, m, full, out);
    callbacks(j, m, full, out);
    copies(j, m, full, out);
}

// ---------------------------------------------------------------- C01
pub struct C01(bool);
const C01_OPS: &[K] = &[K::New, K::Default, K::WithCap, K::Push, K::PushN, K::Pop, K::Get, K::Set, K::Swap, K::Truncate, K::Clear, K::Reserve, K::Shrink];
impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn own(&self, op: &Op) -> bool {
        is(op, C01_OPS)
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o1(K::Push, 0), o1(K::Push, n - 1), o0(K::Pop), o0(K::Clear), o0(K::Shrink), o1(K::Reserve, 1), o1(K::Reserve, 2 * e + 1), o1(K::WithCap, e), o2(K::PushN, e, 4)]);
        if l > 0 {
            out.extend([o2(K::Set, 0, n - 1), o2(K::Set, l / 2, 0), o2(K::Set, l - 1, n / 2), o2(K::Swap, 0, l - 1), o2(K::Swap, l / 2, 0), o1(K::Truncate, l / 2), o1(K::Truncate, l / e * e), o2(K::Set, l, 0)]);
        }
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        elementwise(j, m, left == 0 || self.0, out);
    }
}

// ---------------------------------------------------------------- C02
pub struct C02(bool);
impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn own(&self, op: &Op) -> bool {
        is(op, &[K::Insert, K::Remove, K::SwapRemove])
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o2(K::Insert, l, 0), o1(K::Remove, l)]);
        if l > 0 {
            out.extend([o2(K::Insert, l - 1, n - 1), o1(K::Remove, l - 1), o1(K::SwapRemove, l / 2)]);
        }
        if l > e {
            out.extend([o2(K::Insert, e, 0), o1(K::Remove, e - 1)]);
        }
        mix(j, m, out);
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        positional(j, m, left == 0 || self.0, out);
        mix(j, m, out);
    }
}

// ---------------------------------------------------------------- C03
pub struct C03(bool);
impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn own(&self, op: &Op) -> bool {
        is(op, &[K::FromElem, K::FromVec, K::FromSlice, K::Collect, K::MacFill, K::MacList, K::Resize, K::Extend, K::Append, K::AppendInto, K::SplitOff, K::ToVec])
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o2(K::Resize, l + 5 * e + 1, 0), o2(K::Resize, l + e, n / 2), o3(K::Append, 1, 4, 0), o4(K::Extend, e, 5, 0, MAX), o2(K::SplitOff, l, 1), o4(K::Extend, 1, 5, 2, MAX)]);
        if l > e {
            out.extend([o2(K::SplitOff, e, 1), o2(K::SplitOff, e, 0), o2(K::Resize, e + 1, 0)]);
        }
        mix(j, m, out);
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        bulk(j, m, left == 0 || self.0, out);
        mix(j, m, out);
    }
}

// ---------------------------------------------------------------- C13
pub struct C13(bool);
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn own(&self, op: &Op) -> bool {
        is(op, &[K::Retain, K::ForEach])
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o1(K::Retain, 0), o1(K::Retain, 3)]);
        if l > 0 {
            out.extend([o1(K::ForEach, 16 + l / 2), o1(K::ForEach, 5)]);
        }
        let _ = (e, n);
        mix(j, m, out);
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        callbacks(j, m, left == 0 || self.0, out);
        mix(j, m, out);
    }
}

// ---------------------------------------------------------------- C10
pub struct C10(bool);
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn own(&self, op: &Op) -> bool {
        is(op, &[K::ExtendPanic, K::CollectPanic, K::RetainPanic, K::ForEachPanic]) || op.k == K::Extend && op.a[2] > op.a[0]
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o4(K::ExtendPanic, e + 1, 4, e + 1, e / 2 + 1), o4(K::ExtendPanic, 2, 5, 0, 1), o2(K::RetainPanic, 3, l / 2), o2(K::RetainPanic, 6, l), o2(K::ForEachPanic, 5, l / 2), o4(K::Extend, 1, 5, e + 2, MAX)]);
        let _ = n;
        mix(j, m, out);
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, owned: bool, out: &mut Vec<Op>) {
        // after a fault, everything else; before it, everything else
        if left > 0 || !owned || self.0 {
            faults(j, m, self.0 || left == 0 || j.profile == Profile::Small, out);
        }
        mix(j, m, out);
    }
    fn after_drop(&self) -> Result<(), String> {
        leak()
    }
}
fn leak() -> Result<(), String> {
    let s = alloc::stats();
    if s.live != 0 {
        return Err(format!("{} bytes still allocated after the vector was dropped", s.live));
    }
    Ok(())
}

// ---------------------------------------------------------------- C11
pub struct C11;
impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn own(&self, op: &Op) -> bool {
        is(op, &[K::RawSet, K::RawGrow, K::LenDownUp, K::SetWord])
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o3(K::RawGrow, e + 1, 4, 0), o3(K::RawGrow, 1, 5, 1)]);
        if l > 0 {
            out.extend([o2(K::RawSet, 0, n - 1), o2(K::RawSet, l / 2, 0), o2(K::RawSet, l - 1, n / 2), o1(K::LenDownUp, l / 2), o2(K::SetWord, 0, 5), o2(K::SetWord, (l - 1) / e, 1)]);
        }
        mix(j, m, out);
    }
    fn alphabet(&self, j: &Job, m: &[u64], _left: usize, _owned: bool, out: &mut Vec<Op>) {
        raw(j, m, out);
        mix(j, m, out);
    }
    fn probe(&self, j: &Job, st: &mut St, _path: &[Op]) -> Result<u64, String> {
        let c = &j.cfg;
        let mask = if c.w == 128 { !0 } else { (1u128 << c.w) - 1 };
        if st.v.blocks() < c.blocks(st.m.len()) {
            return Err(format!("storage() has {} blocks, {} elements need {}", st.v.blocks(), st.m.len(), c.blocks(st.m.len())));
        }
        for (i, &x) in st.m.iter().enumerate() {
            let d = unsafe { st.v.get_raw(i) } as u64;
            if d != c.n - 1 - x {
                return Err(format!("get_raw_unchecked({}) is {}, the element's discriminant is {}", i, d, c.n - 1 - x));
            }
            let w = st.v.word(i / c.e) >> (i % c.e * c.w) & mask;
            if w != d as u128 {
                return Err(format!("bits {}.. of block {} hold {}, element {} has discriminant {}", i % c.e * c.w, i / c.e, w, i, d));
            }
        }
        Ok(1)
    }
}

// ---------------------------------------------------------------- C04
pub struct C04(bool);
impl C04 {
    fn queries(&self, st: &St, n: u64) -> Vec<u64> {
        let m = &st.m;
        let mut q = vec![0, n - 1, 1 % n, n / 2];
        for i in [0, m.len() / 2, m.len().wrapping_sub(1)] {
            if let Some(&x) = m.get(i) {
                q.push(x);
                // values one bit away, which bit tricks confuse first
                for b in [0, 1, 7, 8, 15, 31, 62] {
                    let d = (n - 1 - x) ^ (1 << b);
                    if d < n {
                        q.push(n - 1 - d);
                    }
                }
                q.push((x + 1) % n);
            }
        }
        dedup(q)
    }
}
impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn own(&self, _op: &Op) -> bool {
        false
    }
    fn content(&self) -> bool {
        false
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o2(K::Resize, l + e, 0), o2(K::Resize, l + e, n - 1), o2(K::Resize, l / 2 + 5 * e + 1, 1 % n)]);
        if l > 0 {
            out.extend([o2(K::Set, 0, 0), o2(K::Set, l - 1, n - 1), o1(K::ForEach, 3)]);
        }
        mix(j, m, out);
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        if j.profile == Profile::Edge && !self.0 {
            mix(j, m, out);
            positional(j, m, false, out);
            let l = m.len() as u64;
            for i in pos(j, l) {
                for v in two(j) {
                    out.push(o2(K::Set, i, v));
                }
                out.push(o1(K::Truncate, i));
                out.push(o2(K::SplitOff, i, 1));
            }
            if left == 0 {
                bulk(j, m, false, out);
            }
        } else {
            everything(j, m, left, self.0, out);
        }
    }
    fn probe(&self, j: &Job, st: &mut St, _path: &[Op]) -> Result<u64, String> {
        let q = if j.profile == Profile::Small && j.cfg.n <= 16 { (0..j.cfg.n).collect() } else { self.queries(st, j.cfg.n) };
        for &x in &q {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (st.v.any(x), st.v.all(x))));
            let want = (st.m.contains(&x), st.m.iter().all(|&y| y == x));
            match r {
                Err(_) => return Err(format!("any/all({}) panicked: {}", x, mccore::crash::last_panic())),
                Ok((a, _)) if a != want.0 => return Err(format!("any({}) is {} on {:?}", x, a, brief(&st.m))),
                Ok((_, a)) if a != want.1 => return Err(format!("all({}) is {} on {:?}", x, a, brief(&st.m))),
                Ok(_) => (),
            }
        }
        Ok(q.len() as u64)
    }
}
pub fn brief(m: &[u64]) -> String {
    if m.len() > 40 {
        format!("{} elements starting {:?}", m.len(), &m[..40])
    } else {
        format!("{:?}", m)
    }
}

// ---------------------------------------------------------------- C05
pub struct C05(bool);
/// Records exactly what a `Hash` implementation feeds.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hash(v: &dyn Dyn) -> Vec<u8> {
    let mut r = Rec(vec![]);
    v.hash(&mut r);
    r.0
}
fn key(v: &dyn Dyn) -> Vec<u8> {
    let mut k = vec![];
    v.key(&mut k);
    k
}
fn read(v: &dyn Dyn) -> Vec<u64> {
    let mut r = vec![];
    v.read(1 << 22, &mut r);
    r
}
impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn own(&self, op: &Op) -> bool {
        is(op, &[K::CloneSwap, K::CloneDrop, K::CloneFrom])
    }
    fn content(&self) -> bool {
        true
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        copies(j, m, left == 0 || self.0, out);
        mix(j, m, out);
        if self.0 {
            elementwise(j, m, left == 0, out);
        }
    }
    fn probe(&self, j: &Job, st: &mut St, _path: &[Op]) -> Result<u64, String> {
        let c = &j.cfg;
        let n = c.n;
        let l = st.m.len() as u64;
        let canon = c.mk.from_vec(&st.m);
        if read(&*canon) != st.m {
            return Ok(0);
        }
        let me = &st.v;
        if !me.eq(&*canon) || !canon.eq(&**me) || me.ne(&*canon) || canon.ne(&**me) || !me.eq(&**me) {
            return Err(format!("not equal to a freshly built vector with the same elements {}", brief(&st.m)));
        }
        let h = hash(&**me);
        if h != hash(&*canon) {
            return Err(format!("hashes differently from a freshly built vector with the same elements {}", brief(&st.m)));
        }
        let d = me.debug(false);
        let want = format!("{:?}", st.m.iter().map(|x| VDbg(*x)).collect::<Vec<_>>());
        if d != want {
            return Err(format!("debug output {:.200} should be {:.200}", d, want));
        }
        if l <= 8 {
            let want = format!("{:#?}", st.m.iter().map(|x| VDbg(*x)).collect::<Vec<_>>());
            if me.debug(true) != want {
                return Err("alternate debug output differs from the list's".into());
            }
        }
        // vectors that differ somewhere are not equal
        let mut k = 0;
        for i in pos(j, l) {
            for x in [(st.m[i as usize] + 1) % n, n - 1 - st.m[i as usize]] {
                if x == st.m[i as usize] {
                    continue;
                }
                let mut o = c.mk.from_vec(&st.m);
                o.set(i as usize, x);
                if o.get(i as usize) != Some(x) {
                    continue;
                }
                if me.eq(&*o) || o.eq(&**me) || !me.ne(&*o) {
                    return Err(format!("equal to a vector whose element {} differs ({})", i, brief(&st.m)));
                }
                k += 1;
            }
        }
        let mut t = st.m.clone();
        t.push(n - 1);
        let o = c.mk.from_vec(&t);
        if o.len() == t.len() && (me.eq(&*o) || o.eq(&**me)) {
            return Err(format!("equal to a longer vector ({})", brief(&st.m)));
        }
        if l > 0 {
            let o = c.mk.from_vec(&st.m[..l as usize - 1]);
            if o.len() as u64 == l - 1 && (me.eq(&*o) || o.eq(&**me)) {
                return Err(format!("equal to a shorter vector ({})", brief(&st.m)));
            }
        }
        // clone: equal, independent both ways, usable for anything
        let before = key(&**me);
        let mut ops = vec![];
        mix(j, &st.m, &mut ops);
        if j.profile != Profile::Small && !self.0 {
            let q = ops.len();
            let r = (before.len() + l as usize) % 3;
            ops = ops.into_iter().enumerate().filter(|(i, _)| i % 3 == r || *i + 3 > q).map(|x| x.1).collect();
        }
        for op in ops {
            if skipped(op.k) {
                continue;
            }
            let mut cl = st.v.clone_box();
            if read(&*cl) != st.m || !cl.eq(&*st.v) {
                return Err(format!("clone differs from its original ({})", brief(&st.m)));
            }
            let mut m = st.m.clone();
            let e = model(c, &mut m, &op);
            let out = exec(c, &mut cl, &op);
            if key(&*st.v) != before {
                return Err(format!("{} on a clone changed the original ({})", op.text(), brief(&st.m)));
            }
            // does the same call work on the original's equal, freshly built?
            if e != Exp::Out(out) || read(&*cl) != m {
                let mut o = c.mk.from_vec(&st.m);
                let mut m2 = st.m.clone();
                let e2 = model(c, &mut m2, &op);
                let out2 = exec(c, &mut o, &op);
                if e2 == Exp::Out(out2) && read(&*o) == m2 {
                    return Err(format!("{} works on a vector of these elements but not on this clone ({})", op.text(), brief(&st.m)));
                }
            }
            k += 1;
        }
        // changing the original leaves the clone alone
        let cl = st.v.clone_box();
        let kc = key(&*cl);
        for i in 0..l.min(3) {
            st.v.set(i as usize, n - 1 - st.m[i as usize]);
        }
        st.v.push(0);
        st.v.clear();
        if key(&*cl) != kc || read(&*cl) != st.m {
            return Err(format!("changing the original changed its clone ({})", brief(&st.m)));
        }
        Ok(k + 6)
    }
}
struct VDbg(u64);
impl std::fmt::Debug for VDbg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.debug_tuple("V").field(&self.0).finish()
    }
}

// ---------------------------------------------------------------- C06
pub struct C06(bool);
#[derive(Clone, Copy, Debug)]
enum Step {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
}
/// Finishers of `DynIter::finish` on the remaining elements `r`.
fn finish(how: u8, r: &[u64]) -> Vec<u64> {
    match how {
        0 => vec![r.len() as u64],
        1 => r.last().copied().into_iter().collect(),
        2 | 5 => r.to_vec(),
        3 | 4 => r.iter().rev().copied().collect(),
        6 => r.iter().step_by(2).copied().collect(),
        7 => r.iter().skip(1).copied().collect(),
        9 => r.to_vec(),
        10 => r.iter().copied().chain([0, 0]).collect(),
        11 => r.iter().rev().copied().chain([0, 0]).collect(),
        12 => {
            let half = r.len() / 2;
            let mut a = vec![if half < r.len() { half as u64 } else { MAX }];
            let r = &r[(half + 1).min(r.len())..];
            a.push(r.len() as u64);
            let half = r.len() / 2;
            // the index from the front of what is left
            if half < r.len() {
                let at = r.len() - 1 - half;
                a.push(at as u64);
                a.extend(&r[..at]);
            } else {
                a.push(MAX);
            }
            a
        }
        13 => {
            let two = r.len() >= 2;
            let mut a: Vec<u64> = r[..r.len().min(2)].to_vec();
            a.push(!two as u64);
            a.extend(&r[r.len().min(2)..]);
            a.extend([0, 0]);
            a
        }
        14 => {
            let mut a: Vec<u64> = r[..r.len().min(1)].to_vec();
            a.push(r.iter().skip(1).copied().max().unwrap_or(0));
            a
        }
        15 => r.iter().copied().min().into_iter().collect(),
        16 => r.iter().filter(|x| **x % 2 == 0).chain(r.iter().filter(|x| **x % 2 != 0)).copied().collect(),
        17 => r.iter().zip(1..4u64).map(|(v, k)| v ^ k << 60).collect(),
        _ => r.iter().enumerate().map(|(i, v)| (i as u64) << 32 ^ v).collect(),
    }
}
impl C06 {
    fn walk(&self, st: &St, kind: u8, path: &mut Vec<Step>, depth: usize, count: &mut u64, hows: &[u8]) -> Result<(), String> {
        // replay the steps on a fresh iterator, checking the last one
        let m = &st.m;
        let fresh = || -> Box<dyn DynIter + '_> {
            match kind {
                0 => st.v.iter(),
                1 => st.v.ref_iter(),
                _ => st.v.clone_box().into_iter(),
            }
        };
        let (mut a, mut b) = (0usize, m.len());
        let describe = |path: &[Step]| format!("{} over {}: {:?}", ["iter()", "&v", "into_iter()"][kind as usize], brief(m), path);
        let run = |a: &mut usize, b: &mut usize| -> Result<Box<dyn DynIter + '_>, String> {
            let mut it = fresh();
            *a = 0;
            *b = m.len();
            for (i, s) in path.iter().enumerate() {
                let (got, want) = match *s {
                    Step::Next => (it.next(), nth(m, a, b, 0)),
                    Step::Back => (it.next_back(), nth_back(m, a, b, 0)),
                    Step::Nth(k) => (it.nth(k), nth(m, a, b, k)),
                    Step::NthBack(k) => (it.nth_back(k), nth_back(m, a, b, k)),
                };
                if got != want {
                    return Err(format!("{}: step {} gives {:?}, should be {:?}", describe(path), i, got, want));
                }
            }
            Ok(it)
        };
        let guard = |r: std::thread::Result<Result<(), String>>, path: &[Step]| match r {
            Ok(x) => x,
            Err(_) => Err(format!("{}: panicked: {}", describe(path), mccore::crash::last_panic())),
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
            let it = run(&mut a, &mut b)?;
            let left = b - a;
            if it.size_hint() != (left, Some(left)) {
                return Err(format!("{}: size_hint() is {:?}, {} to come", describe(path), it.size_hint(), left));
            }
            if it.len() != left {
                return Err(format!("{}: len() is {}, {} to come", describe(path), it.len(), left));
            }
            Ok(())
        }));
        *count += 1;
        guard(r, path)?;
        for &how in hows {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
                let it = run(&mut a, &mut b)?;
                let got = it.finish(how);
                let want = finish(how, &m[a..b]);
                if got != want {
                    return Err(format!("{}: finisher {} gives {}, should be {}", describe(path), HOW[how as usize], brief(&got), brief(&want)));
                }
                Ok(())
            }));
            *count += 1;
            guard(r, path)?;
        }
        if depth > 0 {
            let left = b - a;
            let mut steps = vec![Step::Next, Step::Back];
            for k in dedup(vec![0, 1, left.wrapping_sub(1) as u64, left as u64, MAX]) {
                steps.push(Step::Nth(k as usize));
                steps.push(Step::NthBack(k as usize));
            }
            for s in steps {
                path.push(s);
                self.walk(st, kind, path, depth - 1, count, hows)?;
                path.pop();
            }
        }
        Ok(())
    }
}
const HOW: [&str; 18] = ["count", "last", "fold", "rfold", "rev().collect", "for loop", "step_by(2)", "skip(1)", "enumerate", "for_each", "find", "rfind", "position, rposition", "all, any", "max_by_key", "min", "partition", "zip"];
fn nth(m: &[u64], a: &mut usize, b: &usize, k: usize) -> Option<u64> {
    if k < *b - *a {
        *a += k + 1;
        Some(m[*a - 1])
    } else {
        *a = *b;
        None
    }
}
fn nth_back(m: &[u64], a: &usize, b: &mut usize, k: usize) -> Option<u64> {
    if k < *b - *a {
        *b -= k + 1;
        Some(m[*b])
    } else {
        *b = *a;
        None
    }
}
impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn own(&self, _op: &Op) -> bool {
        false
    }
    fn content(&self) -> bool {
        false
    }
    fn alphabet(&self, j: &Job, m: &[u64], _left: usize, _owned: bool, out: &mut Vec<Op>) {
        mix(j, m, out);
    }
    fn probe(&self, j: &Job, st: &mut St, path: &[Op]) -> Result<u64, String> {
        let mut n = 0;
        let deep = match (j.profile, path.len()) {
            // contents beyond the first states of each length add nothing
            (Profile::Small, 1..=4) => 3 + self.0 as usize,
            (Profile::Small, _) => 1 + self.0 as usize,
            (Profile::Long, _) => 1,
            (_, 1) => 2 + self.0 as usize,
            _ => 1 + self.0 as usize,
        };
        for kind in 0..3 {
            self.walk(st, kind, &mut vec![], deep, &mut n, &[0, 1, 2, 3, 5, 6])?;
            if j.profile == Profile::Small {
                self.walk(st, kind, &mut vec![], 1, &mut n, &[4, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17])?;
            } else if j.profile != Profile::Long {
                self.walk(st, kind, &mut vec![], 0, &mut n, &[4, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17])?;
            }
        }
        Ok(n)
    }
}

// ---------------------------------------------------------------- C07
pub struct C07(bool);
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn own(&self, _op: &Op) -> bool {
        false
    }
    fn content(&self) -> bool {
        false
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o1(K::Reserve, 1), o1(K::Reserve, 5 * e), o1(K::WithCap, 2 * e), o2(K::Resize, l + 5 * e + 1, n - 1), o3(K::Append, 3 * e, 4, 0), o4(K::Extend, e, 5, 0, MAX), o3(K::RawGrow, 2, 4, 0)]);
        if l > 0 {
            out.extend([o2(K::SplitOff, l - 1, 1)]);
        }
        mix(j, m, out);
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        let e = j.cfg.e as u64;
        let n = j.cfg.n;
        if left == 0 || self.0 || j.profile == Profile::Small {
            everything(j, m, left, self.0, out);
        } else {
            mix(j, m, out);
        }
        if j.profile == Profile::Edge && m.len() as u64 <= 8 * e {
            let l = m.len() as u64;
            out.extend([o2(K::Resize, l + 64 * e + 1, n - 1), o2(K::FromElem, 0, 64 * e), o4(K::Extend, 64 * e, 1, 64 * e, MAX), o4(K::Extend, 64 * e, 1, 0, MAX)]);
            out.extend([o1(K::Reserve, 64 * e), o2(K::PushN, 64 * e, 1), o3(K::Append, 64 * e, 1, 0), o1(K::WithCap, 64 * e), o2(K::FromVec, 64 * e + 1, 0)]);
        }
        out.extend([o0(K::Shrink)]);
    }
    fn check(&self, j: &Job, st: &mut St, _pre: &Pre, _path: &[Op], _exp: &Exp, _out: &Out) -> Result<(), String> {
        let c = &j.cfg;
        let s = alloc::stats();
        let bytes = c.s / 8;
        // at most 4 times the blocks needed at the worst moment of the
        // history, and a constant
        let most = 4 * c.blocks(st.need) * bytes + 256;
        if s.peak > most {
            return Err(format!("{} bytes of heap held at once; the most its contents ever needed is {} blocks of {} bytes", s.peak, c.blocks(st.need), bytes));
        }
        let vneed = c.blocks(st.need) * 4 + 16;
        if st.v.cap_blocks() > vneed {
            return Err(format!("capacity of {} blocks; the most its contents ever needed is {} blocks", st.v.cap_blocks(), c.blocks(st.need)));
        }
        Ok(())
    }
    fn probe_always(&self) -> bool {
        false
    }
    fn probe(&self, j: &Job, st: &mut St, _path: &[Op]) -> Result<u64, String> {
        let c = &j.cfg;
        let bytes = c.s / 8;
        let l = st.v.len();
        st.v.shrink();
        let want = c.blocks(l);
        if st.v.blocks() != want {
            return Err(format!("after shrinking, {} elements of {} bits occupy {} blocks of {} bits, should be {}", l, c.w, st.v.blocks(), c.s, want));
        }
        let heap = if c.mk.small() && want <= 4 { 0 } else { want * bytes };
        let s = alloc::stats();
        if s.live != heap {
            return Err(format!("after shrinking, {} elements of {} bits use {} bytes of heap, should be {}", l, c.w, s.live, heap));
        }
        Ok(1)
    }
}

// ---------------------------------------------------------------- C08
pub struct C08(bool);
impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn own(&self, _op: &Op) -> bool {
        false
    }
    fn content(&self) -> bool {
        false
    }
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        let (l, e, n) = (m.len() as u64, j.cfg.e as u64, j.cfg.n);
        out.extend([o1(K::Reserve, 1), o1(K::Reserve, 5 * e), o1(K::WithCap, 2 * e), o2(K::Resize, l + 5 * e + 1, n - 1), o3(K::Append, 3 * e, 4, 0), o4(K::Extend, e, 5, 0, MAX), o3(K::RawGrow, 2, 4, 0)]);
        if l > 0 {
            out.extend([o2(K::SplitOff, l - 1, 1)]);
        }
        mix(j, m, out);
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        if left == 0 || self.0 || j.profile == Profile::Small {
            everything(j, m, left, self.0, out);
        } else {
            mix(j, m, out);
            let e = j.cfg.e as u64;
            for r in dedup(vec![0, 1, e - 1, e, 2 * e + 1, 4 * e, 6 * e + 1]) {
                out.push(o1(K::Reserve, r));
                out.push(o1(K::WithCap, r));
            }
            out.push(o0(K::Shrink));
            for i in pos(j, m.len() as u64) {
                out.push(o1(K::Truncate, i));
            }
        }
    }
    fn check(&self, j: &Job, st: &mut St, pre: &Pre, path: &[Op], exp: &Exp, out: &Out) -> Result<(), String> {
        let c = &j.cfg;
        let op = path.last().unwrap();
        if *exp != Exp::Out(out.clone()) || *out == Out::Panic || st.v.len() != st.m.len() {
            return Ok(());
        }
        let calls = alloc::stats().calls;
        let cap = st.v.capacity();
        let l = st.v.len();
        if cap < l {
            return Err(format!("capacity() is {} at length {}", cap, l));
        }
        match op.k {
            K::WithCap | K::Reserve => {
                let want = if op.k == K::WithCap { op.a[0] as usize } else { l + op.a[0] as usize };
                if cap < want {
                    return Err(format!("after {}, capacity() is {} at length {}", op.text(), cap, l));
                }
                if op.k == K::Reserve && want <= pre.cap && (calls != pre.calls || st.v.ptr() != pre.ptr) {
                    return Err(format!("{} at length {} requested memory although the capacity was {}", op.text(), l, pre.cap));
                }
            }
            K::Push | K::PushN | K::Insert | K::Resize | K::Extend | K::Append | K::RawGrow => {
                // what the other vector of an append requests is its own
                let own = if op.k == K::Append { pre.calls } else { calls };
                if wants(op, pre.len).max(l) <= pre.cap && (own != pre.calls || st.v.ptr() != pre.ptr) {
                    return Err(format!("{} from length {} to {} {} although the capacity was {}", op.text(), pre.len, l, if own != pre.calls { "requested memory" } else { "moved the storage" }, pre.cap));
                }
            }
            _ => (),
        }
        let removes = match op.k {
            K::Pop | K::Truncate | K::Clear | K::SwapRemove | K::Remove | K::Retain => true,
            K::Resize => l <= pre.len,
            K::SplitOff => op.a[1] == 0,
            _ => false,
        };
        if removes && cap < pre.cap {
            return Err(format!("{} lowered the capacity from {} to {}", op.text(), pre.cap, cap));
        }
        if c.mk.small() {
            // `need` counts the other vector too, so judge each call alone
            let mut most = 0;
            let mut l = 0;
            let mut m = vec![];
            for o in path {
                most = most.max(wants(o, l));
                if matches!(o.k, K::Append | K::AppendInto | K::CloneFrom) {
                    most = most.max(o.a[0] as usize + 3 * c.e + 2 + l);
                }
                model(c, &mut m, o);
                l = m.len();
                most = most.max(l);
            }
            if most <= 4 * c.e && calls != pre.base {
                return Err(format!("the small vector used the heap although at most {} of {} inline elements were ever asked for", most, 4 * c.e));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C09
pub struct C09(bool);
impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn own(&self, _op: &Op) -> bool {
        true
    }
    fn content(&self) -> bool {
        false
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        if left == 0 || self.0 || j.profile == Profile::Small {
            everything(j, m, 1, self.0, out);
            if j.profile == Profile::Edge || m.len() <= 2 {
                faults(j, m, self.0, out);
            }
        } else {
            mix(j, m, out);
        }
    }
    fn check(&self, j: &Job, st: &mut St, _pre: &Pre, path: &[Op], _exp: &Exp, out: &Out) -> Result<(), String> {
        let c = &j.cfg;
        let op = path.last().unwrap();
        if let Some(d) = st.bad {
            return Err(format!("{} made the vector decode discriminant {} of a type with {} variants", op.text(), d, c.n));
        }
        let l = st.v.len();
        if st.v.blocks() < c.blocks(l) {
            return Err(format!("after {}, {} elements need {} blocks but the storage has {}", op.text(), l, c.blocks(l), st.v.blocks()));
        }
        // the same history in memory filled with something else
        let old = alloc::FRESH.with(|f| f.replace(0x58));
        let mut s2 = fresh(c);
        for o in &path[..path.len() - 1] {
            let _ = exec(c, &mut s2.v, o);
        }
        let out2 = exec(c, &mut s2.v, op);
        alloc::FRESH.with(|f| f.set(old));
        if out2 != *out || key(&*s2.v) != key(&*st.v) {
            return Err(format!("{} depends on uninitialised memory: {} and {}", op.text(), show(out), show(&out2)));
        }
        Ok(())
    }
    fn probe(&self, j: &Job, st: &mut St, _path: &[Op]) -> Result<u64, String> {
        // every read-only safe call, for stray accesses
        let n = j.cfg.n;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for x in [0, n - 1, n / 2] {
                let _ = (st.v.any(x), st.v.all(x));
            }
            let _ = st.v.to_vec();
            let _ = hash(&*st.v);
            let o = st.v.clone_box();
            let _ = (st.v.eq(&*o), o.debug(false).len());
            let mut it = o.into_iter();
            let _ = (it.nth(1), it.next_back(), it.nth(usize::MAX), it.next(), it.next_back());
            let mut it = st.v.iter();
            let _ = (it.next_back(), it.nth_back(1), it.nth(usize::MAX), it.next(), it.next_back());
            drop(it);
            while st.v.pop().is_some() {}
            st.v.push(0);
        }));
        if r.is_err() {
            if let Some(d) = vecsut::BAD_DISCR.get() {
                return Err(format!("reading the vector decoded discriminant {} of a type with {} variants", d, n));
            }
        }
        Ok(1)
    }
    fn after_drop(&self) -> Result<(), String> {
        leak()
    }
}

// ---------------------------------------------------------------- C12
pub struct C12(bool);
impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn own(&self, _op: &Op) -> bool {
        true
    }
    fn content(&self) -> bool {
        false
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        if left == 0 || self.0 || j.profile == Profile::Small {
            everything(j, m, 1, self.0, out);
        } else {
            mix(j, m, out);
        }
    }
    fn check(&self, j: &Job, st: &mut St, _pre: &Pre, path: &[Op], _exp: &Exp, out: &Out) -> Result<(), String> {
        let n = j.cfg.n;
        let observe = |v: &Box<dyn Dyn>| -> (usize, Vec<u64>, Vec<bool>, Vec<u64>, Vec<u64>) {
            let c = read(&**v);
            let q = vec![v.any(0), v.all(0), v.any(n - 1), v.all(n - 1), v.any(n / 2), v.is_empty(), v.get(v.len()).is_none(), v.get(usize::MAX).is_none()];
            let it = v.iter().finish(5);
            let mut back = vec![];
            let mut i = v.ref_iter();
            if let Some(x) = i.nth(1) {
                back.push(x);
            }
            back.extend(i.finish(3));
            (v.len(), c, q, it, back)
        };
        let safe = |v: &Box<dyn Dyn>| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observe(v))).ok();
        let mine = safe(&st.v);
        for o in &j.others {
            let mut v = o.mk.new();
            let mut out2 = Out::Unit;
            for op in path {
                out2 = exec(o, &mut v, op);
            }
            if out2 != *out {
                return Err(format!("{} gives {} on {} but {} on {}", path.last().unwrap().text(), show(out), j.cfg.name(), show(&out2), o.name()));
            }
            let theirs = safe(&v);
            if mine != theirs {
                return Err(format!("after {}, {} and {} differ: {} / {}", path.last().unwrap().text(), j.cfg.name(), o.name(), brief_obs(&mine), brief_obs(&theirs)));
            }
        }
        Ok(())
    }
}
type Obs = Option<(usize, Vec<u64>, Vec<bool>, Vec<u64>, Vec<u64>)>;
fn brief_obs(o: &Obs) -> String {
    match o {
        None => "panicked".into(),
        Some(o) => format!("len {}, {}, queries {:?}", o.0, brief(&o.1), o.2),
    }
}
