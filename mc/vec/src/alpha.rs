//! Which calls are tried in which state.
use crate::engine::{Job, Profile};
use crate::ops::*;

pub fn dedup(mut v: Vec<u64>) -> Vec<u64> {
    v.sort();
    v.dedup();
    v
}

/// Interesting positions `< l`.
pub fn pos(j: &Job, l: u64) -> Vec<u64> {
    let mut v = vec![];
    match j.profile {
        Profile::Small => v.extend(0..l),
        Profile::Long | Profile::Values => v.extend([0, l / 2, l.wrapping_sub(1)]),
        Profile::Deep => v.extend([0, j.cfg.e as u64, l / 2, l.wrapping_sub(1)]),
        Profile::Mid => v.extend([0, 1, 2, j.cfg.e as u64 - 1, j.cfg.e as u64 + 1, l / 2, l.wrapping_sub(2), l.wrapping_sub(1)]),
        Profile::Wide => {
            let e = j.cfg.e as u64;
            for b in 0..=l / e {
                v.extend([b * e, b * e + e / 2, b * e + e - 1]);
            }
        }
        Profile::Edge => {
            v.extend([0, 1, l / 2, l.wrapping_sub(2), l.wrapping_sub(1)]);
            for &e in &j.bounds {
                let e = e as u64;
                v.extend([e.wrapping_sub(1), e, 2 * e - 1, 2 * e]);
                if l > 0 {
                    let b = (l - 1) / e * e;
                    v.extend([b.wrapping_sub(1), b]);
                }
            }
        }
    }
    v.retain(|&x| x < l);
    dedup(v)
}
/// Fewer positions.
pub fn few(j: &Job, l: u64) -> Vec<u64> {
    let mut v = vec![];
    if j.profile == Profile::Small {
        v.extend(0..l);
    } else {
        v.extend([0, l / 2, l.wrapping_sub(1)]);
        if j.profile == Profile::Edge {
            for &e in &j.bounds {
                v.push(e as u64);
            }
        }
        if j.profile == Profile::Wide {
            for k in [3, 7, 8, 15, 16, 31] {
                v.push(k * j.cfg.e as u64);
            }
        }
    }
    v.retain(|&x| x < l);
    dedup(v)
}
/// Positions at and past the end.
pub fn over(j: &Job, l: u64) -> Vec<u64> {
    let mut v = vec![l, l + 1, MAX];
    for &e in &j.bounds {
        let e = e as u64;
        // the first slot of the next block, and the last slot of this one
        v.extend([l.div_ceil(e) * e, (l / e + 1) * e - 1]);
    }
    v.retain(|&x| x >= l);
    dedup(v)
}
pub fn values(j: &Job) -> Vec<u64> {
    let n = j.cfg.n;
    match j.profile {
        Profile::Small => dedup(vec![0, n - 1]),
        _ => dedup(vec![0, n - 1, 1 % n, n / 2]),
    }
}
/// The content pattern for added elements: two values only where states have
/// to be finite.
pub fn sd(j: &Job) -> u64 {
    if j.profile == Profile::Small {
        6
    } else {
        4
    }
}
/// Two values that differ in every bit of the element.
pub fn two(j: &Job) -> [u64; 2] {
    [0, j.cfg.n - 1]
}
/// One value, alternating by position so that all occur.
pub fn one(j: &Job, i: u64) -> u64 {
    let n = j.cfg.n;
    match i % 3 {
        0 => 0,
        1 => n - 1,
        _ => n / 2,
    }
}
/// Interesting element counts.
pub fn counts(j: &Job) -> Vec<u64> {
    let mut v = vec![0, 1];
    for &e in &j.bounds {
        let e = e as u64;
        match j.profile {
            Profile::Small => v.extend([2, e, e + 1]),
            Profile::Long => v.extend([e, 5 * e, 257, 1025, 5003, 70001]),
            Profile::Values | Profile::Deep => v.push(e),
            Profile::Mid => v.extend([5 * e, 40 * e + 1]),
            Profile::Wide => v.extend([e + 1, 8 * e, 9 * e + 1, 17 * e]),
            Profile::Edge => v.extend([e - 1, e, e + 1, 2 * e, 3 * e + 1]),
        }
    }
    dedup(v)
}
/// Interesting lengths to start from.
pub fn lens(j: &Job) -> Vec<u64> {
    let mut v = vec![0, 1, 2];
    for &e in &j.bounds {
        let e = e as u64;
        v.extend([e.wrapping_sub(1), e, e + 1, 2 * e - 1, 2 * e, 2 * e + 1, 3 * e, 4 * e, 4 * e + 1, 5 * e + 1]);
    }
    dedup(v)
}

/// Start histories for `Edge` jobs. `pure`: element-wise calls only.
pub fn starts(j: &Job, pure: bool, deep: bool) -> Vec<Vec<Op>> {
    let mut r = vec![vec![o0(K::New)]];
    let e = j.cfg.e as u64;
    let n = j.cfg.n;
    let seeds: &[u64] = if deep { &[4, 5, 1] } else { &[4] };
    for &s in seeds {
        for l in lens(j) {
            if l == 0 {
                r.push(vec![o1(K::WithCap, 2 * e)]);
                // empty, with a block full of leftovers
                r.push(vec![o2(K::PushN, e + 1, s), o0(K::Clear)]);
                continue;
            }
            if pure {
                r.push(vec![o2(K::PushN, l, s)]);
            } else {
                r.push(vec![o2(K::FromVec, l, s)]);
            }
            // leftovers beyond the length, in and past the last block
            r.push(vec![o2(K::PushN, l + e + 1, 5), o1(K::Truncate, l)]);
            if deep {
                r.push(vec![o2(K::PushN, l, s), o1(K::Reserve, 2 * e + 1)]);
                r.push(vec![o1(K::WithCap, l + e), o2(K::PushN, l + 1, s), o0(K::Pop), o0(K::Shrink)]);
            }
            if !pure {
                // unused high bits that are not zero
                r.push(vec![o2(K::FromVec, l - 1, 4), o2(K::Insert, 0, 0)]);
                if deep {
                    r.push(vec![o2(K::FromElem, n - 1, l)]);
                    r.push(vec![o2(K::FromVec, l + 1, 5), o1(K::Remove, 0)]);
                }
            }
        }
    }
    r
}

/// Element-wise calls.
pub fn elementwise(j: &Job, m: &[u64], full: bool, out: &mut Vec<Op>) {
    let l = m.len() as u64;
    let e = j.cfg.e as u64;
    for v in values(j) {
        out.push(o1(K::Push, v));
    }
    out.push(o0(K::Pop));
    for i in pos(j, l) {
        if full || j.profile == Profile::Small {
            for v in two(j) {
                out.push(o2(K::Set, i, v));
            }
        } else {
            out.push(o2(K::Set, i, one(j, i)));
        }
    }
    let f = few(j, l);
    for &a in &f {
        for &b in &f {
            if a <= b {
                out.push(o2(K::Swap, a, b));
            }
        }
    }
    if l >= 2 {
        out.push(o2(K::Swap, l - 1, 0));
    }
    for i in over(j, l) {
        out.push(o1(K::Get, i));
        out.push(o2(K::Set, i, one(j, i)));
        out.push(o2(K::Swap, i, 0));
        out.push(o2(K::Swap, 0, i));
        out.push(o1(K::Truncate, i));
    }
    for i in pos(j, l) {
        out.push(o1(K::Get, i));
        out.push(o1(K::Truncate, i));
    }
    out.push(o0(K::Clear));
    out.push(o0(K::Shrink));
    for r in dedup(vec![0, 1, e, 2 * e + 1]) {
        out.push(o1(K::Reserve, r));
        if full {
            out.push(o1(K::WithCap, r));
        }
    }
    if l > 0 {
        out.push(o1(K::Reserve, MAX));
    }
    out.push(o0(K::Default));
    if j.profile == Profile::Edge {
        out.push(o2(K::PushN, e, 4));
        if full {
            out.push(o2(K::PushN, e + 1, 5));
        }
    }
}

/// One or two of every call, to mix with a property's own calls.
pub fn mix(j: &Job, m: &[u64], out: &mut Vec<Op>) {
    let l = m.len() as u64;
    let e = j.cfg.e as u64;
    let n = j.cfg.n;
    out.extend([o1(K::Push, 0), o1(K::Push, n - 1), o0(K::Pop), o0(K::Clear), o0(K::Shrink), o1(K::Reserve, e + 1), o0(K::CloneSwap)]);
    if l > 0 {
        out.extend([o2(K::Set, l / 2, n - 1), o2(K::Swap, 0, l - 1), o1(K::Truncate, l / 2), o1(K::Truncate, l - 1), o1(K::Truncate, l / e * e)]);
        out.extend([o2(K::Insert, 0, 0), o2(K::Insert, l / 2, n - 1), o1(K::Remove, 0), o1(K::Remove, l / 2), o1(K::SwapRemove, 0)]);
        out.extend([o2(K::SplitOff, l / 2, 0), o2(K::SplitOff, l / 2, 1), o1(K::Retain, 2), o1(K::Retain, 6), o1(K::ForEach, 1)]);
    }
    out.extend([o4(K::Extend, e + 1, sd(j), e + 1, e + 1), o3(K::Append, e, sd(j), 1), o3(K::AppendInto, e, 5, 0), o2(K::Resize, l + 1, n - 1), o3(K::CloneFrom, l / 2, 5, 1)]);
    if j.profile == Profile::Edge {
        out.extend([o2(K::Resize, l + 5 * e + 1, 1 % n), o3(K::AppendInto, 1, 5, 1)]);
    }
}

pub fn positional(j: &Job, m: &[u64], full: bool, out: &mut Vec<Op>) {
    let l = m.len() as u64;
    for i in pos(j, l) {
        if full || j.profile == Profile::Small {
            for v in two(j) {
                out.push(o2(K::Insert, i, v));
            }
        } else {
            out.push(o2(K::Insert, i, one(j, i)));
        }
        out.push(o1(K::Remove, i));
        out.push(o1(K::SwapRemove, i));
    }
    for v in two(j) {
        out.push(o2(K::Insert, l, v));
    }
    for i in over(j, l) {
        if i > l {
            out.push(o2(K::Insert, i, one(j, i)));
        }
        out.push(o1(K::Remove, i));
        out.push(o1(K::SwapRemove, i));
    }
}

pub fn bulk(j: &Job, m: &[u64], full: bool, out: &mut Vec<Op>) {
    let l = m.len() as u64;
    let e = j.cfg.e as u64;
    let n = j.cfg.n;
    for c in counts(j) {
        // size hints: exact, none, loose, too large, too small
        out.push(o4(K::Extend, c, sd(j), c, c));
        if full || c == e + 1 || c == 1 {
            out.push(o4(K::Extend, c, 5, 0, MAX));
            out.push(o4(K::Extend, c, sd(j), c / 2, 2 * c));
            out.push(o4(K::Extend, c, 5, c + e + 1, MAX));
            out.push(o4(K::Extend, c, sd(j), 0, 0));
        }
        for kind in 0..4 {
            // kind 3 takes quadratic time to make
            if (full || kind == 1 || c == e + 1) && (kind != 3 || c < 6000) {
                out.push(o3(K::Append, c, sd(j), kind));
                out.push(o3(K::AppendInto, c, sd(j), kind));
            }
        }
        out.push(o3(K::AppendInto, c, 5, 4));
    }
    let mut to: Vec<u64> = pos(j, l);
    to.extend([l, l + 1]);
    for &x in &j.bounds {
        let x = x as u64;
        if j.profile == Profile::Small {
            to.extend([l + x, l + 4 * x, l + 4 * x + 1, l + 5 * x + 1]);
        } else {
            to.extend([(l / x + 1) * x, l + x, l + 4 * x, l + 4 * x + 1, l + 5 * x, l + 6 * x + 1]);
        }
    }
    for t in dedup(to) {
        if t > l && (full || j.profile == Profile::Small) {
            for v in two(j) {
                out.push(o2(K::Resize, t, v));
            }
        } else {
            out.push(o2(K::Resize, t, if n > 2 && t % 2 == 0 && j.profile != Profile::Small { n / 2 } else { n - 1 }));
        }
    }
    for i in pos(j, l) {
        out.push(o2(K::SplitOff, i, 0));
        out.push(o2(K::SplitOff, i, 1));
    }
    out.push(o2(K::SplitOff, l, 0));
    out.push(o2(K::SplitOff, l, 1));
    for i in over(j, l) {
        if i > l {
            out.push(o2(K::SplitOff, i, 0));
        }
    }
    out.push(o0(K::ToVec));
}

/// Clones, made anew or over an existing vector that is shorter, as long or
/// longer, in either direction.
pub fn copies(j: &Job, m: &[u64], full: bool, out: &mut Vec<Op>) {
    let l = m.len() as u64;
    let e = j.cfg.e as u64;
    out.extend([o0(K::CloneSwap), o0(K::CloneDrop)]);
    for c in dedup(vec![0, 1, l / 2, l.wrapping_sub(1).min(l), l, l + 1, l / e * e, l + e + 1]) {
        for kind in 0..8 {
            if (full || kind == 1 || kind == 5) && (kind & 3 != 3 || c < 6000) {
                out.push(o3(K::CloneFrom, c, sd(j), kind));
            }
        }
    }
}

/// Ways to make a vector in one go.
pub fn makers(j: &Job, out: &mut Vec<Vec<Op>>) {
    let n = j.cfg.n;
    let e = j.cfg.e as u64;
    for l in lens(j) {
        for v in values(j) {
            out.push(vec![o2(K::FromElem, v, l)]);
        }
        out.push(vec![o2(K::MacFill, n - 1, l)]);
        out.push(vec![o2(K::FromSlice, l, 4)]);
        out.push(vec![o2(K::FromVec, l, 5)]);
        for (lo, hi) in [(l, l), (0, MAX), (l + e + 1, MAX), (l / 2, 2 * l), (0, 0)] {
            out.push(vec![o4(K::Collect, l, 4, lo, hi)]);
        }
    }
    for form in 0..5 {
        out.push(vec![o2(K::MacList, 4, form)]);
        out.push(vec![o2(K::MacList, 2, form)]);
    }
}

pub fn callbacks(j: &Job, m: &[u64], full: bool, out: &mut Vec<Op>) {
    let l = m.len() as u64;
    if j.profile == Profile::Small {
        // every subset
        for mask in 0..1u64 << l.min(6) {
            out.push(o1(K::Retain, 1 << 63 | mask << 4 | 9));
        }
    } else {
        for p in 0..9 {
            out.push(o1(K::Retain, p));
        }
    }
    let fs: u64 = if full { 7 } else { 6 };
    for f in 0..fs {
        // these two make new values, which a bounded state space has no room for
        if j.profile != Profile::Small || f != 4 && f != 5 {
            out.push(o1(K::ForEach, f));
        }
    }
    for i in pos(j, l) {
        out.push(o1(K::ForEach, 16 + i));
    }
}

pub fn faults(j: &Job, m: &[u64], full: bool, out: &mut Vec<Op>) {
    let l = m.len() as u64;
    let e = j.cfg.e as u64;
    let small = j.profile == Profile::Small;
    for c in counts(j) {
        if !full && c != 1 && c != e + 1 {
            continue;
        }
        let at = if full { vec![0, 1, c / 2, c.saturating_sub(1), c] } else { vec![0, c / 2, c] };
        for at in dedup(at) {
            if at > c {
                continue;
            }
            for lo in dedup(if small { vec![0, c + e + 1] } else { vec![0, c, c + e + 1] }) {
                out.push(o4(K::ExtendPanic, c, sd(j), lo, at));
            }
        }
        out.push(o4(K::CollectPanic, c, sd(j), c, c / 2));
        // ends before what it promised
        out.push(o4(K::Extend, c, 5, c + e + 1, MAX));
        out.push(o4(K::Extend, c, 5, c + 1, MAX));
    }
    let mut at = if full { pos(j, l) } else { few(j, l) };
    at.push(l);
    for i in at {
        let ps: &[u64] = match (small, full) {
            (true, _) => &[0, 3, 6],
            (_, true) => &[0, 1, 3, 6, 7],
            _ => &[3, 6],
        };
        for &p in ps {
            out.push(o2(K::RetainPanic, p, i));
        }
        let fs: &[u64] = match (small, full) {
            (true, _) => &[1],
            (_, true) => &[1, 4, 5],
            _ => &[5],
        };
        for &f in fs {
            out.push(o2(K::ForEachPanic, f, i));
        }
    }
}

/// All values, or for large types those near the ends, near powers of two,
/// and with regular bit patterns.
pub fn many(n: u64, all: u64) -> Vec<u64> {
    if n <= all {
        return (0..n).collect();
    }
    let mut v = vec![];
    for k in 0..64 {
        let b = 1u64 << k;
        for x in [b - 1, b, b + 1, u64::MAX / 3, u64::MAX / 5, u64::MAX / 15, u64::MAX / 255, 0x00ff_ff00_ff00_00ff, k] {
            v.extend([x, n - 1 - x % n, x & (u64::MAX >> (n - 1).leading_zeros()), x >> 1, x % n]);
        }
    }
    v.retain(|&x| x < n);
    dedup(v)
}
/// Calls with every value.
pub fn each_value(j: &Job, m: &[u64], out: &mut Vec<Op>) {
    let l = m.len() as u64;
    let e = j.cfg.e as u64;
    for v in if l <= 3 * e { many(j.cfg.n, j.all) } else { vec![] } {
        out.extend([o1(K::Push, v), o2(K::Insert, 0, v), o2(K::Insert, l / 2, v), o2(K::Resize, l + e + 1, v), o2(K::FromElem, v, e + 1), o1(K::ForEach, 1 << 63 | v)]);
        if l > 0 {
            out.extend([o2(K::Set, 0, v), o2(K::Set, l - 1, v), o2(K::RawSet, l / 2, j.cfg.n - 1 - v)]);
        }
    }
    for p in 0..9 {
        out.push(o1(K::Retain, p));
    }
    for f in 0..7 {
        out.push(o1(K::ForEach, f));
    }
}

pub fn raw(j: &Job, m: &[u64], out: &mut Vec<Op>) {
    let l = m.len() as u64;
    let e = j.cfg.e as u64;
    let n = j.cfg.n;
    for i in pos(j, l) {
        for d in two(j) {
            out.push(o2(K::RawSet, i, d));
        }
        if j.profile != Profile::Small {
            out.push(o2(K::RawSet, i, n / 2));
        }
        out.push(o1(K::LenDownUp, i));
    }
    for c in counts(j) {
        out.push(o3(K::RawGrow, c, sd(j), 0));
        out.push(o3(K::RawGrow, c, 5, 1));
    }
    let blocks = l.div_ceil(e);
    let bs = if j.profile == Profile::Wide { (0..blocks).collect() } else { dedup(vec![0, blocks / 2, blocks.wrapping_sub(1)]) };
    for b in bs {
        if b < blocks {
            for s in if j.profile == Profile::Small { vec![0, 1, 5] } else { vec![0, 1, 4, 5, 7] } {
                out.push(o2(K::SetWord, b, s));
            }
        }
    }
}
