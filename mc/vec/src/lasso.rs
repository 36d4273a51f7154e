//! C25: cycles of calls, repeated until the vector is long or many rounds have
//! passed, with the requests for memory counted.
use crate::engine::{fresh, wants, Stats, St};
use crate::ops::*;
use mccore::{alloc, crash};

/// Calls relative to the current length; `k` is a count of elements.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    Push,
    Pop,
    InsertFront,
    InsertMid,
    InsertBack,
    RemoveFront,
    RemoveBack,
    SwapRemove,
    ExtendOne,
    ExtendSome,
    ExtendNoHint,
    AppendOne,
    AppendSome,
    ResizeUp,
    ResizeMore,
    ResizeDown,
    Half,
    Clear,
    RetainSome,
    RawGrow,
    ReserveOne,
    ReserveSome,
    SplitHalf,
}
use Rel::*;
pub const ALL: &[Rel] = &[
    Push, Pop, InsertFront, InsertMid, InsertBack, RemoveFront, RemoveBack, SwapRemove, ExtendOne, ExtendSome, ExtendNoHint, AppendOne, AppendSome, ResizeUp, ResizeMore, ResizeDown, Half, Clear, RetainSome, RawGrow, ReserveOne,
    ReserveSome, SplitHalf,
];
fn name(r: Rel) -> String {
    format!("{:?}", r)
}
fn op(r: Rel, c: &Cfg, l: u64) -> Option<Op> {
    let e = c.e as u64;
    let n = c.n;
    let v = l % n;
    Some(match r {
        Push => o1(K::Push, v),
        Pop => o0(K::Pop),
        InsertFront => o2(K::Insert, 0, v),
        InsertMid => o2(K::Insert, l / 2, v),
        InsertBack => o2(K::Insert, l, v),
        RemoveFront if l > 0 => o1(K::Remove, 0),
        RemoveBack if l > 0 => o1(K::Remove, l - 1),
        SwapRemove if l > 0 => o1(K::SwapRemove, 0),
        ExtendOne => o4(K::Extend, 1, 4, 1, 1),
        ExtendSome => o4(K::Extend, e + 1, 4, e + 1, e + 1),
        ExtendNoHint => o4(K::Extend, e, 5, 0, MAX),
        AppendOne => o3(K::Append, 1, 4, 0),
        AppendSome => o3(K::Append, e, 4, 0),
        ResizeUp => o2(K::Resize, l + 1, v),
        ResizeMore => o2(K::Resize, l + 5 * e + 1, v),
        ResizeDown => o2(K::Resize, l.saturating_sub(e + 1), v),
        Half => o1(K::Truncate, l / 2),
        Clear => o0(K::Clear),
        RetainSome => o1(K::Retain, 7),
        RawGrow => o3(K::RawGrow, 2, 4, 0),
        ReserveOne => o1(K::Reserve, 1),
        ReserveSome => o1(K::Reserve, e + 1),
        SplitHalf => o2(K::SplitOff, l / 2, 0),
        RemoveFront | RemoveBack | SwapRemove => return None,
    })
}

pub struct Lasso {
    pub cfg: Cfg,
    pub start: Vec<Op>,
    pub cycle: Vec<Rel>,
}
impl Lasso {
    pub fn text(&self) -> String {
        format!("{} | {}", text(&self.start), self.cycle.iter().map(|r| name(*r)).collect::<Vec<_>>().join("; "))
    }
    pub fn parse(cfg: Cfg, s: &str) -> Option<Lasso> {
        let (a, b) = s.split_once('|')?;
        let cycle = b.split(';').map(|x| ALL.iter().copied().find(|r| name(*r) == x.trim())).collect::<Option<Vec<_>>>()?;
        Some(Lasso { cfg, start: parse(a)?, cycle })
    }
}
struct Cur<'a>(&'a Lasso);
impl crash::Describe for Cur<'_> {
    fn describe(&self) -> String {
        // only what the requests for memory are is judged here
        format!("C25\n{}\nother\n{}\n", self.0.cfg.name(), self.0.text())
    }
}

/// Requests granted for a vector that never held, nor was asked to hold, more
/// than `blocks` blocks: generously more than doubling needs.
pub fn allowed(blocks: usize) -> u64 {
    8 + 4 * (usize::BITS - blocks.leading_zeros()) as u64
}

pub fn go(x: &Lasso, stats: &mut Stats, max_blocks: usize) -> Result<(), String> {
    crash::beat();
    alloc::reset_live();
    alloc::mark();
    let cur = Cur(x);
    crash::running(&cur, || {
        let c = &x.cfg;
        let mut st: St = fresh(c);
        for o in &x.start {
            let _ = exec(c, &mut st.v, o);
        }
        let mut most = st.v.capacity().max(st.v.len());
        let (mut times, mut round) = (0, 0);
        let rounds = (max_blocks * c.e + 200).min(40 * max_blocks);
        let mut last = usize::MAX;
        while round < rounds && c.blocks(st.v.len()) < max_blocks {
            for &r in &x.cycle {
                let l = st.v.len();
                let Some(o) = op(r, c, l as u64) else { continue };
                let pre = (st.v.ptr(), st.v.capacity());
                most = most.max(wants(&o, l));
                let out = exec(c, &mut st.v, &o);
                stats.transitions += 1;
                if out == Out::Panic {
                    // not for this property to judge
                    stats.pruned += 1;
                    return Ok(());
                }
                most = most.max(st.v.len());
                // temporary memory is not judged here; where a second vector
                // takes part, blocks may move without being requested
                let second = matches!(o.k, K::Append | K::SplitOff);
                if st.v.capacity() != pre.1 || !second && st.v.ptr() != pre.0 {
                    times += 1;
                }
                if times > allowed(c.blocks(most)) {
                    return Err(format!("{} requests for memory in {} rounds, although at most {} elements ({} blocks) were ever held or asked for", times, round + 1, most, c.blocks(most)));
                }
            }
            round += 1;
            // nothing but pops: the state repeats
            if st.v.len() == 0 && last == 0 && times == 0 && round > 40 {
                break;
            }
            last = st.v.len();
        }
        stats.states += round as u64;
        stats.traces += 1;
        stats.depth = stats.depth.max((round * x.cycle.len()) as u64);
        if stats.samples.len() < 2 && stats.traces % 101 == 7 {
            stats.samples.push(format!("{}: {} ({} rounds, {} requests)", c.name(), x.text(), round, times));
        }
        Ok(())
    })
}

pub fn starts(c: &Cfg, deep: bool) -> Vec<Vec<Op>> {
    let e = c.e as u64;
    let mut v = vec![vec![o0(K::New)], vec![o2(K::FromVec, 2 * e, 4)]];
    if deep {
        v.push(vec![o2(K::FromElem, c.n - 1, 9 * e + 1)]);
        v.push(vec![o1(K::WithCap, 3 * e), o2(K::PushN, e + 1, 4)]);
        v.push(vec![o2(K::FromVec, 5 * e + 1, 4), o0(K::Shrink)]);
    }
    v
}
pub fn cycles(longest: usize) -> Vec<Vec<Rel>> {
    let mut all: Vec<Vec<Rel>> = vec![];
    let mut now: Vec<Vec<Rel>> = vec![vec![]];
    for _ in 0..longest {
        let mut next = vec![];
        for c in &now {
            for &r in ALL {
                let mut d = c.clone();
                d.push(r);
                next.push(d);
            }
        }
        all.extend(next.iter().cloned());
        now = next;
    }
    all
}
