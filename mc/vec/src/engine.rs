//! Level-by-level exhaustive exploration of call histories on the real vector.
//!
//! Every transition is executed from scratch: a fresh vector, the history that
//! leads to the state, then the call under test. States are identified by the
//! vector's complete internal state (length, every storage block, capacity);
//! a state that was already expanded with as many calls to go is not expanded
//! again.
use crate::ops::*;
use mccore::{alloc, crash, hash128};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use vecsut::{Dyn, BAD_DISCR};

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u128(&mut self, x: u128) {
        self.0 = x as u64;
    }
}
pub type Seen = HashMap<u128, u8, BuildHasherDefault<Ident>>;

/// The real vector together with what the plain vector holds.
pub struct St {
    pub v: Box<dyn Dyn>,
    pub m: Vec<u64>,
    /// Most elements any moment of the history asked room for (this vector
    /// plus the other one involved in the call), and whether a capacity
    /// beyond four inline blocks was ever asked for.
    pub need: usize,
    pub bad: Option<usize>,
}
pub struct Pre {
    pub cap: usize,
    pub ptr: usize,
    pub calls: u64,
    /// Allocation calls before the history began.
    pub base: u64,
    pub len: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Profile {
    /// Boundary positions and lengths of large vectors.
    Edge,
    /// Every position of short vectors.
    Small,
    /// Every block of vectors of some dozen blocks.
    Wide,
    /// A few places in vectors of some dozen to a hundred blocks.
    Mid,
    /// Longer sequences of few calls.
    Deep,
    /// Every value of the element type.
    Values,
    /// A few calls on very long vectors.
    Long,
}

pub struct Job {
    pub cfg: Cfg,
    pub bounds: Vec<usize>,
    pub others: Vec<Cfg>,
    pub starts: Vec<Vec<Op>>,
    pub depth: usize,
    pub maxlen: usize,
    pub cap: usize,
    pub profile: Profile,
    /// Element types with up to that many values are tried with all of them.
    pub all: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    /// Histories not extended further, on which model and implementation
    /// agreed at every call.
    pub traces: u64,
    pub probes: u64,
    pub pruned: u64,
    pub capped: u64,
    pub fixpoints: u64,
    pub depth: u64,
    pub rejected: u64,
    pub samples: Vec<String>,
}

pub struct Fail {
    pub cfg: String,
    pub hist: String,
    pub what: String,
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn own(&self, op: &Op) -> bool;
    /// Whether contents that differ from the plain vector's break this
    /// property (otherwise that history is not followed further).
    fn content(&self) -> bool {
        true
    }
    /// The calls to try; `left` more may follow, `owned` tells whether the
    /// history already has one of the property's own calls.
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, owned: bool, out: &mut Vec<Op>);
    /// A few calls, for long sequences.
    fn brief(&self, j: &Job, m: &[u64], out: &mut Vec<Op>) {
        crate::alpha::mix(j, m, out);
    }
    /// Told of a history before it is executed.
    fn before(&self, _j: &Job, _path: &[Op]) {}
    /// Examines one executed call.
    fn check(&self, _j: &Job, _st: &mut St, _pre: &Pre, _path: &[Op], _exp: &Exp, _out: &Out) -> Result<(), String> {
        Ok(())
    }
    /// Examines a state.
    fn probe(&self, _j: &Job, _st: &mut St, _path: &[Op]) -> Result<u64, String> {
        Ok(0)
    }
    /// Whether `probe` depends on the history, not only on the state.
    fn probe_always(&self) -> bool {
        false
    }
    fn after_drop(&self) -> Result<(), String> {
        Ok(())
    }
}

pub static STOP: AtomicBool = AtomicBool::new(false);
/// Operation kinds left out because they crash outside this property.
pub static SKIP: AtomicU64 = AtomicU64::new(0);
pub fn skipped(k: K) -> bool {
    SKIP.load(Relaxed) >> (k as u64) & 1 == 1
}

struct Cur<'a> {
    prop: &'a str,
    cfg: &'a Cfg,
    path: &'a [Op],
    owned: std::cell::Cell<bool>,
}
impl crash::Describe for Cur<'_> {
    fn describe(&self) -> String {
        format!("{}\n{}\n{}\n{}\n", self.prop, self.cfg.name(), if self.owned.get() { "owned" } else { "other" }, text(self.path))
    }
}

pub fn fresh(cfg: &Cfg) -> St {
    St { v: cfg.mk.new(), m: vec![], need: 0, bad: None }
}

/// Elements that the call needs room for at once, given the length before it.
pub fn wants(op: &Op, l: usize) -> usize {
    let a = op.a[0] as usize;
    match op.k {
        K::WithCap => a,
        K::FromElem | K::MacFill => op.a[1] as usize,
        K::FromVec | K::FromSlice => a,
        K::Collect | K::CollectPanic => a.max(op.a[2] as usize),
        K::MacList => LISTS[op.a[1] as usize] as usize,
        K::Push | K::Insert => l + 1,
        K::PushN | K::RawGrow => l + a,
        K::Reserve => l.checked_add(a).unwrap_or(l),
        K::Resize => a.max(l),
        K::Extend | K::ExtendPanic => l + a.max(op.a[2] as usize),
        K::Append | K::AppendInto => l + a,
        K::CloneFrom => a.max(l),
        _ => l,
    }
}

/// Elements held by a second vector during the call.
pub fn extra(cfg: &Cfg, op: &Op, l: usize) -> usize {
    let a = op.a[0] as usize;
    match op.k {
        K::Append | K::AppendInto | K::CloneFrom => a + 3 * cfg.e + 2 + l,
        K::SplitOff | K::CloneSwap | K::CloneDrop | K::ToVec => l,
        // the vector being replaced lives until the new one is there
        K::New | K::Default | K::WithCap | K::FromElem | K::FromVec | K::FromSlice | K::Collect | K::CollectPanic | K::MacFill | K::MacList => l,
        _ => 0,
    }
}

/// Runs one call without looking at the result.
fn advance(cfg: &Cfg, st: &mut St, op: &Op) {
    let l = st.v.len();
    st.need = st.need.max(wants(op, l).saturating_add(extra(cfg, op, l)));
    let _ = exec(cfg, &mut st.v, op);
}

/// Whether to ask every question about the vector after every call but the
/// last, for questions that leave something behind.
pub static WATCH: AtomicBool = AtomicBool::new(false);
struct Sink(u64);
impl Hasher for Sink {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}
fn observe(cfg: &Cfg, v: &dyn Dyn) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let l = v.len();
        let mut h = Sink(0);
        v.hash(&mut h);
        let first = v.get(0);
        let mut it = v.iter();
        let ends = (it.next(), it.next_back());
        drop(it);
        (v.any(0), v.all(0), v.any(cfg.n - 1), v.all(cfg.n - 1), first.map(|x| (v.any(x), v.all(x))), v.get(l / 2), v.is_empty(), v.capacity(), v.eq(v.myself()), ends, h.0)
    }));
}

/// Compares contents through the public read interface.
pub fn same(st: &St, buf: &mut Vec<u64>) -> Result<(), String> {
    let l = st.v.len();
    if l != st.m.len() {
        return Err(format!("len() is {}, should be {}", l, st.m.len()));
    }
    if st.v.is_empty() != st.m.is_empty() {
        return Err(format!("is_empty() is {} at length {}", st.v.is_empty(), l));
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        st.v.read(1 << 22, buf);
        (st.v.get(l).is_none(), st.v.get(l + 1).is_none(), st.v.get(usize::MAX).is_none())
    }));
    match r {
        Err(_) => return Err(format!("reading the elements panicked: {}", crash::last_panic())),
        Ok((true, true, true)) => (),
        Ok(_) => return Err("get() past the end is not None".into()),
    }
    if *buf != st.m {
        let i = (0..l).find(|&i| buf.get(i) != st.m.get(i)).unwrap_or(0);
        return Err(format!("element {} of {} is {:?}, should be {}", i, l, buf.get(i), st.m[i]));
    }
    Ok(())
}

pub enum Verdict {
    Good,
    Prune(String),
    Bad(String),
}

/// Executes `path` from scratch and examines its last call and the state it
/// leads to. `base` is the plain vector before the last call.
#[allow(clippy::too_many_arguments)]
pub fn transition(p: &dyn Prop, j: &Job, path: &[Op], base: &[u64], owned_before: bool, seen: Option<&mut Seen>, left: u8, stats: &mut Stats, buf: &mut Vec<u64>, kb: &mut Vec<u8>) -> (Verdict, Vec<u64>, bool) {
    let cfg = &j.cfg;
    let (op, prefix) = path.split_last().unwrap();
    let owned = owned_before || p.own(op);
    let cur = Cur { prop: p.id(), cfg, path, owned: std::cell::Cell::new(owned_before) };
    crash::beat();
    p.before(j, path);
    alloc::reset_live();
    alloc::mark();
    let (v, m, new) = crash::running(&cur, || {
        let c0 = alloc::stats().calls;
        let watch = WATCH.load(Relaxed);
        let mut st = fresh(cfg);
        for o in prefix {
            advance(cfg, &mut st, o);
            if watch {
                observe(cfg, &*st.v);
            }
        }
        st.m = base.to_vec();
        let l = st.v.len();
        let pre = Pre { cap: st.v.capacity(), ptr: st.v.ptr(), calls: alloc::stats().calls, base: c0, len: l };
        cur.owned.set(owned);
        BAD_DISCR.set(None);
        st.need = st.need.max(wants(op, l).saturating_add(extra(cfg, op, l)));
        let exp = model(cfg, &mut st.m, op);
        let out = exec(cfg, &mut st.v, op);
        stats.transitions += 1;
        if out == Out::Panic {
            stats.rejected += 1;
        }
        // result of the call
        let mut wrong = None;
        match &exp {
            Exp::Out(o) => {
                if *o != out {
                    wrong = Some(format!("{} returned {}, should be {}", op.text(), show(&out), show(o)));
                    if out == Out::Panic {
                        wrong = Some(format!("{} panicked ({}), should return {}", op.text(), crash::last_panic(), show(o)));
                    } else if *o == Out::Panic {
                        wrong = Some(format!("{} returned {}, should panic", op.text(), show(&out)));
                    }
                }
            }
            Exp::Shuffled => {
                if out != Out::Panic {
                    wrong = Some(format!("{} did not propagate the panic", op.text()));
                } else {
                    // the vector may hold any of its old elements
                    st.v.read(1 << 22, buf);
                    if st.v.len() != st.m.len() {
                        wrong = Some(format!("{}: length went from {} to {}", op.text(), st.m.len(), st.v.len()));
                    } else if let Some(x) = buf.iter().find(|x| !st.m.contains(x)) {
                        wrong = Some(format!("{}: the vector holds {}, which it never held", op.text(), x));
                    }
                    st.m = buf.clone();
                }
            }
        }
        if wrong.is_none() {
            if let Err(e) = same(&st, buf) {
                wrong = Some(format!("after {}: {}", op.text(), e));
            }
        }
        st.bad = BAD_DISCR.get();
        let r = p.check(j, &mut st, &pre, path, &exp, &out);
        if let Err(e) = r {
            return (Verdict::Bad(e), st.m, false);
        }
        if let Some(w) = wrong {
            if p.content() && owned {
                return (Verdict::Bad(w), st.m, false);
            }
            return (Verdict::Prune(w), st.m, false);
        }
        kb.clear();
        st.v.key(kb);
        st.v.hidden(kb);
        let h = hash128(kb);
        let mut new = true;
        if let Some(seen) = seen {
            let mut fresh_state = false;
            let e = seen.entry(h).or_insert_with(|| {
                fresh_state = true;
                255
            });
            if fresh_state {
                stats.states += 1;
                *e = left;
            } else if *e < left {
                *e = left;
            } else {
                new = false;
            }
            if !fresh_state && !p.probe_always() {
                return (Verdict::Good, st.m, new);
            }
        }
        cur.owned.set(true);
        match p.probe(j, &mut st, path) {
            Ok(n) => stats.probes += n,
            Err(e) => return (Verdict::Bad(e), st.m, false),
        }
        (Verdict::Good, st.m, new)
    });
    if matches!(v, Verdict::Good) {
        if let Err(e) = p.after_drop() {
            return (Verdict::Bad(format!("{}: {}", op.text(), e)), m, false);
        }
    }
    (v, m, new)
}

pub fn show(o: &Out) -> String {
    match o {
        Out::List(v) if v.len() > 24 => format!("list of {} starting {:?}", v.len(), &v[..24]),
        o => format!("{:?}", o),
    }
}

struct Node {
    parent: u32,
    op: Op,
    owned: bool,
}

fn path_of(nodes: &[Node], starts: &[Vec<Op>], mut i: u32, out: &mut Vec<Op>) {
    out.clear();
    let mut rev = vec![];
    while nodes[i as usize].parent != u32::MAX {
        rev.push(nodes[i as usize].op);
        i = nodes[i as usize].parent;
    }
    // a root stores the index of its start in op.a[0]
    out.extend_from_slice(&starts[nodes[i as usize].op.a[0] as usize]);
    out.extend(rev.into_iter().rev());
}

pub fn explore(p: &dyn Prop, j: &Job) -> (Stats, Option<Fail>) {
    let mut s = Stats::default();
    let mut seen: Seen = Seen::default();
    let mut nodes: Vec<Node> = vec![];
    let mut front: Vec<(u32, Vec<u64>)> = vec![];
    let (mut buf, mut kb) = (vec![], vec![]);
    let mut path: Vec<Op> = vec![];
    let fail = |path: &[Op], e: String| Some(Fail { cfg: j.cfg.name(), hist: text(path), what: e });
    let left0 = j.depth.min(250) as u8;
    for (si, st) in j.starts.iter().enumerate() {
        if st.iter().any(|o| skipped(o.k)) {
            continue;
        }
        // examine the start history call by call
        let mut m = vec![];
        let mut owned = false;
        let mut ok = true;
        for k in 1..=st.len() {
            let last = k == st.len();
            let (v, m2, _) = transition(p, j, &st[..k], &m, owned, if last { Some(&mut seen) } else { None }, left0, &mut s, &mut buf, &mut kb);
            owned |= p.own(&st[k - 1]);
            m = m2;
            match v {
                Verdict::Good => (),
                Verdict::Prune(_) => {
                    s.pruned += 1;
                    ok = false;
                    break;
                }
                Verdict::Bad(e) => return (s, fail(&st[..k], e)),
            }
        }
        if ok {
            nodes.push(Node { parent: u32::MAX, op: o1(K::New, si as u64), owned });
            front.push((nodes.len() as u32 - 1, m));
        }
    }
    let mut alpha = vec![];
    let mut level = 0;
    while level < j.depth && !front.is_empty() {
        level += 1;
        let left = (j.depth - level).min(250) as u8;
        let mut next = vec![];
        for (ni, m) in std::mem::take(&mut front) {
            if STOP.load(Relaxed) {
                return (s, None);
            }
            path_of(&nodes, &j.starts, ni, &mut path);
            let owned = nodes[ni as usize].owned;
            alpha.clear();
            if j.profile == Profile::Values {
                crate::alpha::each_value(j, &m, &mut alpha);
                alpha.retain(|o| p.own(o) || !p.content());
            } else if j.profile == Profile::Deep {
                p.brief(j, &m, &mut alpha);
            } else {
                p.alphabet(j, &m, left as usize, owned, &mut alpha);
            }
            for op in &alpha {
                if skipped(op.k) || (left == 0 && !owned && p.content() && !p.own(op)) {
                    continue;
                }
                if j.maxlen != usize::MAX {
                    let mut t = m.clone();
                    model(&j.cfg, &mut t, op);
                    if t.len() > j.maxlen {
                        continue;
                    }
                }
                path.push(*op);
                let (v, m2, new) = transition(p, j, &path, &m, owned, Some(&mut seen), left, &mut s, &mut buf, &mut kb);
                match v {
                    Verdict::Good => {
                        if new && left > 0 {
                            if nodes.len() < j.cap {
                                nodes.push(Node { parent: ni, op: *op, owned: owned || p.own(op) });
                                next.push((nodes.len() as u32 - 1, m2));
                                if s.samples.len() < 2 && s.transitions % 97 == 0 {
                                    s.samples.push(format!("{}: {}", j.cfg.name(), text(&path)));
                                }
                            } else {
                                s.capped += 1;
                            }
                        } else {
                            s.traces += 1;
                        }
                    }
                    Verdict::Prune(_) => s.pruned += 1,
                    Verdict::Bad(e) => return (s, fail(&path, e)),
                }
                path.pop();
            }
        }
        s.depth = level as u64;
        front = next;
    }
    if front.is_empty() && s.capped == 0 && j.depth > 50 {
        s.fixpoints = 1;
    }
    (s, None)
}

/// Executes a whole history, examining every call, as a replay does.
pub fn replay(p: &dyn Prop, j: &Job, hist: &[Op]) -> Result<(), String> {
    let mut s = Stats::default();
    let (mut buf, mut kb) = (vec![], vec![]);
    let mut m = vec![];
    let mut owned = false;
    for k in 1..=hist.len() {
        let (v, m2, _) = transition(p, j, &hist[..k], &m, owned, None, 0, &mut s, &mut buf, &mut kb);
        owned |= p.own(&hist[k - 1]);
        m = m2;
        match v {
            Verdict::Good => (),
            Verdict::Prune(w) => return Err(format!("(outside this property) {}", w)),
            Verdict::Bad(e) => return Err(e),
        }
    }
    Ok(())
}
