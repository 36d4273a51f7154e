//! C21, C22, C23: every history of enum sets over small alphabets of values,
//! until no new internal state is reachable; every pair of reachable sets.
use bit_set::BitSet;
use enum_like::EnumLike;
use enum_set2::EnumSet;
use mccore::crash::{beat, last_panic};
use mccore::json;
use std::collections::hash_map::{DefaultHasher, Entry};
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::*};

#[global_allocator]
static A: mccore::alloc::Guarded = mccore::alloc::Guarded;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// N values. Its own order is the reverse of its numbers', which no set may use.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Num<const N: usize>(usize);
unsafe impl<const N: usize> EnumLike for Num<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        assert!(x < N, "number {} decoded for a type of {} values", x, N);
        Num(x)
    }
}
impl<const N: usize> PartialOrd for Num<N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for Num<N> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl<const N: usize> std::fmt::Debug for Num<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "#{}", self.0)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Op {
    New,
    Default,
    /// values, and how the iterator that supplies them describes itself
    Collect(Vec<usize>, u8),
    /// from a bit set with this capacity (made by with_capacity or all-zero bits)
    FromBits(bool, usize, Vec<usize>),
    Insert(usize),
    Remove(usize),
    Clear,
    Shrink,
    /// values, and which iterator supplies them
    Extend(Vec<usize>, u8),
    Clone,
    CloneFrom(usize),
    Round,
    /// union, intersect, difference, symmetric difference with another state
    With(u8, usize),
}
const WITH: [&str; 4] = ["union_with", "intersect_with", "difference_with", "symmetric_difference_with"];

type Model = BTreeSet<usize>;

struct State {
    hist: Vec<Op>,
    model: Model,
    depth: usize,
}
/// A reachable state is identified by everything there is to see.
type Key = (Vec<u32>, usize, Vec<usize>, Vec<u8>);

struct World<const N: usize> {
    alphabet: Vec<usize>,
    /// from sets that hold every value, every second, all but a few
    dense: bool,
    states: Vec<Rc<State>>,
    seen: HashMap<Key, usize>,
    /// states reached without another set
    single: bool,
    transitions: u64,
    probes: u64,
    prop: String,
}

/// Iterators with different promises.
struct Supply {
    v: std::vec::IntoIter<usize>,
    mode: u8,
}
impl Iterator for Supply {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.mode {
            0 => self.v.size_hint(),
            1 => (0, None),
            2 => (0, Some(self.v.len() + 100)),
            _ => (self.v.len(), Some(self.v.len())),
        }
    }
}

type Bad = (String, bool);
/// what, and whether the property being decided says so
fn bad<T>(own: bool, s: String) -> Result<T, Bad> {
    Err((s, own))
}

fn show(h: &[Op], w: &[Rc<State>]) -> String {
    h.iter()
        .map(|o| match o {
            Op::With(k, s) => format!("{} {{{}}}", WITH[*k as usize], show(&w[*s].hist, w)),
            Op::CloneFrom(s) => format!("clone_from {{{}}}", show(&w[*s].hist, w)),
            Op::Collect(v, _) | Op::Extend(v, _) if v.len() > 40 => format!("{} {} values starting {:?}", if let Op::Collect(..) = o { "collect" } else { "extend" }, v.len(), &v[..20]),
            Op::FromBits(_, c, v) if v.len() > 40 => format!("from_bit_set({} bits holding {} values starting {:?})", c, v.len(), &v[..20]),
            Op::Extend(v, m) => format!("extend {:?}{}", v, ["", " (hint 0, none)", " (hint 0, too many)", ""][*m as usize]),
            Op::Collect(v, m) => format!("collect {:?}{}", v, ["", " (hint 0, none)", " (hint 0, too many)", ""][*m as usize]),
            Op::FromBits(true, c, v) => format!("from_bit_set(with_capacity({}) holding {:?})", c, v),
            Op::FromBits(false, c, v) => format!("from_bit_set({} bits holding {:?})", c, v),
            o => format!("{:?}", o).to_lowercase(),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

impl<const N: usize> World<N> {
    fn owns(&self, p: &[&str]) -> bool {
        p.contains(&self.prop.as_str())
    }
    fn apply_model(&self, m: &mut Model, op: &Op) {
        match op {
            Op::New | Op::Default => m.clear(),
            Op::Collect(v, _) | Op::FromBits(_, _, v) => *m = v.iter().copied().collect(),
            Op::Insert(v) => {
                m.insert(*v);
            }
            Op::Remove(v) => {
                m.remove(v);
            }
            Op::Clear => m.clear(),
            Op::Shrink | Op::Clone | Op::Round => (),
            Op::CloneFrom(s) => *m = self.states[*s].model.clone(),
            Op::Extend(v, _) => m.extend(v.iter().copied()),
            Op::With(k, s) => *m = algebra(*k, m, &self.states[*s].model),
        }
    }
    /// Executes one call on the real set; `m` is the model before the call.
    fn apply(&self, e: &mut EnumSet<Num<N>>, op: &Op, m: &Model) -> Result<(), Bad> {
        let c21 = self.owns(&["C21"]);
        match op {
            Op::New => *e = EnumSet::new(),
            Op::Default => *e = Default::default(),
            Op::Collect(v, 3) => *e = v.iter().map(|x| Num(*x)).collect(),
            Op::Collect(v, mode) => *e = Supply { v: v.clone().into_iter(), mode: *mode }.map(Num).collect(),
            Op::FromBits(cap, c, v) => {
                let mut b = if *cap { BitSet::with_capacity(*c) } else { BitSet::from_bit_vec(bit_set_vec(*c)) };
                for x in v {
                    b.insert(*x);
                }
                *e = EnumSet::from_bit_set(b);
            }
            Op::Insert(v) => {
                let r = e.insert(Num(*v));
                if r != !m.contains(v) {
                    return bad(c21, format!("insert({}) returns {}", v, r));
                }
            }
            Op::Remove(v) => {
                let r = e.remove(Num(*v));
                if r != m.contains(v) {
                    return bad(c21, format!("remove({}) returns {}", v, r));
                }
            }
            Op::Clear => e.clear(),
            Op::Shrink => e.shrink_to_fit(),
            Op::Clone => {
                let c = e.clone();
                *e = c;
            }
            Op::CloneFrom(s) => {
                let o = self.rebuild(*s)?;
                e.clone_from(&o);
            }
            Op::Round => {
                let x = std::mem::take(e);
                *e = EnumSet::from_bit_set(x.into_bit_set());
            }
            Op::Extend(v, mode) => {
                let s = Supply { v: v.clone().into_iter(), mode: *mode };
                if *mode == 3 {
                    // from references, as a borrowed set would give
                    let o: EnumSet<Num<N>> = s.map(Num).collect();
                    e.extend(&o);
                } else {
                    e.extend(s.map(Num));
                }
            }
            Op::With(k, s) => {
                let o = self.rebuild(*s)?;
                self.with(e, *k, &o);
                // the argument is unchanged
                let om = &self.states[*s].model;
                if self.owns(&["C22"]) && members(&o) != *om {
                    return bad(true, format!("{} changes its argument {{{}}} from {:?} to {:?}", WITH[*k as usize], self.name(*s), om, members(&o)));
                }
            }
        }
        Ok(())
    }
    fn with(&self, e: &mut EnumSet<Num<N>>, k: u8, o: &EnumSet<Num<N>>) {
        match k {
            0 => e.union_with(o),
            1 => e.intersect_with(o),
            2 => e.difference_with(o),
            _ => e.symmetric_difference_with(o),
        }
    }
    fn name(&self, s: usize) -> String {
        show(&self.states[s].hist, &self.states)
    }
    fn rebuild(&self, s: usize) -> Result<EnumSet<Num<N>>, Bad> {
        let mut e = EnumSet::new();
        let mut m = Model::new();
        for op in &self.states[s].hist {
            self.apply(&mut e, op, &m)?;
            self.apply_model(&mut m, op);
        }
        Ok(e)
    }
    /// Whether the call is one the property promises something about.
    fn owned(&self, op: &Op) -> bool {
        match op {
            Op::With(..) => self.owns(&["C22"]),
            Op::FromBits(..) | Op::Round | Op::CloneFrom(_) => self.owns(&["C23"]),
            Op::Clone => self.owns(&["C21", "C23"]),
            _ => self.owns(&["C21"]),
        }
    }
    fn ops(&self, others: usize) -> Vec<Op> {
        let mut v = vec![Op::Clear, Op::Shrink, Op::Clone, Op::Round];
        for &x in &self.alphabet {
            v.push(Op::Insert(x));
            v.push(Op::Remove(x));
        }
        v.push(Op::Extend(vec![], 0));
        if self.prop == "C21" {
            for (i, q) in self.sequences(200).into_iter().enumerate() {
                v.push(Op::Extend(q, (i % 4) as u8));
            }
        }
        for &x in &self.alphabet {
            v.push(Op::Extend(vec![x], 0));
            for &y in &self.alphabet {
                v.push(Op::Extend(vec![x, y], ((x + y) % 4) as u8));
            }
        }
        v.push(Op::Extend(self.alphabet.clone(), 1));
        v.push(Op::Extend(self.alphabet.iter().rev().copied().collect(), 2));
        v.push(Op::Extend(self.alphabet.iter().chain(&self.alphabet).copied().collect(), 3));
        for s in 0..others {
            for k in 0..4 {
                v.push(Op::With(k, s));
            }
            v.push(Op::CloneFrom(s));
        }
        v
    }
    /// All sequences of values up to the greatest length of which there are at
    /// most `most`; and one value many times before another.
    fn sequences(&self, most: usize) -> Vec<Vec<usize>> {
        let a = &self.alphabet;
        let mut all = vec![];
        let mut last: Vec<Vec<usize>> = vec![vec![]];
        while !last.is_empty() && last.len() * a.len() <= most && last[0].len() < 10 {
            last = last.iter().flat_map(|s| a.iter().map(move |x| [&s[..], &[*x]].concat())).collect();
            all.extend(last.iter().cloned());
        }
        for &x in a {
            for &y in a {
                for k in [N, N + 1, 31, 32, 33, 64, 65, 257] {
                    if x != y && k <= 300 {
                        let mut q = vec![x; k];
                        q.push(y);
                        all.push(q);
                    }
                }
            }
        }
        all
    }
    fn starts(&self) -> Vec<Op> {
        if self.dense {
            let all: Vec<usize> = (0..N).collect();
            let but = all.iter().copied().filter(|x| !self.alphabet.contains(x)).collect();
            return vec![Op::New, Op::Collect(all.clone(), 0), Op::Collect(all.iter().rev().copied().collect(), 1), Op::FromBits(false, 2 * N + 40, all.clone()), Op::Collect(all.iter().copied().step_by(2).collect(), 0), Op::FromBits(true, 0, but)];
        }
        let mut v = vec![Op::New, Op::Default, Op::Collect(vec![], 3)];
        for (i, q) in self.sequences(if self.prop == "C21" { 2000 } else { 50 }).into_iter().enumerate() {
            v.push(Op::Collect(q, (i % 4) as u8));
        }
        v.push(Op::Collect(self.alphabet.iter().rev().copied().collect(), 3));
        let mut caps = vec![0, 1, 8, 31, 32, 33, 63, 64, 65, N, N + 1, 2 * N + 1];
        caps.sort();
        caps.dedup();
        for c in caps {
            for how in [true, false] {
                v.push(Op::FromBits(how, c, vec![]));
                v.push(Op::FromBits(how, c, self.alphabet.clone()));
                for &x in &self.alphabet {
                    v.push(Op::FromBits(how, c, vec![x]));
                }
            }
        }
        v
    }

    /// Everything one set shows, compared with the model. Cheap part for
    /// every transition.
    fn observe(&self, e: &EnumSet<Num<N>>, m: &Model, own: bool) -> Result<(), Bad> {
        let got = members(e);
        if got != *m {
            return bad(own, format!("contains {:?}, should be {:?}", got, m));
        }
        if e.len() != m.len() {
            return bad(own, format!("len is {} of {:?}", e.len(), m));
        }
        if e.is_empty() != m.is_empty() {
            return bad(own, format!("is_empty is {} of {:?}", e.is_empty(), m));
        }
        let want: Vec<usize> = m.iter().copied().collect();
        let it: Vec<usize> = e.iter().map(|x| x.0).take(N + 1).collect();
        if it != want {
            return bad(own, format!("iterates over {:?}, should be {:?}", it, want));
        }
        let bits: Vec<usize> = e.get_ref().iter().collect();
        if bits != want {
            return bad(own || self.owns(&["C23"]), format!("the bit set inside holds {:?}, should be {:?}", bits, want));
        }
        Ok(())
    }
    /// The set as a set: C21's probes in a state.
    fn probe_single(&self, s: usize) -> Result<u64, Bad> {
        let st = self.states[s].clone();
        let e = self.rebuild(s)?;
        let want: Vec<usize> = st.model.iter().copied().collect();
        let mut n = 0;
        n += iterate(|| e.iter().map(|x| x.0), || e.iter(), &want, N, "iter")?;
        n += iterate(|| (&e).into_iter().map(|x| x.0), || (&e).into_iter(), &want, N, "into_iter")?;
        for &v in &self.alphabet {
            if e.contains(Num(v)) != st.model.contains(&v) {
                return bad(true, format!("contains({}) is {}", v, e.contains(Num(v))));
            }
            n += 1;
        }
        // and it changed nothing
        self.observe(&e, &st.model, true)?;
        Ok(n)
    }
    /// Identity: debug output, clone, conversions.
    fn probe_identity(&self, s: usize) -> Result<u64, Bad> {
        let st = self.states[s].clone();
        let e = self.rebuild(s)?;
        let want: Vec<usize> = st.model.iter().copied().collect();
        let set: BTreeSet<Tag> = want.iter().map(|x| Tag(*x)).collect();
        let pairs: [(String, String); 3] = [(format!("{:?}", e), format!("{:?}", set)), (format!("{:#?}", e), format!("{:#?}", set)), (format!("{:4?}", e), format!("{:4?}", set))];
        for (a, b) in &pairs {
            if a != b {
                return bad(true, format!("prints as {} instead of {}", a, b));
            }
        }
        let b: Vec<usize> = e.clone().into_bit_set().iter().collect();
        if b != want {
            return bad(true, format!("into_bit_set holds {:?} instead of {:?}", b, want));
        }
        let b: Vec<usize> = e.get_ref().iter().collect();
        if b != want {
            return bad(true, format!("get_ref holds {:?} instead of {:?}", b, want));
        }
        let mut n = 5;
        for op in self.ops(0) {
            // neither of a pair of clones follows the other
            let e = self.rebuild(s)?;
            let mut c = e.clone();
            let mut m = st.model.clone();
            if c != e || e != c {
                return bad(true, "a clone differs from its original".into());
            }
            let _ = self.apply(&mut c, &op, &m);
            self.apply_model(&mut m, &op);
            self.observe(&e, &st.model, true).map_err(|x| (format!("after {} on a clone, the original {}", show(&[op.clone()], &self.states), x.0), true))?;
            if (c == e) != (members(&c) == st.model) {
                return bad(true, format!("after {} on a clone, == is {}", show(&[op.clone()], &self.states), c == e));
            }
            let mut e = e;
            let c = e.clone();
            let _ = self.apply(&mut e, &op, &st.model);
            self.observe(&c, &st.model, true).map_err(|x| (format!("after {} on the original, its clone {}", show(&[op.clone()], &self.states), x.0), true))?;
            n += 2;
        }
        Ok(n)
    }
    fn pair_identity(&self, a: (&EnumSet<Num<N>>, &State), b: (&EnumSet<Num<N>>, &State)) -> Result<u64, Bad> {
        let eq = a.1.model == b.1.model;
        if (a.0 == b.0) != eq || (a.0 != b.0) == eq {
            return bad(true, format!("== is {}, != is {} of {:?} and {:?}", a.0 == b.0, a.0 != b.0, a.1.model, b.1.model));
        }
        if eq && (hash(a.0) != hash(b.0) || writes(a.0) != writes(b.0)) {
            return bad(true, format!("equal sets {:?} hash differently", a.1.model));
        }
        let ord = a.1.model.iter().cmp(b.1.model.iter());
        if a.0.cmp(b.0) != ord || a.0.partial_cmp(b.0) != Some(ord) {
            return bad(true, format!("cmp is {:?}, partial_cmp {:?} of {:?} and {:?}", a.0.cmp(b.0), a.0.partial_cmp(b.0), a.1.model, b.1.model));
        }
        if (a.0 < b.0, a.0 <= b.0, a.0 > b.0, a.0 >= b.0) != (ord.is_lt(), ord.is_le(), ord.is_gt(), ord.is_ge()) {
            return bad(true, format!("comparison operators of {:?} and {:?}", a.1.model, b.1.model));
        }
        Ok(4)
    }
    fn pair_algebra(&self, a: (&EnumSet<Num<N>>, &State), b: (&EnumSet<Num<N>>, &State), deep: bool) -> Result<u64, Bad> {
        let (x, y) = (a.0, b.0);
        let (p, q) = (&a.1.model, &b.1.model);
        let t = [(x.is_disjoint(y), p.is_disjoint(q), "is_disjoint"), (x.is_subset(y), p.is_subset(q), "is_subset"), (x.is_superset(y), p.is_superset(q), "is_superset")];
        for (got, want, name) in t {
            if got != want {
                return bad(true, format!("{} is {} of {:?} and {:?}", name, got, p, q));
            }
        }
        let mut n = 3;
        for k in 0..4u8 {
            let want: Vec<usize> = algebra(k, p, q).into_iter().collect();
            let name = ["union", "intersection", "difference", "symmetric_difference"][k as usize];
            let ctx = |e: Bad| (format!("{} (of {:?} and {:?})", e.0, p, q), e.1);
            macro_rules! lazy {
                ($f:ident) => {{
                    if deep {
                        n += iterate(|| x.$f(y).map(|z| z.0), || x.$f(y), &want, N, name).map_err(ctx)?;
                    } else {
                        n += walk(x.$f(y), &want, N, name).map_err(ctx)?;
                    }
                }};
            }
            match k {
                0 => lazy!(union),
                1 => lazy!(intersection),
                2 => lazy!(difference),
                _ => lazy!(symmetric_difference),
            }
        }
        Ok(n)
    }
    fn call<R>(&self, own: bool, f: impl FnOnce() -> Result<R, Bad>) -> Result<R, Bad> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err((format!("panics: {}", last_panic()), own)),
        }
    }
    /// Adds the state after `hist`, judged on its last call.
    fn transition(&mut self, hist: Vec<Op>, depth: usize, out: &mut Out) -> bool {
        self.transitions += 1;
        let own = self.owned(hist.last().unwrap());
        let mut key = None;
        let mut model = Model::new();
        let r = self.call(own, || {
            let mut e: EnumSet<Num<N>> = EnumSet::new();
            let mut m = Model::new();
            for (i, op) in hist.iter().enumerate() {
                // earlier calls were judged before
                let last = i + 1 == hist.len();
                self.apply(&mut e, op, &m).map_err(|x| (x.0, x.1 && last))?;
                self.apply_model(&mut m, op);
                if !cfg!(debug_assertions) && !last {
                    // questions between the calls, should one leave something behind
                    let _ = (e.len(), e.is_empty(), e.iter().next().is_some(), e == e, hash(&e), e.is_subset(&e), e.cmp(&e));
                    let _ = self.alphabet.iter().filter(|x| e.contains(Num(**x))).count();
                }
            }
            self.observe(&e, &m, own)?;
            let b = e.get_ref().get_ref();
            key = Some((b.storage().to_vec(), b.len(), m.iter().copied().collect::<Vec<_>>(), hidden(&e)));
            model = m;
            Ok(())
        });
        match r {
            Ok(()) => {
                let id = self.states.len();
                if let Entry::Vacant(v) = self.seen.entry(key.unwrap()) {
                    v.insert(id);
                    self.states.push(Rc::new(State { hist, model, depth }));
                }
                true
            }
            Err((what, true)) => {
                out.fail = Some((show(&hist, &self.states), what));
                false
            }
            Err(_) => {
                out.pruned += 1;
                true
            }
        }
    }
    fn run(&mut self, deep: bool, out: &mut Out) {
        // histories of calls on one set, to a fixpoint
        for op in self.starts() {
            if !self.transition(vec![op], 0, out) {
                return;
            }
        }
        let ops = self.ops(0);
        let mut next = 0;
        while next < self.states.len() {
            if next == 20_000 {
                // only if sets have state of their own
                out.capped += 1;
                break;
            }
            let (h, d) = (self.states[next].hist.clone(), self.states[next].depth + 1);
            for op in &ops {
                beat();
                let mut h = h.clone();
                h.push(op.clone());
                if !self.transition(h, d, out) {
                    return;
                }
            }
            next += 1;
        }
        out.single = self.states.len() as u64;
        if self.prop == "C21" {
            for s in 0..self.states.len() {
                beat();
                match self.call(true, || self.probe_single(s)) {
                    Ok(n) => self.probes += n,
                    Err((w, _)) => {
                        out.fail = Some((self.name(s), w));
                        return;
                    }
                }
            }
            return;
        }
        // in-place algebra with every reachable set, until nothing new appears
        // (a bounded number of rounds: results of results of ...)
        let mut done = 0;
        let base = self.states.len();
        while done < self.states.len() {
            let (h, d) = (self.states[done].hist.clone(), self.states[done].depth + 1);
            for s in 0..base {
                beat();
                for k in 0..4 {
                    let mut h = h.clone();
                    h.push(Op::With(k, s));
                    if !self.transition(h, d, out) {
                        return;
                    }
                }
                if self.prop == "C23" {
                    let mut h = h.clone();
                    h.push(Op::CloneFrom(s));
                    if !self.transition(h, d, out) {
                        return;
                    }
                }
            }
            if done >= base {
                for op in &ops {
                    let mut h = h.clone();
                    h.push(op.clone());
                    if !self.transition(h, d, out) {
                        return;
                    }
                }
            }
            done += 1;
            if self.states.len() > 6 * base + 100 {
                out.capped += 1;
                break;
            }
        }
        // every pair
        let mut real = vec![];
        for s in 0..self.states.len() {
            match self.call(false, || self.rebuild(s)) {
                Ok(e) => real.push((e, self.states[s].clone())),
                Err(_) => out.pruned += 1,
            }
        }
        for (i, (a, p)) in real.iter().enumerate() {
            if self.prop == "C23" {
                match self.call(true, || self.probe_identity(i)) {
                    Ok(n) => self.probes += n,
                    Err((w, _)) => {
                        out.fail = Some((show(&p.hist, &self.states), w));
                        return;
                    }
                }
            }
            for (b, q) in &real {
                beat();
                let r = self.call(true, || if self.prop == "C22" { self.pair_algebra((a, p), (b, q), if N > 5000 || self.dense { deep && real.len() < 80 && N < 5000 } else { deep || real.len() < 80 }) } else { self.pair_identity((a, p), (b, q)) });
                match r {
                    Ok(n) => self.probes += n,
                    Err((w, _)) => {
                        out.fail = Some((format!("a = {{{}}}, b = {{{}}}", show(&p.hist, &self.states), show(&q.hist, &self.states)), w));
                        return;
                    }
                }
            }
            // a set with itself; and all that looking changed nothing
            let r = self.call(true, || {
                let n = if self.prop == "C22" { self.pair_algebra((a, p), (a, p), true)? } else { self.pair_identity((a, p), (a, p))? };
                self.observe(a, &p.model, true)?;
                Ok(n)
            });
            match r {
                Ok(n) => self.probes += n,
                Err((w, _)) => {
                    out.fail = Some((format!("a = b = {{{}}}", show(&p.hist, &self.states)), w));
                    return;
                }
            }
        }
    }
}
/// Whatever a set consists of besides its bit set.
fn hidden<const N: usize>(e: &EnumSet<Num<N>>) -> Vec<u8> {
    let (all, inner) = (std::mem::size_of_val(e), std::mem::size_of_val(e.get_ref()));
    let base = e as *const _ as *const u8;
    let at = e.get_ref() as *const _ as usize - base as usize;
    (0..all).filter(|i| *i < at || *i >= at + inner).map(|i| unsafe { base.add(i).read_volatile() }).collect()
}
fn algebra(k: u8, a: &Model, b: &Model) -> Model {
    match k {
        0 => a.union(b).copied().collect(),
        1 => a.intersection(b).copied().collect(),
        2 => a.difference(b).copied().collect(),
        _ => a.symmetric_difference(b).copied().collect(),
    }
}
fn bit_set_vec(n: usize) -> bit_set_vec::BitVec {
    bit_set_vec::BitVec::from_elem(n, false)
}
use bit_vec as bit_set_vec;

/// Membership of every value of the type.
fn members<const N: usize>(e: &EnumSet<Num<N>>) -> Model {
    if N <= 300 {
        return (0..N).filter(|x| e.contains(Num(*x))).collect();
    }
    // around the block boundaries, and whatever it claims to hold
    let mut v: Model = (0..N).step_by(if N > 5000 { 997 } else { 7 }).collect();
    v.extend((0..=17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]));
    v.extend([N - 1, N - 2, N - 32, N - 33, 99, 999, 511, 512]);
    v.extend(e.get_ref().iter());
    v.into_iter().filter(|x| *x < N && e.contains(Num(*x))).collect()
}
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Tag(usize);
impl std::fmt::Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "#{}", self.0)
    }
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend(b);
    }
}
fn writes<T: Hash>(x: &T) -> Vec<u8> {
    let mut h = Rec::default();
    x.hash(&mut h);
    h.0
}
fn hints<I: Iterator>(it: &I, left: usize, name: &str, at: &str) -> Result<(), Bad> {
    let (lo, hi) = it.size_hint();
    if lo > left || hi.map_or(false, |h| h < left) {
        return bad(true, format!("{}: size_hint is {:?} {}, but {} are still to come", name, (lo, hi), at, left));
    }
    Ok(())
}
/// One item at a time, hints at each step, nothing after the end.
fn walk<const M: usize, I: Iterator<Item = Num<M>>>(mut it: I, want: &[usize], n: usize, name: &str) -> Result<u64, Bad> {
    for (i, w) in want.iter().enumerate() {
        hints(&it, want.len() - i, name, &format!("after {} items", i))?;
        let x = it.next().map(|x| x.0);
        if x != Some(*w) {
            return bad(true, format!("{}: item {} is {:?}, should be {}", name, i, x, w));
        }
    }
    hints(&it, 0, name, "at the end")?;
    for _ in 0..3 {
        if let Some(x) = it.next() {
            return bad(true, format!("{}: yields {:?} after its last item", name, x));
        }
    }
    let _ = n;
    Ok(want.len() as u64 + 4)
}
/// Every position of the iterator and every way of going on from there.
fn iterate<const M: usize, I: Iterator<Item = Num<M>>, J: Iterator<Item = usize>>(plain: impl Fn() -> J, make: impl Fn() -> I, want: &[usize], n: usize, name: &str) -> Result<u64, Bad> {
    walk(make(), want, n, name)?;
    let all: Vec<usize> = plain().take(M + 1).collect();
    if all != want {
        return bad(true, format!("{}: collects to {:?}, should be {:?}", name, all, want));
    }
    let mut c = 0;
    let l = want.len();
    for i in 0..=l + 1 {
        // of long ones: both ends, the middle, and around every 32nd
        if l > 24 && i > 2 && i + 3 < l && i != l / 2 && (i + 1) % 32 > 2 {
            continue;
        }
        let rest: &[usize] = want.get(i..).unwrap_or(&[]);
        let at = || {
            let mut it = make();
            for _ in 0..i {
                it.next();
            }
            it
        };
        macro_rules! same {
            ($what:expr, $got:expr, $want:expr) => {{
                let (g, w) = ($got, $want);
                if g != w {
                    return bad(true, format!("{}: after {} items, {} gives {:?}, should be {:?}", name, i, $what, g, w));
                }
                c += 1;
            }};
        }
        same!("count", at().count(), rest.len());
        same!("last", at().last().map(|x| x.0), rest.last().copied());
        same!("fold", at().fold(vec![], |mut v, x| { v.push(x.0); v }), rest.to_vec());
        same!("collect", at().map(|x| x.0).collect::<Vec<_>>(), rest.to_vec());
        same!("for_each", { let mut v = vec![]; at().for_each(|x| v.push(x.0)); v }, rest.to_vec());
        same!("by_ref and take", at().by_ref().take(2).map(|x| x.0).collect::<Vec<_>>(), rest.iter().take(2).copied().collect::<Vec<_>>());
        same!("find the last", at().find(|x| Some(&x.0) == rest.last()).map(|x| x.0), rest.last().copied());
        same!("position of the last", at().position(|x| Some(&x.0) == rest.last()), rest.len().checked_sub(1));
        same!("all", at().all(|_| true), true);
        same!("min by number", at().map(|x| x.0).min(), rest.first().copied());
        same!("max by number", at().map(|x| x.0).max(), rest.last().copied());
        for k in [0, 1, 2, rest.len().wrapping_sub(1), rest.len(), rest.len() + 1, 40, M, usize::MAX - 1, usize::MAX] {
            let mut it = at();
            same!(format!("nth({})", k), it.nth(k).map(|x| x.0), rest.get(k).copied());
            let left: &[usize] = k.checked_add(1).and_then(|k| rest.get(k..)).unwrap_or(&[]);
            hints(&it, left.len(), name, &format!("after {} items and nth({})", i, k))?;
            same!(format!("nth({}) and the rest", k), it.map(|x| x.0).collect::<Vec<_>>(), left.to_vec());
        }
        for k in [1, 2, 3] {
            same!(format!("step_by({})", k), at().step_by(k).map(|x| x.0).collect::<Vec<_>>(), rest.iter().step_by(k).copied().collect::<Vec<_>>());
            same!(format!("skip({})", k), at().skip(k).map(|x| x.0).collect::<Vec<_>>(), rest.iter().skip(k).copied().collect::<Vec<_>>());
        }
    }
    Ok(c)
}

#[derive(Default)]
struct Out {
    single: u64,
    states: u64,
    transitions: u64,
    probes: u64,
    pruned: u64,
    capped: u64,
    depth: u64,
    samples: Vec<String>,
    fail: Option<(String, String)>,
}
struct Job {
    name: String,
    size: usize,
    run: Box<dyn Fn(&str, bool) -> Out + Send + Sync>,
}
fn job<const N: usize>(alphabet: &[usize], dense: bool) -> Job {
    let a = alphabet.to_vec();
    Job {
        name: format!("{} values, using {:?}{}", N, alphabet, if dense { " and dense sets" } else { "" }).replace(' ', ""),
        size: alphabet.len() + if N > 5000 { 100 } else { 0 },
        run: Box::new(move |prop, deep| {
            let mut w = World::<N> { alphabet: a.clone(), dense, states: vec![], seen: HashMap::new(), single: true, transitions: 0, probes: 0, prop: prop.into() };
            let mut o = Out::default();
            w.run(deep, &mut o);
            let _ = w.single;
            o.states = w.states.len() as u64;
            o.transitions = w.transitions;
            o.probes = w.probes;
            o.depth = w.states.iter().map(|s| s.depth).max().unwrap_or(0) as u64;
            if let Some(s) = w.states.last() {
                o.samples.push(format!("{} values: {}", N, show(&s.hist, &w.states)));
            }
            o
        }),
    }
}
fn jobs(prop: &str, deep: bool) -> Vec<Job> {
    let mut v = vec![];
    macro_rules! j {
        ($($n:literal: $a:expr;)*) => { $(v.push(job::<$n>(&$a, false));)* };
    }
    macro_rules! dense {
        ($($n:literal: $a:expr;)*) => { $(v.push(job::<$n>(&$a, true));)* };
    }
    j! {
        0: []; 1: [0]; 2: [0, 1]; 3: [0, 1, 2]; 4: [0, 1, 2, 3];
        31: [0, 15, 30]; 32: [0, 1, 31]; 33: [0, 31, 32]; 33: [1, 30, 32];
        34: [31, 32, 33]; 63: [0, 31, 62]; 64: [0, 32, 63]; 64: [31, 32, 63]; 65: [0, 63, 64]; 65: [31, 32, 64];
        66: [63, 64, 65]; 96: [31, 64, 95]; 97: [0, 63, 96]; 128: [0, 64, 127]; 129: [63, 127, 128]; 256: [5, 100, 255]; 300: [0, 255, 299];
    }
    if prop == "C21" || deep {
        j! {
            5: [0, 1, 2, 3, 4]; 6: [0, 1, 2, 3, 4, 5]; 33: [0, 1, 30, 31, 32]; 40: [0, 7, 8, 31, 32, 39]; 64: [0, 31, 32, 33, 63]; 65: [0, 31, 32, 63, 64];
            70: [0, 31, 32, 63, 64, 69]; 100: [0, 31, 32, 63, 64, 99]; 130: [0, 31, 64, 127, 128, 129]; 257: [0, 63, 128, 255, 256]; 1000: [0, 31, 32, 511, 512, 999]; 65536: [0, 255, 256, 65535];
        }
    } else {
        j! { 5: [0, 1, 2, 3, 4]; 33: [0, 30, 31, 32]; 64: [0, 31, 32, 63]; 66: [31, 32, 63, 64]; 70: [0, 31, 32, 64]; 97: [0, 32, 64, 96]; 130: [31, 63, 64, 129]; 257: [31, 32, 255, 256]; }
    }
    dense! { 31: [0, 30]; 32: [0, 31]; 33: [31, 32]; 64: [31, 63]; 65: [32, 64]; 100: [50, 99]; 129: [0, 127]; }
    if deep {
        dense! { 40: [0, 20, 39]; 97: [0, 31, 96]; 128: [0, 63, 127]; 256: [0, 255]; 257: [255, 256]; }
    }
    if prop != "C21" {
        j! { 1000: [0, 511, 999]; 65536: [256, 65535]; 70000: [0, 65536, 69999]; }
    } else {
        j! { 70000: [255, 65536, 69999]; }
        dense! { 300: [255, 299]; 1000: [512]; }
    }
    if prop == "C21" && deep {
        j! {
            8: [0, 1, 2, 3, 4, 5, 6, 7]; 10: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]; 33: [0, 1, 2, 15, 16, 30, 31, 32]; 66: [0, 1, 30, 31, 32, 33, 64, 65]; 128: [0, 31, 32, 63, 64, 95, 96, 127]; 200: [0, 31, 32, 63, 64, 127, 128, 199];
        }
    }
    v.sort_by_key(|j| std::cmp::Reverse(j.size));
    v
}
static STOP: AtomicBool = AtomicBool::new(false);
struct Now(String);
impl mccore::crash::Describe for Now {
    fn describe(&self) -> String {
        self.0.clone()
    }
}
fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let id = arg("--prop").expect("--prop");
    let deep = arg("--tier").as_deref() == Some("thorough");
    mccore::crash::install(&arg("--crash").unwrap_or("/dev/null".into()), 60);
    let one = |j: &Job| {
        let now = Now(j.name.clone());
        mccore::crash::running(&now, || (j.run)(&id, deep))
    };
    let js = jobs(&id, deep);
    if mode == "replay" {
        let ty = arg("--type").expect("--type");
        for j in js.iter().filter(|j| j.name == ty) {
            if let Some((case, what)) = one(j).fail {
                println!("{}: {}", case, what);
                std::process::exit(1);
            }
        }
        println!("holds");
        return;
    }
    let res = mccore::pool::run(&js, 8, |j| {
        if STOP.load(SeqCst) {
            return Out::default();
        }
        let t = std::time::Instant::now();
        let o = one(j);
        if arg("--verbose").is_some() {
            eprintln!("{:.2}s {} states {} transitions {}", t.elapsed().as_secs_f64(), j.name, o.states, o.transitions);
        }
        if o.fail.is_some() {
            STOP.store(true, SeqCst);
        }
        o
    });
    let mut t = Out::default();
    let mut fails = vec![];
    for (o, j) in res.into_iter().zip(&js) {
        t.states += o.states;
        t.single += o.single;
        t.transitions += o.transitions;
        t.probes += o.probes;
        t.pruned += o.pruned;
        t.capped += o.capped;
        t.depth = t.depth.max(o.depth);
        t.samples.extend(o.samples);
        if let Some((case, what)) = o.fail {
            fails.push(json::Obj::new().s("type", &j.name).s("case", &case).s("what", &what).end());
        }
    }
    t.samples.truncate(12);
    let o = json::Obj::new()
        .n("types", js.len() as u64)
        .n("types_fully_enumerated", js.len() as u64)
        .n("states", t.states)
        .n("single", t.single)
        .n("transitions", t.transitions)
        .n("probes", t.probes)
        .n("pruned", t.pruned)
        .n("capped", t.capped)
        .n("depth", t.depth)
        .raw("samples", json::strs(&t.samples))
        .raw("fails", json::arr(&fails))
        .end();
    std::fs::write(arg("--out").expect("--out"), o).unwrap();
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
