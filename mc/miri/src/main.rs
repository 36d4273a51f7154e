//! C09 under Miri: the same histories as the explorer's, fewer of them, each
//! executed by an interpreter that stops at the first undefined behaviour
//! (uninitialised reads, accesses outside an object or after its end, invalid
//! values, aliasing violations, leaks), whether or not it has consequences.
#![allow(dead_code)]
#[path = "../../vec/src/alpha.rs"]
mod alpha;
#[path = "../../vec/src/engine.rs"]
mod engine;
#[path = "../../vec/src/ops.rs"]
mod ops;
use alpha::*;
use engine::*;
use ops::*;
use std::io::Write;
use vecsut::*;

fn configs() -> Vec<Cfg> {
    let v: &[&'static dyn Make] = &[
        &Mk::<U8<2>>::NEW, &Mk::<U8<5>>::NEW, &Mk::<U8<16>>::NEW, &Mk::<U8<256>>::NEW,
        &Mk::<U16<20>>::NEW, &Mk::<U16<65536>>::NEW, &Mk::<U16<2>>::NEW,
        &Mk::<U32<2>>::NEW, &Mk::<U32<600>>::NEW, &Mk::<U32<{ 1 << 32 }>>::NEW, &Mk::<U32<70000>>::NEW,
        &Mk::<U64<2>>::NEW, &Mk::<U64<{ 1 << 21 }>>::NEW, &Mk::<U64<{ usize::MAX }>>::NEW, &Mk::<U64<{ 1 << 33 }>>::NEW,
        &Mk::<U128<{ 1 << 30 }>>::NEW, &Mk::<U128<{ usize::MAX }>>::NEW, &Mk::<U128<{ 1 << 43 }>>::NEW,
        &Mk::<Small<600>>::NEW, &Mk::<Small<{ 1 << 32 }>>::NEW, &Mk::<Small<70000>>::NEW, &Mk::<Small<17>>::NEW,
    ];
    v.iter().map(|m| Cfg::of(*m)).collect()
}

struct Ub {
    quiet: bool,
}
impl Prop for Ub {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn own(&self, _op: &Op) -> bool {
        true
    }
    fn content(&self) -> bool {
        false
    }
    fn alphabet(&self, j: &Job, m: &[u64], left: usize, _owned: bool, out: &mut Vec<Op>) {
        if left > 0 && j.profile != Profile::Small {
            mix(j, m, out);
            return;
        }
        elementwise(j, m, false, out);
        positional(j, m, false, out);
        bulk(j, m, false, out);
        callbacks(j, m, false, out);
        copies(j, m, false, out);
        faults(j, m, false, out);
        if j.profile == Profile::Small {
            raw(j, m, out);
        }
        out.retain(|o| !o.a.contains(&MAX) || matches!(o.k, K::Extend | K::Collect));
    }
    fn before(&self, j: &Job, path: &[Op]) {
        if !self.quiet {
            println!("@{}|{}", j.cfg.name(), text(path));
        }
    }
    fn check(&self, j: &Job, st: &mut St, _pre: &Pre, path: &[Op], _exp: &Exp, _out: &Out) -> Result<(), String> {
        if let Some(d) = st.bad {
            return Err(format!("{} made the vector decode discriminant {} of a type with {} variants", path.last().unwrap().text(), d, j.cfg.n));
        }
        Ok(())
    }
    fn probe(&self, j: &Job, st: &mut St, _path: &[Op]) -> Result<u64, String> {
        let n = j.cfg.n;
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for x in [0, n - 1] {
                let _ = (st.v.any(x), st.v.all(x));
            }
            let _ = st.v.to_vec();
            let o = st.v.clone_box();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            o.hash(&mut h);
            let _ = (st.v.eq(&*o), o.debug(false).len());
            let mut it = o.into_iter();
            let _ = (it.nth(1), it.next_back(), it.next(), it.nth(usize::MAX), it.next());
            let mut it = st.v.iter();
            let _ = (it.next_back(), it.nth_back(1), it.next(), it.nth(usize::MAX), it.next_back());
            drop(it);
            st.v.shrink();
            while st.v.pop().is_some() {}
            st.v.push(0);
        }));
        Ok(1)
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn mk(cfg: Cfg, profile: Profile) -> Job {
    Job { cfg, bounds: vec![cfg.e], others: vec![], starts: vec![], depth: 1, maxlen: usize::MAX, cap: usize::MAX, profile, all: 0 }
}

fn main() {
    mccore::crash::hook();
    let all = configs();
    if std::env::args().nth(1).as_deref() == Some("replay") {
        let c = arg("--cfg").expect("--cfg");
        let cfg = *all.iter().find(|x| x.name() == c).expect("known configuration");
        let hist = parse(&arg("--hist").expect("--hist")).expect("well-formed history");
        match replay(&Ub { quiet: true }, &mk(cfg, Profile::Edge), &hist) {
            Err(e) if !e.starts_with("(outside") => {
                println!("{}", e);
                std::process::exit(1);
            }
            _ => println!("holds"),
        }
        return;
    }
    let shard: usize = arg("--shard").and_then(|x| x.parse().ok()).unwrap_or(0);
    let of: usize = arg("--of").and_then(|x| x.parse().ok()).unwrap_or(1);
    let deep = arg("--tier").as_deref() == Some("thorough");
    let mut js: Vec<Job> = vec![];
    for c in all {
        let e = c.e as u64;
        // one block and one element; room, and leftovers beyond the length
        let base = vec![vec![o0(K::New)], vec![o2(K::FromVec, e + 1, 4)], vec![o2(K::PushN, 3 * e, 5), o1(K::Truncate, e)]];
        if !deep {
            // one of each back end, with the largest elements
            if e == 1 && (c.s == c.w || c.w == 128) {
                let mut j = mk(c, Profile::Small);
                j.starts = base;
                js.push(j);
            }
            continue;
        }
        let mut j = mk(c, Profile::Edge);
        j.starts = base;
        if e <= 8 {
            j.starts = starts(&j, false, false);
        }
        js.push(j);
        if e <= 2 {
            let mut j = mk(c, Profile::Small);
            j.starts = vec![vec![o0(K::New)]];
            j.depth = 255;
            j.maxlen = if c.mk.small() { 6 } else { 3 };
            js.push(j);
        }
    }
    if let Some(f) = arg("--only") {
        js.retain(|j| format!("{}/{:?}", j.cfg.name(), j.profile) == f);
    }
    let mut t = Stats::default();
    let mut fail = None;
    // one job for each start
    js = js
        .into_iter()
        .flat_map(|mut j| {
            let st = std::mem::take(&mut j.starts);
            st.into_iter().map(move |s| Job { cfg: j.cfg, bounds: j.bounds.clone(), others: vec![], starts: vec![s], depth: j.depth, maxlen: j.maxlen, cap: j.cap, profile: j.profile, all: 0 })
        })
        .collect();
    if std::env::args().nth(1).as_deref() != Some("run") {
        println!("#{}", js.len());
        return;
    }
    for (i, j) in js.iter().enumerate() {
        if i % of != shard {
            continue;
        }
        let (s, f) = explore(&Ub { quiet: false }, j);
        t.states += s.states;
        t.transitions += s.transitions;
        t.pruned += s.pruned;
        if let Some(f) = f {
            fail = Some(f);
            break;
        }
    }
    println!("={} {} {}", t.states, t.transitions, t.pruned);
    if let Some(f) = fail {
        println!("!{}|{}|{}", f.cfg, f.hist, f.what.replace('\n', " "));
    }
    std::io::stdout().flush().unwrap();
}
