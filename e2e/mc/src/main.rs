//! C24: every value of every composed type through every container.
use e2esut::*;
use mccore::crash::{beat, last_panic};
use mccore::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn all() -> Vec<Ty> {
    let mut v = vec![];
    e2et0::all(&mut v);
    e2et1::all(&mut v);
    e2et2::all(&mut v);
    e2et3::all(&mut v);
    e2et4::all(&mut v);
    e2et5::all(&mut v);
    e2et6::all(&mut v);
    e2et7::all(&mut v);
    v
}
#[derive(Default)]
struct Out {
    states: u64,
    transitions: u64,
    full: bool,
    fail: Option<(String, String)>,
}
fn go(o: &mut Out, name: &str, f: impl FnOnce() -> Result<(), String>) -> Result<(), (String, String)> {
    beat();
    o.states += 1;
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err((name.into(), e)),
        Err(_) => Err((name.into(), format!("panics: {}", last_panic()))),
    }
}
/// bits per element: ceil(log2 n)
fn width(n: u128) -> u32 {
    128 - (n - 1).leading_zeros()
}
fn explore(t: &Ty, deep: bool, o: &mut Out) -> Result<(), (String, String)> {
    let n = t.count;
    if t.declared as u128 != n {
        return Err(("declaration".into(), format!("has {} values but declares {}", n, t.declared)));
    }
    let limit = if deep { 70000 } else { 1100 };
    // values looked at
    let vals: Vec<u128> = if n <= limit {
        o.full = true;
        (0..n).collect()
    } else {
        let mut v: Vec<u128> = (0..40).chain(n - 40..n).collect();
        for k in 1..64 {
            for d in [-1i128, 0, 1] {
                let x = (1i128 << k) + d;
                if x > 0 && (x as u128) < n {
                    v.push(x as u128);
                    v.push(n - x as u128);
                }
            }
        }
        v.sort();
        v.dedup();
        v
    };
    let few = if deep { 130 } else { 20 };
    let partners = |a: u128| -> Vec<u128> {
        if n <= few {
            return (0..n).collect();
        }
        let mut v = vec![0, 1, n / 2, n - 2, n - 1, a ^ 1, (a + 1) % n, n - 1 - a];
        v.retain(|x| *x < n);
        v.sort();
        v.dedup();
        v
    };
    for s in &t.stores {
        for &a in &vals {
            go(o, s.name, || (s.trip)(&[a]))?;
            o.transitions += 12;
            if s.bits == 0 {
                continue;
            }
            let e = (s.bits / width(n)) as usize;
            let mut at = vec![0, 1, e / 2, e.max(2) - 2, e - 1, e];
            if deep || n <= 6 {
                at = (0..=e).collect();
            }
            at.sort();
            at.dedup();
            for b in partners(a) {
                for &p in &at {
                    // a among copies of b, in the first block or just past it
                    let mut v = vec![b; e.max(p) + 1 + (p & 1)];
                    v[p] = a;
                    go(o, s.name, || (s.trip)(&v))?;
                    o.transitions += 12 * v.len() as u64;
                }
            }
        }
        if s.bits > 0 && n <= limit {
            go(o, s.name, || (s.trip)(&vals))?;
            let r: Vec<u128> = vals.iter().rev().copied().collect();
            go(o, s.name, || (s.trip)(&r))?;
            o.transitions += 24 * n as u64;
        }
    }
    // sets hold a bit per value
    if n <= 1 << 20 {
        let look = if n <= 300 || deep && n <= 1100 { n } else { 0 };
        go(o, "EnumSet", || (t.set)(&[], look))?;
        for &a in &vals {
            go(o, "EnumSet", || (t.set)(&[a], look))?;
            o.transitions += 8;
            for b in partners(a) {
                go(o, "EnumSet", || (t.set)(&[a, b], if n <= few { look } else { 0 }))?;
                o.transitions += 12;
            }
        }
        if n <= 6 {
            // every set
            for m in 0..1u128 << n {
                let v: Vec<u128> = (0..n).filter(|i| m >> i & 1 == 1).collect();
                go(o, "EnumSet", || (t.set)(&v, look))?;
            }
        }
        if n <= limit {
            go(o, "EnumSet", || (t.set)(&vals, if n <= 300 { n } else { 0 }))?;
        }
    }
    Ok(())
}
static STOP: AtomicBool = AtomicBool::new(false);
struct Now(String);
impl mccore::crash::Describe for Now {
    fn describe(&self) -> String {
        self.0.clone()
    }
}
fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let _ = arg("--prop");
    let deep = arg("--tier").as_deref() == Some("thorough");
    mccore::crash::install(&arg("--crash").unwrap_or("/dev/null".into()), 60);
    let one = |t: &Ty| {
        let mut o = Out::default();
        let now = Now(t.name.into());
        o.fail = mccore::crash::running(&now, || explore(t, deep, &mut o)).err();
        o
    };
    let mut ts = all();
    ts.sort_by_key(|t| std::cmp::Reverse(if t.count > 70000 { 300 } else { t.count }));
    if mode == "replay" {
        let ty = arg("--type").expect("--type");
        for t in ts.iter().filter(|t| t.name == ty) {
            if let Some((case, what)) = one(t).fail {
                println!("{}: {}", case, what);
                std::process::exit(1);
            }
        }
        println!("holds");
        return;
    }
    let res = mccore::pool::run(&ts, 8, |t| {
        if STOP.load(SeqCst) {
            return Out::default();
        }
        let o = one(t);
        if o.fail.is_some() {
            STOP.store(true, SeqCst);
        }
        o
    });
    let (mut states, mut transitions, mut full, mut pairs) = (0, 0, 0, 0);
    let mut fails = vec![];
    for (o, t) in res.into_iter().zip(&ts) {
        states += o.states;
        transitions += o.transitions;
        full += o.full as u64;
        pairs += t.stores.len() as u64 + 1;
        if let Some((case, what)) = o.fail {
            fails.push(json::Obj::new().s("type", t.name).s("case", &case).s("what", &what).end());
        }
    }
    let samples: Vec<String> = ts.iter().step_by(ts.len() / 10).map(|t| format!("{} ({} values)", t.name, t.count)).collect();
    let o = json::Obj::new()
        .n("types", ts.len() as u64)
        .n("types_fully_enumerated", full)
        .n("pairs", pairs)
        .n("states", states)
        .n("transitions", transitions)
        .raw("samples", json::strs(&samples))
        .raw("fails", json::arr(&fails))
        .end();
    std::fs::write(arg("--out").expect("--out"), o).unwrap();
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
