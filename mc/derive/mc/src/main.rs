//! Exhaustive checks of derived mappings: C18 (one-to-one), C19 (numbering).
use likecheck::*;
use likesut::*;
use mccore::crash::beat;
use mccore::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn types() -> Vec<(bool, Ty)> {
    let mut v = vec![];
    derived0::all(&mut v);
    derived1::all(&mut v);
    derived2::all(&mut v);
    derived3::all(&mut v);
    derived4::all(&mut v);
    derived5::all(&mut v);
    derived6::all(&mut v);
    derived7::all(&mut v);
    v
}
/// Numbers that no value has must be rejected by enums.
fn past_the_end(t: &Ty, o: &mut Out) {
    let n = (t.count)();
    let mut ks: Vec<u128> = (n..n + 40).collect();
    ks.extend([2 * n, 2 * n + 1, 3 * n, n * n, n * n + n, usize::MAX as u128, usize::MAX as u128 - 1]);
    for b in 0..64 {
        ks.push(n + (1 << b));
        ks.push((1 << b) - 1);
        ks.push(1 << b);
    }
    ks.retain(|k| *k >= n && *k <= usize::MAX as u128);
    ks.sort();
    ks.dedup();
    for k in ks {
        beat();
        o.states += 1;
        o.transitions += 1;
        if let Ok(v) = catch_unwind(AssertUnwindSafe(|| (t.from)(k as usize))) {
            o.fail = Some((t.name.to_string(), format!("number {}", k), format!("is beyond the {} values of the enum, but gives value {} instead of a panic", n, v)));
            return;
        }
    }
}
static STOP: AtomicBool = AtomicBool::new(false);
struct Now(String);
impl mccore::crash::Describe for Now {
    fn describe(&self) -> String {
        self.0.clone()
    }
}
fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let id = arg("--prop").expect("--prop");
    let deep = arg("--tier").as_deref() == Some("thorough");
    mccore::crash::install(&arg("--crash").unwrap_or("/dev/null".into()), 60);
    let one = |t: &(bool, Ty)| -> Out {
        let now = Now(t.1.name.to_string());
        mccore::crash::running(&now, || {
            if id == "C18" {
                return bijection(&t.1, deep);
            }
            let mut o = order(&t.1, deep);
            if o.fail.is_none() && t.0 {
                past_the_end(&t.1, &mut o);
            }
            o
        })
    };
    let js = types();
    if mode == "replay" {
        let ty = arg("--type").expect("--type");
        for j in js.iter().filter(|j| j.1.name == ty) {
            if let Some((_, case, what)) = one(j).fail {
                println!("{}: {}", case, what);
                std::process::exit(1);
            }
        }
        println!("holds");
        return;
    }
    let res = mccore::pool::run(&js, 8, |j| {
        if STOP.load(SeqCst) {
            return Out::default();
        }
        let o = one(j);
        if o.fail.is_some() {
            STOP.store(true, SeqCst);
        }
        o
    });
    let (mut states, mut transitions, mut full) = (0, 0, 0);
    let (mut fails, mut samples) = (vec![], vec![]);
    for o in res {
        states += o.states;
        transitions += o.transitions;
        full += o.full as u64;
        samples.extend(o.samples);
        if let Some((ty, case, what)) = o.fail {
            fails.push(json::Obj::new().s("type", &ty).s("case", &case).s("what", &what).end());
        }
    }
    let k = (samples.len() / 12).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(k).take(12).collect();
    let o = json::Obj::new()
        .n("types", js.len() as u64)
        .n("types_fully_enumerated", full)
        .n("states", states)
        .n("transitions", transitions)
        .raw("samples", json::strs(&samples))
        .raw("fails", json::arr(&fails))
        .end();
    std::fs::write(arg("--out").expect("--out"), o).unwrap();
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
