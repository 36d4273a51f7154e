//! For every back end and number of variants around every power of two:
//! C07 how many blocks n elements take, C20 whether extreme values survive.
use limsut::*;
use mccore::alloc::{scope, stats};
use mccore::crash::{beat, last_panic};
use mccore::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};

#[global_allocator]
static A: mccore::alloc::Guarded = mccore::alloc::Guarded;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn all() -> Vec<Cfg> {
    let mut v = vec![];
    lim0::all(&mut v);
    lim1::all(&mut v);
    lim2::all(&mut v);
    lim3::all(&mut v);
    lim4::all(&mut v);
    lim5::all(&mut v);
    lim6::all(&mut v);
    lim7::all(&mut v);
    v
}
impl Job {
    fn name(&self) -> String {
        format!("{}/{}", self.c.back, self.c.n)
    }
}
struct Job {
    c: Cfg,
}
#[derive(Default)]
struct Out {
    states: u64,
    transitions: u64,
    fail: Option<(String, String)>,
}
/// bits per element: ceil(log2 n)
fn width(n: usize) -> usize {
    (usize::BITS - (n - 1).leading_zeros()) as usize
}
fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panics: {}", last_panic()))
}

fn density(c: &Cfg, deep: bool, o: &mut Out) -> Result<(), (String, String)> {
    let w = width(c.n);
    let e = c.bits / w;
    let mut lens: Vec<usize> = if e <= 16 || deep { (0..=4 * e + 1).collect() } else { vec![0, 1, 2, e / 2, e - 1, e, e + 1, 2 * e - 1, 2 * e, 2 * e + 1, 3 * e, 4 * e, 4 * e + 1] };
    lens.extend([5 * e, 5 * e + 1, 6 * e - 1, 8 * e, 8 * e + 1, 16 * e + 1]);
    for &l in &lens {
        beat();
        let need = (l + e - 1) / e;
        for how in 0..4 {
            o.states += 1;
            o.transitions += 3;
            let case = format!("{} elements made by {}, shrunk to fit", l, ["from_elem", "push", "collect and truncate", "resize"][how]);
            let base = stats().live;
            let r = call(|| {
                let mut v = match how {
                    0 => (c.from_elem)(c.n - 1, l),
                    1 => {
                        let mut v = (c.collect)(&[]);
                        scope(|| (0..l).for_each(|i| v.push(i % c.n)));
                        v
                    }
                    2 => {
                        let x = vec![0; l + e + 1];
                        let mut v = (c.collect)(&x);
                        scope(|| (0..e + 1).for_each(|_| { v.pop(); }));
                        v
                    }
                    _ => {
                        let mut v = (c.from_slice)(&[]);
                        scope(|| v.resize(l, c.n / 2));
                        v
                    }
                };
                scope(|| v.shrink());
                let s = stats().live - base;
                let r = (v.blocks(), v.block_bytes(), s - std::mem::size_of_val(&*v));
                drop(v);
                r
            });
            let (blocks, bytes, heap) = r.map_err(|m| (case.clone(), m))?;
            if blocks != need || (blocks > 0 && bytes * 8 != c.bits) {
                return Err((case, format!("takes {} blocks of {} bits, but {} variants need {} bits each and {} blocks of {} bits", blocks, bytes * 8, c.n, w, need, c.bits)));
            }
            let want = if c.small && need <= 4 { 0 } else { need * c.bits / 8 };
            if heap != want {
                return Err((case, format!("uses {} bytes of heap instead of {}", heap, want)));
            }
        }
    }
    Ok(())
}

fn extreme(c: &Cfg, deep: bool, o: &mut Out) -> Result<(), (String, String)> {
    let e = c.bits / width(c.n);
    let mut vals = vec![0, c.n - 1, c.n - 2, c.n / 2];
    if deep {
        vals.extend([1, c.n / 2 - 1, c.n / 3]);
    }
    vals.dedup();
    vals.retain(|v| *v < c.n);
    let mut lens = vec![1, 2, 3, e, e + 1, 2 * e + 1];
    if deep {
        lens.extend([e.max(2) - 1, 2 * e, 4 * e + 1, 5 * e + 2]);
    }
    lens.sort();
    lens.dedup();
    for &l in &lens {
        for &a in &vals {
            for &b in &vals {
                beat();
                o.states += 1;
                // all a, with one b at each of a few places
                for p in [0, 1, e.min(l) - 1, e, l - 1] {
                    if p >= l {
                        continue;
                    }
                    let mut m = vec![a; l];
                    m[p] = b;
                    let case = format!("{} elements with number {}, the one at {} with number {}", l, a, p, b);
                    let r = call(|| {
                        let same = |v: &dyn Vect, m: &[usize], how: &str| -> Result<(), String> {
                            let g: Vec<usize> = (0..v.len()).map(|i| v.get(i).unwrap_or(usize::MAX)).collect();
                            if g != m || v.to_vec() != m || v.items() != m {
                                return Err(format!("{}: holds {:?}, should be {:?}", how, g, m));
                            }
                            for &q in &vals {
                                if v.any(q) != m.contains(&q) {
                                    return Err(format!("{}: any(value {}) is {} of {:?}", how, q, v.any(q), m));
                                }
                                if v.all(q) != m.iter().all(|x| *x == q) {
                                    return Err(format!("{}: all(value {}) is {} of {:?}", how, q, v.all(q), m));
                                }
                            }
                            Ok(())
                        };
                        let mut v = (c.from_slice)(&m);
                        same(&*v, &m, "from_slice")?;
                        while let Some(x) = m.pop() {
                            if v.pop() != Some(x) {
                                return Err("pop gives something else".to_string());
                            }
                        }
                        m = vec![a; l];
                        m[p] = b;
                        let mut v = (c.from_elem)(a, l);
                        v.set(p, b);
                        same(&*v, &m, "from_elem and set")?;
                        let x = v.remove(p);
                        if x != b {
                            return Err(format!("remove gives value {}", x));
                        }
                        same(&*v, &vec![a; l - 1], "remove")?;
                        v.insert(p, b);
                        same(&*v, &m, "remove and insert")?;
                        v.push(b);
                        m.push(b);
                        same(&*v, &m, "push")?;
                        v.extend(&[a, b]);
                        m.extend([a, b]);
                        v.resize(m.len() + 4 * e + 2, b);
                        m.resize(m.len() + 4 * e + 2, b);
                        same(&*v, &m, "extend and resize")
                    });
                    o.transitions += 12;
                    match r {
                        Err(m) => return Err((case, m)),
                        Ok(Err(m)) => return Err((case, m)),
                        _ => (),
                    }
                }
            }
        }
    }
    Ok(())
}
/// Membership queries on vectors whose blocks hold every word (8 and 16 bits)
/// or every word that differs from a uniform one in at most two elements.
fn membership(c: &Cfg, deep: bool, o: &mut Out) -> Result<(), (String, String)> {
    let w = width(c.n);
    let e = c.bits / w;
    let ones = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    let block = if c.bits == 128 { u128::MAX } else { (1u128 << c.bits) - 1 };
    // only the widths' extremes of the numbers of variants, except for u8
    let extreme = c.n.is_power_of_two() || (c.n - 1).is_power_of_two() || c.n == usize::MAX;
    if !extreme && !(c.bits == 8 && deep) {
        return Ok(());
    }
    let mut words: Vec<u128> = vec![];
    if c.bits == 8 || c.bits == 16 {
        words = (0..=block).collect();
    } else {
        let n = c.n as u128;
        let mut vals = vec![0, n - 1, n - 2, 1, n / 2, (ones >> 1) + 1, ones / 3, ones >> 1];
        vals.retain(|v| *v < n);
        vals.sort();
        vals.dedup();
        let put = |word: u128, i: usize, v: u128| word & !(ones << (i * w)) | v << (i * w);
        let used = if e * w == 128 { u128::MAX } else { (1u128 << (e * w)) - 1 };
        let junk = [0, block & !used, block & !used & (u128::MAX / 3), block & !used & (u128::MAX / 3 * 2)];
        for &a in &vals {
            let base = (0..e).fold(0u128, |x, i| put(x, i, a));
            for i in 0..e {
                for &b in &vals {
                    let x = put(base, i, b);
                    words.push(x);
                    let js: Vec<usize> = if deep { (i + 1..e).collect() } else { [i + 1, i + 2, e - 1].into_iter().filter(|j| *j > i && *j < e).collect() };
                    for j in js {
                        for &d in &vals {
                            if deep || e <= 8 || b == d || (b == a) != (d == a) || i < 2 || i + 3 > e {
                                words.push(put(x, j, d));
                            }
                        }
                    }
                }
            }
        }
        words.sort();
        words.dedup();
        if e * w < c.bits {
            words = words.iter().enumerate().flat_map(|(k, &x)| if deep { vec![x | junk[0], x | junk[1], x | junk[2], x | junk[3]] } else { vec![x | junk[k % 4], x | junk[1]] }).collect();
        }
    }
    let decode = |word: u128| -> Vec<usize> { (0..e).map(|i| (word >> (i * w) & ones) as usize).collect() };
    let mut v2 = (c.from_elem)(0, 3 * e);
    // a vector of a given length over the same three blocks
    for &word in &words {
        beat();
        let d = decode(word);
        let mut lens: Vec<usize> = if c.bits <= 16 || deep { (1..=e).collect() } else { vec![1, 2, e / 2, e.max(2) - 1, e] };
        lens.retain(|l| *l >= 1 && *l <= e && d[..*l].iter().all(|x| *x < c.n));
        lens.dedup();
        for (k, &l) in lens.iter().enumerate() {
            let a = d[0];
            let second = if c.n > 2 { (a + 1) % c.n } else { a };
            for full in 0..if k + 1 == lens.len() || c.bits <= 8 { 3 } else { 1 } {
                // blocks before the last one
                let m: Vec<usize> = match full {
                    0 => d[..l].to_vec(),
                    1 => std::iter::repeat(a).take(e).chain(d[..l].iter().copied()).collect(),
                    _ => {
                        if d.iter().any(|x| *x >= c.n) {
                            continue;
                        }
                        d.iter().copied().chain(std::iter::repeat(second).take(e)).chain(d[..l].iter().copied()).collect()
                    }
                };
                let uniform = |x: usize| (0..e).fold(0u128, |s, i| s | (x as u128) << (i * w));
                let r = call(|| -> Result<u64, String> {
                    v2.resize(3 * e, 0);
                    match full {
                        0 => v2.raw(0, word),
                        1 => {
                            v2.raw(0, uniform(a));
                            v2.raw(1, word);
                        }
                        _ => {
                            v2.raw(0, word);
                            v2.raw(1, uniform(second));
                            v2.raw(2, word);
                        }
                    }
                    v2.resize(m.len(), 0);
                    // the layout itself is C11's concern
                    for (i, x) in m.iter().enumerate() {
                        if v2.get(i) != Some(*x) {
                            return Ok(0);
                        }
                    }
                    let mut qs = vec![0, c.n - 1, a, m[m.len() - 1], second, a ^ 1, a ^ (1 << (w - 1)), m[m.len() - 1] ^ 1];
                    if c.n <= 16 {
                        qs.extend(0..c.n);
                    } else {
                        qs.extend(d[..l].iter().take(6));
                        qs.extend([1, c.n / 2]);
                    }
                    qs.retain(|q| *q < c.n);
                    qs.sort();
                    qs.dedup();
                    for &q in &qs {
                        let (any, all) = (m.contains(&q), m.iter().all(|x| *x == q));
                        if v2.any(q) != any {
                            return Err(format!("any(value {}) is {} of {:?}", q, !any, m));
                        }
                        if v2.all(q) != all {
                            return Err(format!("all(value {}) is {} of {:?}", q, !all, m));
                        }
                    }
                    Ok(2 * qs.len() as u64)
                });
                o.states += 1;
                let case = || format!("last block {:#x}, {} elements", word, m.len());
                match r {
                    Err(x) => return Err((case(), x)),
                    Ok(Err(x)) => return Err((case(), x)),
                    Ok(Ok(t)) => o.transitions += t,
                }
            }
        }
    }
    Ok(())
}
static STOP: AtomicBool = AtomicBool::new(false);
struct Now(String);
impl mccore::crash::Describe for Now {
    fn describe(&self) -> String {
        self.0.clone()
    }
}
fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let id = arg("--prop").expect("--prop");
    let deep = arg("--tier").as_deref() == Some("thorough");
    mccore::crash::install(&arg("--crash").unwrap_or("/dev/null".into()), 60);
    let one = |j: &Job| -> Out {
        let mut o = Out::default();
        let now = Now(j.name());
        let r = mccore::crash::running(&now, || match id.as_str() {
            "C04" => membership(&j.c, deep, &mut o),
            "C07" => density(&j.c, deep, &mut o),
            _ => extreme(&j.c, deep, &mut o),
        });
        o.fail = r.err();
        o
    };
    let mut js: Vec<Job> = all().into_iter().map(|c| Job { c }).collect();
    // the ones with most to do first
    js.sort_by_key(|j| (if j.c.bits == 16 { 0 } else { 1 }, std::cmp::Reverse(j.c.bits / width(j.c.n))));
    if mode == "replay" {
        let ty = arg("--type").expect("--type");
        for j in js.iter().filter(|j| j.name() == ty) {
            if let Some((case, what)) = one(j).fail {
                println!("{}: {}", case, what);
                std::process::exit(1);
            }
        }
        println!("holds");
        return;
    }
    let res = mccore::pool::run(&js, 8, |j| {
        if STOP.load(SeqCst) {
            return Out::default();
        }
        let o = one(j);
        if o.fail.is_some() {
            STOP.store(true, SeqCst);
        }
        o
    });
    let (mut states, mut transitions) = (0, 0);
    let mut fails = vec![];
    for (o, j) in res.into_iter().zip(&js) {
        states += o.states;
        transitions += o.transitions;
        if let Some((case, what)) = o.fail {
            fails.push(json::Obj::new().s("type", &j.name()).s("case", &case).s("what", &what).end());
        }
    }
    let samples: Vec<String> = js.iter().step_by(js.len() / 10).map(|j| j.name()).collect();
    let o = json::Obj::new()
        .n("types", js.len() as u64)
        .n("types_fully_enumerated", 0)
        .n("states", states)
        .n("transitions", transitions)
        .raw("samples", json::strs(&samples))
        .raw("fails", json::arr(&fails))
        .end();
    std::fs::write(arg("--out").expect("--out"), o).unwrap();
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
