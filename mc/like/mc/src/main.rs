//! Exhaustive checks of the built-in number mappings (C14, C15), of the values
//! iterator (C16) and of packed single values (C17).

use likecheck::*;
use likesut::*;
use mccore::json;
use std::sync::atomic::{AtomicBool, Ordering::*};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn types() -> Vec<Ty> {
    let mut v = vec![];
    liket0::all(&mut v);
    liket1::all(&mut v);
    liket2::all(&mut v);
    liket3::all(&mut v);
    liket4::all(&mut v);
    liket5::all(&mut v);
    liket6::all(&mut v);
    liket7::all(&mut v);
    v
}

macro_rules! nums {
    ($v:ident, $($n:literal)*) => { $($v.push(Ty::of::<Num<$n>>(concat!("Num<", $n, ">")));)* };
}
/// Types whose values iterator is explored.
fn iterated(all: &[Ty]) -> Vec<Ty> {
    let mut v = vec![];
    nums!(v, 0 1 2 3 4 5 6 7 8 9 10 12 15 16 17 31 32 33 63 64 65 100 127 128 129 254 255 256 257 300 65535 65536 65537 4294967295 4294967296 4294967297 9223372036854775807 9223372036854775808 18446744073709551614 18446744073709551615);
    // and composed types of every size up to 20, three of each
    for n in 0..=20u128 {
        v.extend(all.iter().filter(|t| (t.count)() == n).take(3));
    }
    v.extend(all.iter().filter(|t| (t.count)() > 1 << 32).take(10));
    v
}

macro_rules! p {
    ($v:ident, $w:ident, $($t:ty),*) => { $($v.push($w::<$t>(stringify!($t), 0));)* };
}
macro_rules! pn {
    ($v:ident, $w:ident, $($n:literal)*) => { $($v.push($w::<Num<$n>>(concat!("Num<", $n, ">"), $n));)* };
}
fn packed() -> Vec<Packed> {
    let mut v = vec![];
    pn!(v, packed8, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 40 48 50 60 63 64 65 66 80 90 96 100 110 120 126 127 128 129 130 140 150 160 170 180 190 191 192 193 200 210 220 230 240 250 252 253 254 255 256);
    pn!(v, packed16, 1 2 3 4 5 7 8 9 15 16 17 31 32 33 63 64 65 100 127 128 129 200 254 255 256 257 258 511 512 513 1000 1023 1024 1025 4095 4096 4097 10000 16384 30000 32767 32768 32769 40000 50000 60000 65279 65280 65281 65534 65535 65536);
    p!(v, packed8, (), bool, Option<bool>, Option<Option<bool>>, Result<bool, ()>, (bool, bool), (bool, Option<bool>, ()), [bool; 8], [bool; 0], [Option<bool>; 5], (bool,), Result<[bool; 7], [bool; 7]>, Option<[bool; 7]>, ((bool, bool), [bool; 6]));
    p!(v, packed16, (), bool, Option<bool>, Option<Option<bool>>, Result<bool, ()>, (bool, bool), (bool, Option<bool>, ()), [bool; 16], [bool; 0], [Option<bool>; 10], (bool,), Result<[bool; 15], [bool; 15]>, Option<[bool; 15]>, ((bool, bool), [bool; 14]));
    for x in v.iter_mut().filter(|x| x.count == 0) {
        x.count = (types_count(x.name)) as usize;
    }
    v
}
fn types_count(name: &str) -> u128 {
    macro_rules! t { ($($t:ty),*) => { $(if name == stringify!($t) { return <$t as Spec>::count(); })* } }
    t!((), bool, Option<bool>, Option<Option<bool>>, Result<bool, ()>, (bool, bool), (bool, Option<bool>, ()), [bool; 8], [bool; 0], [Option<bool>; 5], (bool,), Result<[bool; 7], [bool; 7]>, Option<[bool; 7]>, ((bool, bool), [bool; 6]));
    t!([bool; 16], [Option<bool>; 10], Result<[bool; 15], [bool; 15]>, Option<[bool; 15]>, ((bool, bool), [bool; 14]));
    panic!("{}", name)
}

enum Job {
    Ty(Ty),
    P(Packed),
}
fn jobs(id: &str) -> Vec<Job> {
    let all = types();
    match id {
        "C14" | "C15" => {
            let mut v = all;
            nums_like(&mut v);
            v.into_iter().map(Job::Ty).collect()
        }
        "C16" => iterated(&all).into_iter().map(Job::Ty).collect(),
        "C17" => packed().into_iter().map(Job::P).collect(),
        _ => panic!("unknown property"),
    }
}
/// Items with many values inside Option, Result, pairs.
fn nums_like(v: &mut Vec<Ty>) {
    macro_rules! t { ($($t:ty),*) => { $(v.push(Ty::of::<$t>(stringify!($t)));)* } }
    t!(Option<Num<255>>, Option<Num<256>>, Option<Num<65535>>, Option<Num<65536>>, Option<Num<4294967295>>, Option<Num<4294967296>>, Option<Num<18446744073709551614>>);
    t!(Result<Num<255>, Num<256>>, Result<Num<4294967296>, Num<65536>>, Result<Num<9223372036854775808>, Num<9223372036854775807>>);
    t!((Num<255>, Num<257>), (Num<256>, Num<256>), (Num<65536>, Num<65536>), (Num<4294967295>, Num<4294967297>), (Num<4294967296>, Num<4294967295>), (Num<1>, Num<18446744073709551615>), (Num<18446744073709551615>, Num<1>), (Num<18446744073709551615>, Num<0>), (Num<0>, Num<18446744073709551615>));
    t!((Num<65536>, Num<65536>, Num<65535>), [Num<65536>; 3], [Num<255>; 8], [Num<7>; 22], [Num<12>; 17]);
}

static STOP: AtomicBool = AtomicBool::new(false);

struct Now(String);
impl mccore::crash::Describe for Now {
    fn describe(&self) -> String {
        self.0.clone()
    }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let id = arg("--prop").expect("--prop");
    let deep = arg("--tier").as_deref() == Some("thorough");
    mccore::crash::install(&arg("--crash").unwrap_or("/dev/null".into()), 60);
    let only = arg("--case");
    let one = |j: &Job, only: Option<&str>| -> Out {
        let name = match j {
            Job::Ty(t) => t.name,
            Job::P(p) => p.name,
        };
        let now = Now(name.to_string());
        mccore::crash::running(&now, || match j {
            Job::Ty(t) => match id.as_str() {
                "C14" => bijection(t, deep),
                "C15" => order(t, deep),
                _ => iterate(t, deep, only),
            },
            Job::P(p) => pack(p, deep),
        })
    };
    match mode.as_str() {
        "run" => {
            let js = jobs(&id);
            let res = mccore::pool::run(&js, 8, |j| {
                if STOP.load(SeqCst) {
                    return Out::default();
                }
                let o = one(j, None);
                if o.fail.is_some() {
                    STOP.store(true, SeqCst);
                }
                o
            });
            let mut t = Out::default();
            let mut fails = vec![];
            let mut full = 0;
            for o in res {
                t.states += o.states;
                t.transitions += o.transitions;
                full += o.full as u64;
                t.samples.extend(o.samples);
                if let Some((ty, case, what)) = o.fail {
                    fails.push(json::Obj::new().s("type", &ty).s("case", &case).s("what", &what).end());
                }
            }
            let k = (t.samples.len() / 12).max(1);
            let samples: Vec<String> = t.samples.into_iter().step_by(k).take(12).collect();
            let o = json::Obj::new()
                .n("types", js.len() as u64)
                .n("types_fully_enumerated", full)
                .n("states", t.states)
                .n("transitions", t.transitions)
                .raw("samples", json::strs(&samples))
                .raw("fails", json::arr(&fails))
                .end();
            std::fs::write(arg("--out").expect("--out"), o).unwrap();
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        "replay" => {
            let ty = arg("--type").expect("--type");
            let js = jobs(&id);
            for j in &js {
                let name = match j {
                    Job::Ty(t) => t.name.to_string(),
                    Job::P(p) => format!("PackedU{}<{}>", p.bytes * 8, p.name),
                };
                if name == ty {
                    let o = one(j, only.as_deref());
                    if let Some((_, case, what)) = o.fail {
                        println!("{}: {}", case, what);
                        std::process::exit(1);
                    }
                }
            }
            println!("holds");
        }
        _ => panic!("run or replay"),
    }
}
