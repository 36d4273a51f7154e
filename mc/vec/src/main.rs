mod alpha;
mod engine;
mod lasso;
mod ops;
mod props;
use engine::*;
use mccore::json;
use ops::*;
use std::sync::atomic::Ordering::*;
use std::time::Instant;
use vecsut::Make;

#[global_allocator]
static A: mccore::alloc::Guarded = mccore::alloc::Guarded;

fn configs() -> Vec<Cfg> {
    let mut v: Vec<&'static dyn Make> = vec![];
    leaf_a::all(&mut v);
    leaf_b::all(&mut v);
    leaf_c::all(&mut v);
    leaf_d::all(&mut v);
    leaf_e::all(&mut v);
    leaf_f::all(&mut v);
    leaf_g::all(&mut v);
    let mut r: Vec<Cfg> = vec![];
    for m in v {
        let c = Cfg::of(m);
        if !r.iter().any(|x| x.name() == c.name()) {
            r.push(c);
        }
    }
    r
}

/// Small configurations explored until nothing new is reachable, with the
/// greatest length.
const SMALL: &[(&str, usize, usize)] = &[
    ("vec_u8", 8, 5),
    ("vec_u8", 5, 3),
    ("vec_u8", 4, 5),
    ("vec_u8", 3, 4),
    ("vec_u16", 16, 5),
    ("vec_u16", 5, 4),
    ("vec_u32", 32, 5),
    ("vec_u32", 11, 4),
    ("vec_u64", 64, 5),
    ("vec_u64", 31, 4),
    ("vec_u128", 64, 4),
    ("vec_u128", 42, 4),
    ("smallvec_u32", 32, 6),
    ("smallvec_u32", 11, 4),
];
/// Added by the thorough tier.
const SMALL_MORE: &[(&str, usize, usize)] = &[
    ("vec_u8", 8, 7),
    ("vec_u8", 2, 7),
    ("vec_u8", 4, 7),
    ("vec_u8", 3, 6),
    ("vec_u8", 7, 6),
    ("vec_u16", 5, 6),
    ("vec_u16", 7, 6),
    ("vec_u32", 10, 6),
    ("vec_u32", 15, 6),
    ("vec_u32", 32, 7),
    ("vec_u64", 20, 6),
    ("vec_u64", 33, 6),
    ("vec_u64", 63, 6),
    ("vec_u64", 64, 7),
    ("vec_u128", 33, 6),
    ("vec_u128", 63, 6),
    ("smallvec_u32", 15, 6),
    ("smallvec_u32", 10, 6),
    ("smallvec_u32", 32, 8),
];
const WIDE: &[(&str, usize)] = &[("vec_u8", 1), ("vec_u8", 3), ("vec_u8", 8), ("vec_u16", 5), ("vec_u16", 16), ("vec_u32", 1), ("vec_u32", 10), ("vec_u32", 32), ("vec_u64", 3), ("vec_u64", 20), ("vec_u64", 64), ("vec_u128", 2), ("vec_u128", 42), ("smallvec_u32", 4), ("smallvec_u32", 11)];
const DEEP: &[(&str, usize)] = &[("vec_u8", 3), ("vec_u16", 5), ("vec_u32", 5), ("vec_u64", 9), ("vec_u128", 20), ("smallvec_u32", 6)];
const LONG: &[(&str, usize)] = &[("vec_u8", 1), ("vec_u8", 3), ("vec_u16", 2), ("vec_u32", 1), ("vec_u32", 5), ("vec_u64", 3), ("vec_u128", 2), ("smallvec_u32", 4)];

fn job(id: &str, cfg: Cfg, all: &[Cfg], profile: Profile) -> Job {
    let mut others = vec![];
    let mut bounds = vec![cfg.e];
    if id == "C12" {
        for o in all {
            if o.n == cfg.n && o.mk.name() != cfg.mk.name() {
                others.push(*o);
                if o.s != 16 && o.s <= 64 {
                    bounds.push(o.e);
                }
            }
        }
        if profile == Profile::Small {
            bounds.truncate(1);
        }
        bounds.sort();
        bounds.dedup();
    }
    Job { cfg, bounds, others, starts: vec![], depth: 0, maxlen: usize::MAX, cap: usize::MAX, profile, all: 1 << 12 }
}

fn jobs(id: &str, deep: bool, lite: bool, all: &[Cfg]) -> Vec<Job> {
    let mut r = vec![];
    for c in all {
        if id == "C12" && c.mk.name() != "vec_u8" && (c.mk.name() != "vec_u16" || c.w <= 8) && (c.mk.name() != "vec_u32" || c.w <= 16) && (c.mk.name() != "vec_u64" || c.w <= 32) {
            // reached as another one's partner
            continue;
        }
        let mut j = job(id, *c, all, Profile::Edge);
        j.starts = alpha::starts(&j, id == "C01", deep);
        if ["C03", "C05"].contains(&id) {
            let mut s = std::mem::take(&mut j.starts);
            alpha::makers(&j, &mut s);
            j.starts = s;
        }
        if id == "C12" {
            j.starts.push(vec![o4(K::Collect, 3 * c.e as u64, 4, 0, MAX)]);
            for l in [c.e as u64, 4 * c.e as u64 + 1, 6 * c.e as u64 + 1] {
                j.starts.push(vec![o2(K::FromElem, c.n - 1, l)]);
            }
        }
        if id == "C04" {
            for l in alpha::lens(&j) {
                for v in [0, c.n - 1] {
                    j.starts.push(vec![o2(K::FromElem, v, l)]);
                }
            }
        }
        if id == "C08" || id == "C07" {
            // much room, few elements
            let e = c.e as u64;
            j.starts.push(vec![o1(K::WithCap, 70 * e), o2(K::PushN, 3, 4)]);
            j.starts.push(vec![o2(K::FromVec, 70 * e + 1, 4), o1(K::Truncate, e + 1)]);
            j.starts.push(vec![o2(K::FromElem, c.n - 1, 70 * e)]);
        }
        j.depth = match id {
            "C06" => 1,
            _ if lite => 1,
            _ => 2,
        };
        r.push(j);
    }
    let mut small: Vec<(&str, usize, usize)> = SMALL.to_vec();
    if deep {
        small.extend(SMALL_MORE);
    }
    if lite {
        // one of each back end, a little shorter
        small.retain(|x| x.1 == x.2 || [16, 11, 31, 42].contains(&x.1));
        small.iter_mut().for_each(|x| x.2 = x.2.min(4));
    }
    for (name, w, maxlen) in small {
        for c in all.iter().filter(|c| c.mk.name() == name && c.w == w) {
            let mut j = job(id, *c, all, Profile::Small);
            j.starts = vec![vec![o0(K::New)]];
            j.depth = 255;
            j.maxlen = maxlen;
            j.cap = if deep { 400_000 } else { 60_000 };
            r.push(j);
        }
    }
    for &(name, w) in WIDE {
        for c in all.iter().filter(|c| c.mk.name() == name && c.w == w).take(1) {
            let e = c.e as u64;
            let mut j = job(id, *c, all, Profile::Wide);
            let ls: &[u64] = if deep { &[8 * e - 1, 8 * e, 9 * e + 1, 15 * e, 16 * e, 17 * e + 1, 24 * e - 1, 32 * e, 33 * e + 1, 65 * e] } else { &[8 * e, 9 * e + 1, 17 * e - 1, 33 * e] };
            for &l in ls {
                j.starts.push(vec![o2(K::PushN, l, 4)]);
                j.starts.push(vec![o2(K::PushN, l + 9 * e + 1, 5), o1(K::Truncate, l)]);
                if id != "C01" {
                    j.starts.push(vec![o2(K::FromElem, 0, l)]);
                    j.starts.push(vec![o2(K::FromElem, c.n - 1, l)]);
                }
            }
            j.depth = 1;
            r.push(j);
        }
    }
    if ["C01", "C02", "C03", "C04", "C11", "C13"].contains(&id) {
        for c in all {
            let e = c.e as u64;
            let mut j = job(id, *c, all, Profile::Values);
            j.all = if deep { 1 << 18 } else { 1 << 16 };
            j.starts = vec![vec![o0(K::New)], vec![o2(K::PushN, e + 1, 4)], vec![o2(K::PushN, 3 * e, 5)]];
            if c.n <= j.all {
                j.starts.push(vec![o2(K::PushN, c.n + e + 1, 2)]);
            }
            j.depth = 1;
            r.push(j);
        }
    }
    for c in all {
        let e = c.e as u64;
        let mut j = job(id, *c, all, Profile::Mid);
        let ls: &[u64] = if deep { &[3, e + 1, 7 * e + 2, 8 * e, 13 * e + 1, 21 * e, 33 * e, 40 * e + 1, 64 * e, 130 * e - 1, 256 * e, 256 * e + 1, 520 * e] } else { &[3, e + 1, 8 * e, 21 * e + 1, 33 * e, 40 * e + 1, 130 * e - 1] };
        for &l in ls {
            j.starts.push(vec![o2(K::PushN, l, 4)]);
            if id != "C01" {
                j.starts.push(vec![o2(K::FromElem, c.n - 1, l)]);
            }
        }
        j.depth = 1 + deep as usize;
        r.push(j);
        if !lite && !deep && id != "C12" {
            let mut j = job(id, *c, all, Profile::Mid);
            j.starts = vec![vec![o2(K::PushN, 3, 4)], vec![o2(K::PushN, 35 * e + 1, 4)]];
            j.depth = 2;
            r.push(j);
        }
    }
    if id != "C06" {
        // longer sequences of few calls
        for c in all {
            let e = c.e as u64;
            let mut j = job(id, *c, all, Profile::Deep);
            j.starts = vec![vec![o0(K::New)]];
            if id != "C05" || deep {
                j.starts.push(vec![o2(K::PushN, e + 1, 4)]);
            }
            if !lite {
                j.starts.push(vec![o2(K::PushN, 3 * e, 5)]);
            }
            let more = DEEP.iter().any(|x| x.0 == c.mk.name() && x.1 == c.w);
            j.depth = 3 + more as usize + (deep && !lite) as usize + 2 * (id == "C01") as usize;
            r.push(j);
        }
    }
    for &(name, w) in LONG {
        for c in all.iter().filter(|c| c.mk.name() == name && c.w == w) {
            let mut j = job(id, *c, all, Profile::Long);
            let ls: &[u64] = if deep { &[0, 3, c.e as u64 + 1, 1000, 4096, 4097, 65535, 65537, 1_000_003] } else { &[0, 3, 1000, 4097, 65537] };
            for &l in ls {
                j.starts.push(vec![o2(K::PushN, l, 4)]);
                if id != "C01" && id != "C02" {
                    j.starts.push(vec![o2(K::FromElem, c.n - 1, l)]);
                }
            }
            j.depth = 1;
            r.push(j);
        }
    }
    r
}
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let id = arg("--prop").expect("--prop");
    let deep = arg("--tier").as_deref() == Some("thorough");
    let mut all = configs();
    if let Some(b) = arg("--back") {
        all.retain(|c| c.mk.name() == b);
    }
    mccore::crash::install(&arg("--crash").unwrap_or("/dev/null".into()), 60);
    WATCH.store(std::env::args().any(|x| x == "--watch"), SeqCst);
    if let Some(s) = arg("--skip") {
        for k in s.split(',') {
            if let Some(x) = KINDS.iter().find(|x| x.1 == k) {
                SKIP.fetch_or(1 << (x.0 as u64), SeqCst);
            }
        }
    }
    if id == "C25" {
        return lassos(&mode, deep, &all);
    }
    let p = props::by_id(&id, deep).expect("known property");
    match mode.as_str() {
        "run" => {
            let t0 = Instant::now();
            let mut js = jobs(&id, deep, std::env::args().any(|x| x == "--lite"), &all);
            if let Some(f) = arg("--only") {
                js.retain(|j| j.cfg.name() == f || format!("{:?}", j.profile) == f);
            }
            // the expensive ones first
            js.sort_by_key(|j| std::cmp::Reverse(match j.profile {
                Profile::Long => 1_000_000,
                Profile::Small => 100_000 + j.maxlen,
                Profile::Wide => 50_000 + j.cfg.e,
                Profile::Mid => 1_000 + j.cfg.e,
                Profile::Values => 10_000,
                Profile::Deep => if j.depth > 3 { 200_000 } else { 2_000 },
                Profile::Edge => j.cfg.e,
            }));
            let threads = arg("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
            let verbose = arg("--verbose").is_some();
            let res = mccore::pool::run(&js, threads, |j| {
                let t = Instant::now();
                let r = explore(&*p, j);
                if r.1.is_some() {
                    STOP.store(true, SeqCst);
                }
                if verbose {
                    eprintln!("{:?} {} starts {} states {} transitions {} probes {} pruned {} capped {} depth {} {:.2}s", j.profile, j.cfg.name(), j.starts.len(), r.0.states, r.0.transitions, r.0.probes, r.0.pruned, r.0.capped, r.0.depth, t.elapsed().as_secs_f64());
                }
                r
            });
            finish(js.len(), res, t0);
        }
        "replay" => {
            let c = arg("--cfg").expect("--cfg");
            let cfg = *all.iter().find(|x| x.name() == c).expect("known configuration");
            let hist = parse(&arg("--hist").expect("--hist")).expect("well-formed history");
            for profile in [Profile::Edge, Profile::Small, Profile::Wide, Profile::Mid, Profile::Deep] {
                let j = job(&id, cfg, &all, profile);
                match replay(&*p, &j, &hist) {
                    Ok(()) => (),
                    Err(e) => {
                        println!("{}", e);
                        std::process::exit(1);
                    }
                }
            }
            println!("holds");
        }
        _ => panic!("run or replay"),
    }
}

/// Adds up what the jobs report, writes it and ends the process.
fn finish(configurations: usize, res: Vec<(Stats, Option<Fail>)>, t0: Instant) -> ! {
    let mut t = Stats::default();
    let mut fails = vec![];
    let mut samples = vec![];
    for (s, f) in res {
        t.states += s.states;
        t.transitions += s.transitions;
        t.traces += s.traces;
        t.probes += s.probes;
        t.pruned += s.pruned;
        t.capped += s.capped;
        t.fixpoints += s.fixpoints;
        t.rejected += s.rejected;
        t.depth = t.depth.max(s.depth);
        if samples.len() < 12 && s.transitions % 5 < 3 {
            samples.extend(s.samples);
        }
        fails.extend(f);
    }
    let fs: Vec<String> = fails.iter().map(|f| json::Obj::new().s("cfg", &f.cfg).s("hist", &f.hist).s("what", &f.what).end()).collect();
    let o = json::Obj::new()
        .n("configurations", configurations as u64)
        .n("states", t.states)
        .n("transitions", t.transitions)
        .n("traces", t.traces)
        .n("probes", t.probes)
        .n("pruned", t.pruned)
        .n("capped", t.capped)
        .n("fixpoints", t.fixpoints)
        .n("rejected_calls", t.rejected)
        .n("max_depth", t.depth)
        .raw("samples", json::strs(&samples))
        .raw("fails", json::arr(&fs))
        .raw("wall_s", format!("{:.2}", t0.elapsed().as_secs_f64()))
        .end();
    match arg("--out") {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => println!("{}", o),
    }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}

/// C25.
fn lassos(mode: &str, deep: bool, all: &[Cfg]) {
    if mode == "replay" {
        let c = arg("--cfg").expect("--cfg");
        let cfg = *all.iter().find(|x| x.name() == c).expect("known configuration");
        let Some(x) = lasso::Lasso::parse(cfg, &arg("--hist").expect("--hist")) else {
            return println!("holds");
        };
        if let Err(e) = lasso::go(&x, &mut Stats::default(), 400) {
            println!("{}", e);
            std::process::exit(1);
        }
        return println!("holds");
    }
    let t0 = Instant::now();
    let lite = std::env::args().any(|x| x == "--lite");
    // per configuration: cycles up to two calls, of small ones up to three
    let mut js: Vec<(Cfg, usize, usize)> = vec![];
    for c in all {
        let long = SMALL.iter().chain(if deep { SMALL_MORE } else { &[] }).any(|x| x.0 == c.mk.name() && x.1 == c.w) && !lite;
        js.push((*c, if long || deep { 3 } else { 2 }, if deep { 400 } else { 100 }));
    }
    js.sort_by_key(|j| std::cmp::Reverse((j.1, j.0.e)));
    let threads = arg("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let verbose = arg("--verbose").is_some();
    let res = mccore::pool::run(&js, threads, |(c, longest, blocks)| {
        let t = Instant::now();
        let mut s = Stats::default();
        for start in lasso::starts(c, deep) {
            for cycle in lasso::cycles(*longest) {
                let x = lasso::Lasso { cfg: *c, start: start.clone(), cycle };
                if STOP.load(Relaxed) {
                    return (s, None);
                }
                if let Err(e) = lasso::go(&x, &mut s, *blocks) {
                    STOP.store(true, SeqCst);
                    return (s, Some(Fail { cfg: c.name(), hist: x.text(), what: e }));
                }
            }
        }
        if verbose {
            eprintln!("{} cycles of {} {} transitions {:.2}s", c.name(), longest, s.transitions, t.elapsed().as_secs_f64());
        }
        (s, None)
    });
    finish(js.len(), res, t0)
}
