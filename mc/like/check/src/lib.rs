use likesut::*;
use mccore::crash::{beat, last_panic};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Out {
    pub states: u64,
    pub transitions: u64,
    pub full: bool,
    pub samples: Vec<String>,
    /// type, case, what
    pub fail: Option<(String, String, String)>,
}

fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panics: {}", last_panic()))
}

/// The numbers of the values to look at: all of them when there are few,
/// otherwise everything near both ends and every value that differs from one
/// of a few backgrounds in at most two digits (items).
pub fn numbers(t: &Ty, deep: bool) -> (Vec<u128>, bool) {
    let n = (t.count)();
    let limit = if deep { 1 << 24 } else { 1 << 18 };
    if n <= limit {
        return ((0..n).collect(), true);
    }
    let mut v: Vec<u128> = vec![];
    let edge = if deep { 1 << 14 } else { 1 << 10 };
    v.extend(0..edge);
    v.extend(n - edge..n);
    for b in 1..64 {
        for d in [-1i128, 0, 1] {
            v.push(((1i128 << b) + d) as u128);
            v.push((n as i128 - (1i128 << b) + d) as u128);
        }
    }
    let r = (t.radix)();
    let mut w = vec![1u128];
    for x in &r {
        w.push(w[w.len() - 1] * x);
    }
    // values of one digit worth trying
    let digits = |i: usize| -> Vec<u128> {
        if r[i] <= 20 {
            (0..r[i]).collect()
        } else {
            let mut d: Vec<u128> = (0..4).chain(r[i] - 4..r[i]).collect();
            d.extend([r[i] / 2, r[i] / 3, r[i] / 2 + 1]);
            d
        }
    };
    for bg in 0..5u128 {
        let base: Vec<u128> = (0..r.len())
            .map(|i| match bg {
                0 => 0,
                1 => r[i] - 1,
                2 => (i as u128) % r[i],
                3 => (i as u128 / 2 + 1) % r[i],
                _ => (i as u128 * 7 + 3) % r[i],
            })
            .collect();
        let b: u128 = (0..r.len()).map(|i| base[i] * w[i]).sum();
        v.push(b);
        for i in 0..r.len() {
            for di in digits(i) {
                let x = b - base[i] * w[i] + di * w[i];
                v.push(x);
                if bg < 2 || deep {
                    for j in i + 1..r.len() {
                        for dj in digits(j) {
                            v.push(x - base[j] * w[j] + dj * w[j]);
                        }
                    }
                }
            }
        }
    }
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    (v, false)
}

pub fn bijection(t: &Ty, deep: bool) -> Out {
    let mut o = Out::default();
    let fail = |case: String, what: String| Some((t.name.to_string(), case, what));
    let n = (t.count)();
    o.states += 1;
    if t.num as u128 != n {
        o.fail = fail("NUM_VARIANTS".into(), format!("declares {} variants, but the type has {} values", t.num, n));
        return o;
    }
    let (is, full) = numbers(t, deep);
    o.full = full;
    let mut seen = vec![0u64; if full { n as usize / 64 + 1 } else { 0 }];
    for &i in &is {
        if i % 4096 == 0 {
            beat();
        }
        o.states += 1;
        o.transitions += 3;
        let case = || format!("value {}", i);
        match call(|| (t.to)(i)) {
            Err(e) => {
                o.fail = fail(case(), format!("to_discr {}", e));
                return o;
            }
            Ok(k) if k as u128 >= n => {
                o.fail = fail(case(), format!("gets number {} of {}", k, n));
                return o;
            }
            Ok(k) => {
                if full {
                    if seen[k / 64] >> (k % 64) & 1 == 1 {
                        o.fail = fail(case(), format!("gets number {}, which another value already has", k));
                        return o;
                    }
                    seen[k / 64] |= 1 << (k % 64);
                }
            }
        }
        match call(|| (t.back)(i)) {
            Err(e) => {
                o.fail = fail(case(), format!("there and back {}", e));
                return o;
            }
            Ok(j) if j != i => {
                o.fail = fail(case(), format!("comes back as value {}", j));
                return o;
            }
            _ => (),
        }
        match call(|| (t.forth)(i as usize)) {
            Err(e) => {
                o.fail = fail(format!("number {}", i), format!("from_discr and back {}", e));
                return o;
            }
            Ok(k) if k as u128 != i => {
                o.fail = fail(format!("number {}", i), format!("comes back as number {}", k));
                return o;
            }
            _ => (),
        }
    }
    if is.len() > 3 {
        o.samples.push(format!("{}: value {} <-> number {}", t.name, is[is.len() / 2], (t.to)(is[is.len() / 2])));
    }
    o
}

pub fn order(t: &Ty, deep: bool) -> Out {
    let mut o = Out::default();
    let fail = |case: String, what: String| Some((t.name.to_string(), case, what));
    let n = (t.count)();
    o.states += 1;
    if t.num as u128 != n {
        o.fail = fail("NUM_VARIANTS".into(), format!("declares {} variants, but the type has {} values", t.num, n));
        return o;
    }
    let (is, full) = numbers(t, deep);
    o.full = full;
    for &i in &is {
        if i % 4096 == 0 {
            beat();
        }
        o.states += 1;
        o.transitions += 2;
        match call(|| (t.to)(i)) {
            Err(e) => {
                o.fail = fail(format!("value {}", i), format!("to_discr {}", e));
                return o;
            }
            Ok(k) if k as u128 != i => {
                o.fail = fail(format!("value {}", i), format!("is documented to have that number, but gets {}", k));
                return o;
            }
            _ => (),
        }
        match call(|| (t.from)(i as usize)) {
            Err(e) => {
                o.fail = fail(format!("number {}", i), format!("from_discr {}", e));
                return o;
            }
            Ok(k) if k != i => {
                o.fail = fail(format!("number {}", i), format!("gives the value documented to have number {}", k));
                return o;
            }
            _ => (),
        }
    }
    if is.len() > 3 {
        o.samples.push(format!("{}: value {} has number {}", t.name, is[is.len() / 2], (t.to)(is[is.len() / 2])));
    }
    o
}

// ---- iterator ----------------------------------------------------------------

/// One call on the iterator: next, or nth(n).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    Next,
    Nth(usize),
}
fn show(c: &[Call]) -> String {
    c.iter().map(|c| match c {
        Call::Next => "next".to_string(),
        Call::Nth(n) => format!("nth({})", n),
    }).collect::<Vec<_>>().join("; ")
}
fn read(s: &str) -> Vec<Call> {
    s.split(';').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| if x == "next" { Call::Next } else { Call::Nth(x[4..x.len() - 1].parse().unwrap()) }).collect()
}

fn probe(v: &dyn Vals, pos: u128, n: u128) -> Result<u64, String> {
    let rem = n - pos;
    let want = if rem > usize::MAX as u128 { return Ok(0) } else { rem as usize };
    let h = call(|| v.size_hint()).map_err(|e| format!("size_hint {}", e))?;
    if h != (want, Some(want)) {
        return Err(format!("size_hint {:?} with {} values to come", h, want));
    }
    let l = call(|| v.len()).map_err(|e| format!("len {}", e))?;
    if l != want {
        return Err(format!("len {} with {} values to come", l, want));
    }
    let c = call(|| v.fork().count()).map_err(|e| format!("count {}", e))?;
    if c != want {
        return Err(format!("count {} with {} values to come", c, want));
    }
    let l = call(|| v.fork().last()).map_err(|e| format!("last {}", e))?;
    let wl = if rem == 0 { None } else { Some((n - 1) as usize) };
    if l != wl {
        return Err(format!("last gives {:?} instead of {:?}", l, wl));
    }
    if rem <= 300 {
        let all: Vec<usize> = (pos..n).map(|x| x as usize).collect();
        let c = call(|| v.fork().collect()).map_err(|e| format!("collect {}", e))?;
        if c != all {
            return Err(format!("collect gives the values numbered {:?} instead of {:?}", c, all));
        }
        let c = call(|| v.fork().fold()).map_err(|e| format!("fold {}", e))?;
        if c != all {
            return Err(format!("fold visits the values numbered {:?} instead of {:?}", c, all));
        }
    }
    Ok(6)
}

/// Runs a sequence of calls from a fresh iterator, probing it after the last.
fn sequence(t: &Ty, seq: &[Call], o: &mut Out) -> Result<u128, String> {
    let n = t.num as u128;
    let mut pos = 0u128;
    let mut v = call(|| (t.vals)()).map_err(|e| format!("values() {}", e))?;
    for c in seq {
        let skip = match c {
            Call::Next => 0,
            Call::Nth(k) => *k as u128,
        };
        let want = if pos + skip < n {
            pos += skip + 1;
            Some((pos - 1) as usize)
        } else {
            pos = n;
            None
        };
        let got = call(|| match c {
            Call::Next => v.next(),
            Call::Nth(k) => v.nth(*k),
        })
        .map_err(|e| format!("{} {}", show(&[*c]), e))?;
        if got != want {
            return Err(format!("{} gives {:?} instead of {:?}", show(&[*c]), got, want));
        }
        o.transitions += 1;
    }
    o.transitions += probe(&*v, pos, n)?;
    Ok(pos)
}

pub fn iterate(t: &Ty, deep: bool, only: Option<&str>) -> Out {
    let mut o = Out::default();
    let n = t.num as u128;
    if let Some(s) = only {
        if let Err(e) = sequence(t, &read(s), &mut o) {
            o.fail = Some((t.name.into(), s.to_string(), e));
        }
        return o;
    }
    let depth = if n <= 6 { 6 } else { 4 } + deep as usize;
    o.full = true;
    // every interleaving, shortest first
    let mut level: Vec<(Vec<Call>, u128)> = vec![(vec![], 0)];
    if let Err(e) = sequence(t, &[], &mut o) {
        o.fail = Some((t.name.into(), String::new(), e));
        return o;
    }
    for _ in 0..depth {
        let mut nextl = vec![];
        for (seq, pos) in &level {
            beat();
            let rem = n - pos;
            let mut calls = vec![Call::Next];
            let mut ks: Vec<u128> = vec![0, 1, 2, rem / 2, rem.saturating_sub(2), rem.saturating_sub(1), rem, rem + 1, (usize::MAX as u128) - pos, (usize::MAX as u128 + 1) - pos, usize::MAX as u128 - 1, usize::MAX as u128, u32::MAX as u128, 1 << 32, 1 << 63];
            ks.retain(|k| *k <= usize::MAX as u128);
            ks.sort();
            ks.dedup();
            calls.extend(ks.into_iter().map(|k| Call::Nth(k as usize)));
            for c in calls {
                let mut s = seq.clone();
                s.push(c);
                o.states += 1;
                match sequence(t, &s, &mut o) {
                    Ok(p) => {
                        // past the end: two more calls of each kind are enough
                        let spent = *pos == n && seq.len() >= 2 && prev_spent(t, seq);
                        if !spent {
                            nextl.push((s, p));
                        }
                    }
                    Err(e) => {
                        o.fail = Some((t.name.into(), show(&s), e));
                        return o;
                    }
                }
            }
        }
        level = nextl;
        let cap = if deep { 60_000 } else { 4_000 };
        if level.len() > cap {
            break;
        }
    }
    if n <= 4096 || n == 65536 {
        // the whole run, step by step, and every single skip
        let mut s = (t.vals)();
        for k in 0..n {
            let g = call(|| s.next());
            if g != Ok(Some(k as usize)) {
                o.fail = Some((t.name.into(), "next; ".repeat(k as usize % 4000) + "next", format!("step {} gives {:?}", k, g)));
                return o;
            }
        }
        for k in 0..n + 3 {
            beat();
            o.states += 1;
            if let Err(e) = sequence(t, &[Call::Nth(k as usize)], &mut o) {
                o.fail = Some((t.name.into(), show(&[Call::Nth(k as usize)]), e));
                return o;
            }
        }
    }
    if let Some((s, _)) = level.get(level.len() / 2) {
        o.samples.push(format!("{}: {}", t.name, show(s)));
    }
    o
}
/// Had the iterator already ended before the last call of the sequence?
fn prev_spent(t: &Ty, seq: &[Call]) -> bool {
    let n = t.num as u128;
    let mut pos = 0u128;
    for c in &seq[..seq.len() - 1] {
        let k = match c {
            Call::Next => 0,
            Call::Nth(k) => *k as u128,
        };
        pos = (pos + k + 1).min(n);
    }
    pos == n
}

// ---- packed ----------------------------------------------------------------------

pub fn pack(p: &Packed, deep: bool) -> Out {
    let mut o = Out { full: true, ..Default::default() };
    let name = format!("PackedU{}<{}>", p.bytes * 8, p.name);
    macro_rules! bad {
        ($case:expr, $($a:tt)*) => {{
            o.fail = Some((name.clone(), $case, format!($($a)*)));
            return o;
        }};
    }
    o.states += 1;
    if p.size != p.bytes {
        bad!("size".into(), "takes {} bytes instead of {}", p.size, p.bytes);
    }
    for i in 0..p.count {
        o.states += 1;
        o.transitions += 3;
        match call(|| (p.trip)(i)) {
            Err(e) => bad!(format!("value {}", i), "packing {}", e),
            Ok(r) if r != [i as u128; 3] => bad!(format!("value {}", i), "comes back as value {:?} (packed, copied, cloned)", r),
            _ => (),
        }
    }
    // all pairs, or every value against the ones around every limit
    let mut js: Vec<usize> = (0..p.count).collect();
    if p.count > if deep { 2048 } else { 300 } {
        js = vec![];
        for b in 0..17 {
            for d in [-1i64, 0, 1] {
                js.push(((1i64 << b) + d).clamp(0, p.count as i64 - 1) as usize);
                js.push((p.count as i64 - (1i64 << b) + d).clamp(0, p.count as i64 - 1) as usize);
            }
        }
        js.sort();
        js.dedup();
    }
    let is: Vec<usize> = if p.count > 20000 && !deep { (0..p.count).step_by(7).chain(js.iter().copied()).collect() } else { (0..p.count).collect() };
    let hashes: Vec<Vec<u8>> = match call(|| (0..p.count).map(|i| (p.hash)(i)).collect()) {
        Ok(h) => h,
        Err(e) => bad!("hash".into(), "hashing {}", e),
    };
    {
        // equal numbers hash alike (same value hashed twice), different ones differ
        let mut s = std::collections::HashMap::new();
        for (i, h) in hashes.iter().enumerate() {
            o.transitions += 1;
            if *h != (p.hash)(i) {
                bad!(format!("value {}", i), "hashes differently from itself");
            }
            if let Some(j) = s.insert(h.clone(), i) {
                bad!(format!("value {} and value {}", i, j), "write the same bytes to a hasher");
            }
        }
    }
    for &i in &is {
        beat();
        for &j in &js {
            o.transitions += 2;
            let case = || format!("values {} and {}", i, j);
            match call(|| ((p.eq)(i, j), (p.cmp)(i, j))) {
                Err(e) => bad!(case(), "comparing {}", e),
                Ok((eq, (c, pc, ops))) => {
                    let w = i.cmp(&j);
                    if eq != (i == j, i != j) {
                        bad!(case(), "equality (==, !=) is {:?}", eq);
                    }
                    if c != w || pc != Some(w) || ops != [w == Ordering::Less, w != Ordering::Greater, w == Ordering::Greater, w != Ordering::Less] {
                        bad!(case(), "ordering is {:?} / {:?} / (<,<=,>,>=) {:?} instead of {:?}", c, pc, ops, w);
                    }
                }
            }
        }
    }
    o.samples.push(format!("{}: value {} packed, compared with {} others", name, p.count / 2, js.len()));
    o
}
