"""C20: which programs compile, for every back end, number of variants around
the limits and element-touching call; and accepted types at run time."""
import concurrent.futures, json, os, subprocess, tempfile
import likeprops, runner

BACKS = [("vec_u8", 8), ("vec_u16", 16), ("vec_u32", 32), ("vec_u64", 64), ("vec_u128", 64), ("smallvec_u32", 32)]
TOP = 2 ** 64 - 1
OPS = {
    "with_capacity": "let v = EnumVec::<T>::with_capacity(3); touch(&v);",
    "capacity": "let v = EnumVec::<T>::new(); touch(&v.capacity());",
    "push": "let mut v = EnumVec::<T>::new(); v.push(t()); touch(&v);",
    "pop": "let mut v = EnumVec::<T>::new(); touch(&v.pop());",
    "get": "let v = EnumVec::<T>::new(); touch(&v.get(0));",
    "set": "let mut v = EnumVec::<T>::new(); v.set(0, t());",
    "swap": "let mut v = EnumVec::<T>::new(); v.swap(0, 0);",
    "insert": "let mut v = EnumVec::<T>::new(); v.insert(0, t());",
    "remove": "let mut v = EnumVec::<T>::new(); touch(&v.remove(0));",
    "swap_remove": "let mut v = EnumVec::<T>::new(); touch(&v.swap_remove(0));",
    "reserve": "let mut v = EnumVec::<T>::new(); v.reserve(1);",
    "shrink_to_fit": "let mut v = EnumVec::<T>::new(); v.shrink_to_fit();",
    "from_elem": "let v = EnumVec::from_elem(t(), 3); touch(&v);",
    "from_slice": "let v = EnumVec::from_slice(&[t(), t()]); touch(&v);",
    "from_vec": "let v: EnumVec<T> = vec![t()].into(); touch(&v);",
    "collect": "let v: EnumVec<T> = std::iter::repeat(t()).take(3).collect(); touch(&v);",
    "extend": "let mut v = EnumVec::<T>::new(); v.extend(Some(t()));",
    "resize": "let mut v = EnumVec::<T>::new(); v.resize(1, t());",
    "append": "let mut v = EnumVec::<T>::new(); let mut w = EnumVec::<T>::new(); v.append(&mut w);",
    "split_off": "let mut v = EnumVec::<T>::new(); touch(&v.split_off(0));",
    "retain": "let mut v = EnumVec::<T>::new(); v.retain(|_| true);",
    "for_each": "let mut v = EnumVec::<T>::new(); v.for_each(|_| ());",
    "to_vec": "let v = EnumVec::<T>::new(); touch(&v.to_vec());",
    "iter": "let v = EnumVec::<T>::new(); touch(&v.iter().next());",
    "into_iter": "let v = EnumVec::<T>::new(); touch(&v.into_iter().next());",
    "any": "let v = EnumVec::<T>::new(); touch(&v.any(t()));",
    "all": "let v = EnumVec::<T>::new(); touch(&v.all(t()));",
}
# calls on an empty vector of an impossible element type that never look at its
# size; whether they compile is not part of the property
FREE = {"pop", "append", "retain", "for_each"}
NUM = """#[derive(Clone, Copy)]
pub struct T(usize);
unsafe impl %s::EnumLike for T {
    const NUM_VARIANTS: usize = %d;
    fn to_discr(self) -> usize { self.0 }
    fn from_discr(x: usize) -> Self { T(x) }
}
fn t() -> T { T(std::env::args().count()) }
"""
ALIAS = """type T = %s;
fn t() -> T { <T as %s::EnumLike>::from_discr(0) }
"""
HEAD = "#![allow(warnings)]\nfn touch<X: ?Sized>(x: &X) { std::hint::black_box(x); }\n"


def vec_program(back, ty, ops):
    lead = ALIAS % (ty, "enum_vec") if isinstance(ty, str) else NUM % ("enum_vec", ty)
    fns = "".join("#[inline(never)] fn f_%s() { %s }\n" % (o, OPS[o]) for o in ops)
    return HEAD + "use enum_vec::%s::EnumVec;\n" % back + lead + fns + "fn main() { if std::env::args().count() > 100 { %s } }\n" % " ".join("f_%s();" % o for o in ops)


def packed_program(bits, ty, get):
    lead = ALIAS % (ty, "enum_like") if isinstance(ty, str) else NUM % ("enum_like", ty)
    return HEAD + lead + "fn main() { if std::env::args().count() > 100 { let p = enum_like::PackedU%d::new(t()); touch(&p);%s } }\n" % (bits, " touch(&p.get());" if get else "")


def programs(tier):
    """(name, source, must it compile)"""
    out = []
    ops = [o for o in OPS]
    for back, w in BACKS:
        lim = min(2 ** w, TOP)
        ok = {2, 3, 4, 5, lim - 1, lim, lim // 2, lim // 2 + 1}
        if tier == "thorough":
            for k in range(1, w + 1):
                ok |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
        for n in sorted(x for x in ok if 2 <= x <= lim):
            out.append(("%s of %d variants, every call" % (back, n), vec_program(back, n, ops), True))
        bad = [0, 1]
        if 2 ** w < TOP:
            bad.append(2 ** w + 1)
        for n in bad:
            for o in ops:
                if o in FREE:
                    continue
                out.append(("%s of %d variants, %s" % (back, n, o), vec_program(back, n, [o]), False))
        more = [n for n in sorted({2 ** w + 2, 2 ** w + 2 ** (w - 1), 2 ** (w + 1) - 1, 2 ** (w + 1), 2 ** (w + 1) + 1, 3 * 2 ** w + 1, 2 ** 16 + 1, 2 ** 24 + 1, 2 ** 32 + 1, 2 ** 33, 2 ** 33 + 1, 2 ** 40, 2 ** 48 + 7, 2 ** 62 + 1, 2 ** 63, 2 ** 63 + 1, TOP - 1, TOP}) if 2 ** w + 1 < n <= TOP]
        if tier == "thorough":
            more = sorted(set(more) | {2 ** k + d for k in range(w, 64) for d in (-1, 0, 1) if 2 ** w + 1 < 2 ** k + d <= TOP})
        for n in more:
            for o in ops if tier == "thorough" and n < 2 ** (w + 1) + 2 else ["push", "from_slice", "get"]:
                if o not in FREE:
                    out.append(("%s of %d variants, %s" % (back, n, o), vec_program(back, n, [o]), False))
        types = [("bool", 2), ("()", 1), ("Option<()>", 2), ("[bool; 8]", 256), ("Option<[bool; 8]>", 257), ("[bool; 9]", 512), ("[bool; 16]", 65536), ("(bool, [bool; 16])", 131072), ("Option<[bool; 16]>", 65537), ("[bool; 32]", 2 ** 32), ("Option<[bool; 32]>", 2 ** 32 + 1), ("([bool; 32], [bool; 31])", 2 ** 63)]
        for ty, n in types:
            out.append(("%s of %s" % (back, ty), vec_program(back, ty, ["push", "from_elem", "get", "any"]), 2 <= n <= lim))
    for bits in (8, 16):
        lim = 2 ** bits
        ns = {1, 2, 3, lim // 2, lim // 2 + 1, lim - 1, lim, lim + 1, lim + 2, 2 * lim - 1, 2 * lim, 2 * lim + 1, 3 * lim, 256, 257, 65535, 65536, 65537, 2 ** 24, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + lim, 2 ** 33, 2 ** 40 + 5, 2 ** 62, 2 ** 63, 2 ** 63 + 1, TOP - lim, TOP - lim + 1, TOP - 1, TOP}
        if tier == "thorough":
            ns |= {2 ** k + d for k in range(64) for d in (-1, 0, 1)} - {0}
        for n in sorted(ns):
            for get in (False, True):
                out.append(("PackedU%d of %d variants%s" % (bits, n, ", get" if get else ""), packed_program(bits, n, get), n <= lim))
        for ty, n in (("()", 1), ("bool", 2), ("[bool; 8]", 256), ("Option<[bool; 8]>", 257), ("[bool; 16]", 65536), ("Option<[bool; 16]>", 65537), ("[[bool; 4]; 4]", 65536), ("(bool, [bool; 16])", 131072), ("[bool; 32]", 2 ** 32)):
            out.append(("PackedU%d of %s" % (bits, ty), packed_program(bits, ty, True), n <= lim))
    return out


def libraries():
    """Builds the crates; returns what rustc needs to link with them."""
    runner.cargo("mc", ["limsut", "likesut"], "chk")
    t = os.path.join(runner.BUILD, "mc")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--profile", "chk", "--target-dir", t, "--message-format", "json", "-p", "limsut", "-p", "likesut"], cwd=os.path.join(runner.VERIF, "mc"), env=runner.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    libs = {}
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["manifest_path"].startswith(runner.REPO + "/"):
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    libs[m["target"]["name"]] = f
    if set(libs) < {"enum_vec", "enum_like"}:
        raise runner.CheckError("libraries not found")
    return ["-L", "dependency=" + os.path.join(t, "chk", "deps"), "--extern", "enum_vec=" + libs["enum_vec"], "--extern", "enum_like=" + libs["enum_like"]]


def compiles(libs, src, d, i):
    f = os.path.join(d, "p%d.rs" % i)
    open(f, "w").write(src)
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "bin", "--crate-name", "p%d" % i, "--emit", "obj", "-C", "opt-level=0", "-C", "debug-assertions=on", "-o", os.path.join(d, "p%d.o" % i), f] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=runner.env(), cwd=d)
    ok = r.returncode == 0
    for x in (f, os.path.join(d, "p%d.o" % i)):
        if os.path.exists(x):
            os.remove(x)
    if not ok and "error" not in r.stdout:
        raise runner.CheckError("rustc: " + r.stdout[-2000:])
    return ok, r.stdout


def verdicts(libs, ps):
    with tempfile.TemporaryDirectory() as d:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda x: compiles(libs, x[1][1], d, x[0]), enumerate(ps)))


def run(prop, tier, seed):
    libs = libraries()
    ps = programs(tier)
    res = runner.Result()
    bad = 0
    for (name, src, want), (ok, out) in zip(ps, verdicts(libs, ps)):
        if ok != want:
            bad += 1
            err = " ".join(x for x in out.splitlines() if x.startswith("error"))[:300]
            res.violations.append({"ident": "program=%s" % name, "what": "%s, but the compiler %s it %s" % ("is a valid use" if want else "cannot work", "accepts" if ok else "rejects", err), "replay": {"engine": "rustc", "program": name, "source": src, "expected_to_compile": want}})
    # accepted types store and return their extreme values
    try:
        exe = os.path.join(runner.cargo("mc", ["limmc"], "chk"), "limmc")
        d = likeprops.explore(exe, prop, tier, 840)
    except runner.Rejected:
        if not bad:
            raise
        d = {"fails": [], "states": 0, "transitions": 0, "types": 0, "types_fully_enumerated": 0, "samples": []}
    r2 = likeprops.result(prop, d, "", tier, "lim")
    res.violations += r2.violations
    res.coverage = {
        "states": len(ps) + d["states"], "transitions": len(ps) + d["transitions"], "traces_validated_against_impl": len(ps) + d["transitions"],
        "programs": len(ps), "programs_that_must_compile": sum(p[2] for p in ps), "programs_that_must_not": sum(not p[2] for p in ps),
        "accepted_types_run": d["types"], "samples": [p[0] for p in ps[:: max(1, len(ps) // 10)]], "exhaustive": not res.violations,
        "explanation": "One program per back end, number of variants around the limits and element-touching call, given to rustc (code generation included) with the working tree's crates; accepted exactly when the model says 2 <= variants <= 2^(block bits) (or <= 256 / 65536 for packed single values). Then for about 900 accepted (back end, variants) pairs, all vectors of two extreme values at lengths around the blocks are stored and read back through every way in and out.",
    }
    res.assumptions = ["rustc's verdict on a program is deterministic", "a call counts as using the vector when it depends on the element size; pop, append, retain and for_each on a vector that can never hold anything are left open"]
    return res


def replay(prop, r):
    if r["engine"] == "rustc":
        (ok, out), = verdicts(libraries(), [(r["program"], r["source"], r["expected_to_compile"])])
        if ok != r["expected_to_compile"]:
            print("%s: compiles: %s\n%s" % (r["program"], ok, out[:2000]))
            print("VIOLATION property=%s replay=again" % prop)
            return 1
        print("holds")
        return 0
    exe = os.path.join(runner.cargo("mc", ["limmc"], "chk"), "limmc")
    p = likeprops.worker(exe, ["replay", "--prop", prop, "--tier", r.get("tier", "quick"), "--type", r["type"]], 3600)
    print(p.stdout.strip())
    if p.returncode:
        print("VIOLATION property=%s replay=again" % prop)
        return 1
    return 0
