#!/usr/bin/env python3
"""mutate.py FILE OUT CHECK... [--lines A-B] [--shard i/n]: run inside a lab. Mutates the original,
non-test lines of a source file one token at a time, keeps the mutants that
compile and pass the tests, and runs the checks on them until one objects.
--fast BACKEND: only the vector explorer, one pass, one back end."""
import json, os, re, subprocess, sys
REPO = "/repo"


def code_lines(text):
    out, depth = [], 0
    for i, l in enumerate(text.split("\n")):
        if l.startswith("#[cfg(test)]"):
            break
        if "/*" in l:
            depth += 1
        c = l.split("//")[0]
        if depth == 0 and c.strip() and not c.strip().startswith("use ") and not c.strip().startswith("#"):
            out.append((i, c))
        if "*/" in l:
            depth -= 1
    return out


OPS = [(r"(?<![<>=!+\-*/&|^%])<(?![<=])(?= )", ["<=", ">"]), (r"<=", ["<", "=="]), (r"(?<![<>=\-])>(?![>=])(?= )", [">=", "<"]), (r">=", [">", "=="]), (r"==", ["!=", ">="]), (r"!=", ["=="]),
       (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["+", "/"]), (r"(?<= )/(?= )", ["%", "*"]), (r"(?<= )%(?= )", ["/"]), (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]), (r"<<", [">>"]), (r">>", ["<<"]),
       (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["=", "&=", "^="]), (r"&=", ["|=", "="]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])4(?![\w.])", ["0", "1", "5"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"cmp::min", ["cmp::max"]), (r"\.rev\(\)", [""]), (r"!(?=[\w(0])(?!\()", [""]), (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r"saturating_", ["wrapping_"]), (r"checked_add", ["wrapping_add"]),
       (r"wrapping_rem", ["wrapping_div"]), (r"self_len", ["other_len"]), (r"other_len", ["self_len"]), (r"\bself\.len\(\)", ["self.storage.len()", "(self.len() + 1)"]), (r"idx_w", ["idx_b"]), (r"last_block\b", ["last_elem_shift"]), (r"ELEMS_PER_BLOCK", ["BITS_PER_ELEM"]), (r"\.take\(\w+\)", [""]),
       (r"T::NUM_VARIANTS", ["S::NUM_VARIANTS", "1", "(T::NUM_VARIANTS - 1)"]), (r"S::NUM_VARIANTS", ["T::NUM_VARIANTS"]), (r"max", ["current"]), (r"\.self\b", [""]), (r"nth_back|next_back", ["next"]), (r"reserve\(", ["reserve_exact("]), (r"\bother\b", ["self"]), (r"value_r", ["value"])]


def mutants(text):
    L = text.split("\n")
    for i, c in code_lines(text):
        seen = set()
        for pat, reps in OPS:
            for m in re.finditer(pat, c):
                for r in reps:
                    n = c[:m.start()] + r + c[m.end():]
                    if n != c and n not in seen:
                        seen.add(n)
                        yield i, n
        s = c.strip()
        if s.endswith(";") and not s.startswith(("let", "const", "type", "return", "}")):
            yield i, c[:len(c) - len(c.lstrip())] + "{}"
        if re.match(r"\s*(if|while) .*\{\s*$", c) and " let " not in c:
            k = "if" if "if" in c else "while"
            if k == "if":
                yield i, re.sub(r"if .*\{", "if true {", c)
            yield i, re.sub(r"(if|while) .*\{", r"\1 false {", c)


def main():
    a = sys.argv[1:]
    lines = None
    shard = (0, 1)
    if "--lines" in a:
        j = a.index("--lines")
        lines = tuple(map(int, a[j + 1].split("-")))
        a = a[:j] + a[j + 2:]
    if "--shard" in a:
        j = a.index("--shard")
        shard = tuple(map(int, a[j + 1].split("/")))
        a = a[:j] + a[j + 2:]
    fast = None
    if "--fast" in a:
        j = a.index("--fast")
        fast = a[j + 1]
        a = a[:j] + a[j + 2:]
    f, out, checks = os.path.join(REPO, a[0]), a[1], a[2:]
    orig = open(f).read()
    L = orig.split("\n")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) and "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    allm = [m for m in mutants(orig) if not lines or lines[0] <= m[0] + 1 <= lines[1]]
    allm = allm[shard[0]::shard[1]]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["line"], d["new"]))
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    for i, n in allm:
        if (i + 1, n.strip()) in done:
            continue
        L2 = list(L)
        L2[i] = n
        open(f, "w").write("\n".join(L2))
        rec = {"line": i + 1, "old": L[i].strip(), "new": n.strip()}
        try:
            r = subprocess.run("timeout 120 bash /opt/vp/build.sh", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                rec["result"] = "no build"
                continue
            subprocess.run("timeout 100 bash /opt/vp/test.sh /opt/vp/o.json", shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                o = json.load(open("/opt/vp/o.json"))
                ok = not o["failed"] and len(o["passed"]) >= 209
            except Exception:
                ok = False
            if not ok:
                rec["result"] = "tests"
                continue
            rec["result"] = "MISSED"
            rec["codes"] = {}
            if fast:
                r = subprocess.run("CARGO_NET_OFFLINE=true timeout 900 cargo build --offline --quiet --profile chk --target-dir /verif/.build/mc -p vecmc", shell=True, cwd="/verif/mc", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    rec["codes"]["build"] = [r.returncode, r.stdout[-600:]]
                    continue
            for c in checks:
                if fast:
                    r = subprocess.run(["timeout", "600", "/verif/.build/mc/chk/vecmc", "run", "--prop", c, "--lite", "--back", fast, "--out", "/opt/vp/m.json", "--crash", "/opt/vp/m.crash"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode in (1, 70):
                        rec["result"] = "caught"
                        rec["by"] = c
                        rec["how"] = open("/opt/vp/m.json" if r.returncode == 1 else "/opt/vp/m.crash").read()[-400:]
                        break
                    if r.returncode:
                        rec["codes"][c] = [r.returncode, r.stdout[-600:]]
                    continue
                r = subprocess.run(["timeout", "900", "./check", c], cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    rec["result"] = "caught"
                    rec["by"] = c
                    rec["how"] = [l for l in r.stdout.splitlines() if l][0][:300]
                    break
                if r.returncode:
                    rec["codes"][c] = [r.returncode, r.stdout[-600:]]
        finally:
            open(f, "w").write(orig)
            with open(out, "a") as o:
                o.write(json.dumps(rec) + "\n")


main()
