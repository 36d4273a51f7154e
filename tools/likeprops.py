"""C14 to C17: exhaustive enumeration of values, numbers and iterator calls of
the built-in mappings."""
import json, os, subprocess, tempfile
import runner

NOTES = {
    "C14": "Every value of every type with up to 2^18 (thorough 2^24) values goes to a number and back and every number to a value and back, with a table of numbers already taken; larger types get every value that differs from one of five backgrounds in at most two items, and both ends.",
    "C15": "The number of every such value and the value of every such number are compared with an independently written positional numbering.",
    "C16": "Every interleaving of next and nth (with 0, 1, 2, everything around the number of values left, and the largest integers) up to the depth, from a fresh iterator each time; after each, size_hint, len, count, last, collect and fold are compared with what is left.",
    "C17": "Every value is packed, copied, cloned and read back; equality, all comparison operators, ordering and hashing are compared with the numbers for every pair (for large types against every value around a power of two).",
}


def worker(exe, args, timeout):
    return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=runner.env())


def explore(exe, prop, tier, timeout):
    with tempfile.TemporaryDirectory() as d:
        out, crash = os.path.join(d, "out"), os.path.join(d, "crash")
        try:
            r = worker(exe, ["run", "--prop", prop, "--tier", tier, "--out", out, "--crash", crash], timeout)
        except subprocess.TimeoutExpired:
            raise runner.CheckError("the explorer ran out of time")
        if r.returncode in (0, 1) and os.path.exists(out):
            return json.load(open(out))
        if r.returncode == 70 and os.path.exists(crash):
            l = open(crash, errors="replace").read().split("\n") + ["", "", ""]
            return {"fails": [{"type": l[2], "case": l[3] or "(while exploring it)", "what": "crashes: %s %s" % (l[0], l[1])}], "states": 1, "transitions": 1, "types": 1, "types_fully_enumerated": 0, "samples": [l[2]]}
        raise runner.CheckError("explorer ended with %d: %s" % (r.returncode, (r.stderr or "")[-2000:]))


def result(prop, d, note, tier, engine):
    res = runner.Result()
    for f in d["fails"]:
        profile = d.get("profile", "chk")
        res.violations.append({"ident": "type=%s case=%s" % (f["type"], f["case"][:300]), "what": f["what"][:600] + ("" if profile == "chk" else " [built without run-time checks]"), "replay": {"engine": engine, "type": f["type"], "case": f["case"], "tier": tier, "profile": profile}})
    res.coverage = {
        "states": d["states"], "transitions": d["transitions"], "traces_validated_against_impl": d["transitions"],
        "samples": d["samples"] or ["none"], "exhaustive": not d["fails"], "types": d["types"], "types_with_all_values_enumerated": d["types_fully_enumerated"],
        "explanation": note + " Explored twice: built with all run-time checks, and without debug assertions and overflow checks; numbers are of one pass. Each transition is one call of the real code compared with the independent model.",
    }
    return res


def twice(package, prop, tier, timeout, workspace="mc", target="mc"):
    """Explores with all run-time checks, then as users build it."""
    for profile in ("chk", "fast"):
        d = explore(os.path.join(runner.cargo(workspace, [package], profile, target=target), package), prop, tier, timeout)
        d["profile"] = profile
        if d["fails"]:
            break
    return d


def again(package, prop, r, workspace="mc", target="mc"):
    a = ["replay", "--prop", prop, "--tier", r.get("tier", "quick"), "--type", r["type"]]
    if prop == "C16":
        a += ["--case", r["case"]]
    p = worker(os.path.join(runner.cargo(workspace, [package], r.get("profile", "chk"), target=target), package), a, 3600)
    print(p.stdout.strip())
    if p.returncode:
        print("VIOLATION property=%s replay=again" % prop)
        return 1
    return 0


def run(prop, tier, seed):
    d = twice("likemc", prop, tier, 840 if tier == "quick" else 3 * 3600)
    res = result(prop, d, NOTES[prop], tier, "like")
    res.assumptions = ["item types' own mappings are correct (the harness's own)"]
    return res


def replay(prop, r):
    return again("likemc", prop, r)
