"""C01 to C13: exhaustive exploration of histories of one packed vector."""
import json, os, subprocess, tempfile
import likeprops, miriprops, runner

NOTES = {
    "C01": "element-wise calls", "C02": "insert, remove and swap_remove mixed with every other call", "C03": "bulk transfers mixed with every other call",
    "C04": "any() and all() probed in every state", "C05": "eq, hash, debug and clone probed in every state", "C06": "every short interleaving of iterator calls in every state",
    "C07": "heap use judged after every call, shrunk size in every state", "C08": "capacity and allocation requests judged on every call",
    "C09": "red zones, two memory fills, leak and storage cover judged on every call", "C10": "a panic at every callback position", "C11": "raw reads, writes and block layout in every state",
    "C25": "every cycle of up to two (selected configurations: three; thorough: three everywhere) of 23 growing, shrinking and reserving calls, from two (thorough: five) starts, repeated until the vector has 100 (400) blocks or thousands of calls were made, with all requests for memory counted; states are the vectors at the end of each round",
    "C12": "lockstep over all back ends", "C13": "retain and for_each with recorded callbacks",
}


def worker(exe, args, timeout):
    return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=runner.env())


def confirm(exe, prop, tier, cfg, hist, extra=()):
    """Executes the history in a fresh process; returns what fails, or None."""
    with tempfile.TemporaryDirectory() as d:
        crash = os.path.join(d, "crash")
        try:
            r = worker(exe, ["replay", "--prop", prop, "--tier", tier, "--cfg", cfg, "--hist", hist, "--crash", crash] + [x for x in extra if x == "--watch"], 120)
        except subprocess.TimeoutExpired:
            return "the history does not end"
        if r.returncode == 1:
            return r.stdout.strip() or "fails"
        if r.returncode == 70 and os.path.exists(crash):
            l = open(crash, errors="replace").read().split("\n")
            return "crashes: %s %s" % (l[0], l[1])
        if r.returncode < 0:
            return "killed by signal %d" % -r.returncode
        return None


def minimise(exe, prop, tier, cfg, hist, what, extra=()):
    ops = [o.strip() for o in hist.split(";")]
    changed = "|" not in hist
    budget = 60
    while changed and budget > 0:
        changed = False
        for i in range(len(ops) - 1, -1, -1):
            if len(ops) <= 1 or budget <= 0:
                break
            t = ops[:i] + ops[i + 1:]
            budget -= 1
            w = confirm(exe, prop, tier, cfg, "; ".join(t), extra)
            if w and not w.startswith("(outside"):
                ops, what, changed = t, w, True
    return "; ".join(ops), what


def explore(exe, prop, tier, extra=()):
    """Runs the explorer, again without a call that crashes outside the property."""
    skip = []
    crashes = []
    for _ in range(9):
        with tempfile.TemporaryDirectory() as d:
            out, crash = os.path.join(d, "out"), os.path.join(d, "crash")
            args = ["run", "--prop", prop, "--tier", tier, "--out", out, "--crash", crash] + list(extra)
            if skip:
                args += ["--skip", ",".join(skip)]
            try:
                r = worker(exe, args, 840 if tier == "quick" else 6 * 3600)
            except subprocess.TimeoutExpired:
                raise runner.CheckError("the explorer ran out of time")
            if r.returncode in (0, 1) and os.path.exists(out):
                return json.load(open(out)), skip, crashes
            if r.returncode == 70 and os.path.exists(crash):
                l = open(crash, errors="replace").read().split("\n")
                l += [""] * 6
                why, msg, _p, cfg, owned, hist = l[:6]
                if not hist:
                    raise runner.CheckError("crash without a history: %s %s" % (why, msg))
                if owned == "owned":
                    crashes.append({"cfg": cfg, "hist": hist, "what": "crashes: %s %s" % (why, msg)})
                    return None, skip, crashes
                if "--watch" in extra:
                    # perhaps in one of the questions asked in between
                    extra = [x for x in extra if x != "--watch"]
                    continue
                kind = hist.split(";")[-1].split()[0]
                if kind in skip:
                    raise runner.CheckError("crash in a call that is left out: " + hist)
                skip.append(kind)
                continue
            raise runner.CheckError("explorer ended with %d: %s" % (r.returncode, (r.stderr or "")[-2000:]))
    raise runner.CheckError("too many crashes outside the property: " + ",".join(skip))


def build(profile):
    return os.path.join(runner.cargo("mc", ["vecmc"], profile), "vecmc")


LIM = {
    "C04": "any and all over vectors whose last block holds every word (8 and 16-bit blocks) or every word that differs from a uniform one in at most two elements, for all numbers of variants at the ends of their widths",
    "C07": "blocks and heap bytes of vectors of every length around the block boundaries, for about 900 (back end, number of variants) pairs around all powers of two",
}


def limits(prop, tier, res):
    """A second exploration, over block contents and numbers of variants."""
    d = likeprops.twice("limmc", prop, tier, 840 if tier == "quick" else 3 * 3600)
    r = likeprops.result(prop, d, "", tier, "lim")
    res.violations += r.violations
    c = res.coverage
    for k in ("states", "transitions", "traces_validated_against_impl"):
        c[k] += r.coverage[k]
    c["back_end_and_variants_pairs"] = d["types"]
    c["explanation"] += " Further: " + LIM[prop] + "."


def interpreted(tier, res):
    """A third exploration, by Miri."""
    total, bad, notes = miriprops.explore(tier, 300 if tier == "quick" else 5 * 3600)
    c = res.coverage
    for f in bad[:5]:
        w = miriprops.confirm(f["cfg"], f["hist"])
        if w is None:
            raise runner.CheckError("not reproducible under Miri: %s %s: %s" % (f["cfg"], f["hist"], f["what"]))
        res.violations.append({"ident": "miri cfg=%s hist=%s" % (f["cfg"], f["hist"]), "what": w[:600], "replay": {"engine": "miri", "cfg": f["cfg"], "hist": f["hist"]}})
    for k in total:
        c[k] += total[k]
    c["traces_validated_against_impl"] += total["transitions"]
    c["calls_executed_under_miri"] = total["transitions"]
    c["explanation"] += " Third exploration: every call in every state one call away from the boundary states of small vectors of the back ends, executed by Miri, which stops at undefined behaviour whether or not it has consequences."
    if notes:
        c["miri_notes"] = notes


def run(prop, tier, seed):
    res = runner.Result()
    total = {}
    skipped, samples, exhaustive = [], [], True
    # with every run-time check, then as users build it: the second time
    # (quick) with shorter histories
    for profile, extra in (("chk", []), ("fast", ["--watch"] + (["--lite"] if tier == "quick" else []))):
        exe = build(profile)
        data, skip, crashes = explore(exe, prop, tier, extra)
        fails = list(crashes)
        if data:
            fails += data["fails"]
        for f in fails:
            w = confirm(exe, prop, tier, f["cfg"], f["hist"], extra)
            if w is None:
                raise runner.CheckError("not reproducible: %s %s: %s" % (f["cfg"], f["hist"], f["what"]))
            h, w = minimise(exe, prop, tier, f["cfg"], f["hist"], w, extra)
            res.violations.append({"ident": "cfg=%s hist=%s" % (f["cfg"], h), "what": w + ("" if profile == "chk" else " [built without run-time checks]"), "replay": {"engine": "vec", "cfg": f["cfg"], "hist": h, "tier": tier, "profile": profile, "extra": extra}})
        d = data or {}
        for k in ("states", "transitions", "traces", "configurations", "probes", "fixpoints", "rejected_calls", "pruned", "capped"):
            total[k] = total.get(k, 0) + d.get(k, 0)
        total["max_depth"] = max(total.get("max_depth", 0), d.get("max_depth", 0))
        samples += (d.get("samples") or [])[:8] or [f["cfg"] + ": " + f["hist"] for f in fails]
        exhaustive &= bool(data) and d["capped"] == 0 and not skip
        skipped += skip
        if fails:
            break
    d = total
    res.coverage = {
        "states": d["states"], "transitions": d["transitions"],
        "traces_validated_against_impl": d["traces"],
        "samples": samples or ["none"],
        "exhaustive": exhaustive,
        "configurations": d["configurations"], "state_probes": d["probes"],
        "configurations_explored_to_a_fixpoint": d["fixpoints"], "longest_history_beyond_its_start": d["max_depth"],
        "calls_expected_to_be_rejected": d["rejected_calls"], "histories_not_followed_for_reasons_outside_this_property": d["pruned"],
        "calls_left_out_after_crashes_outside_this_property": skipped, "states_not_expanded_for_the_cap": d["capped"],
        "explanation": "%s. Every transition runs the real code from scratch: fresh vector, history, call, comparison with a plain Vec; so every trace of the model (a history not extended further) is executed on the implementation and agrees with it at every call. Space: every (back end, bits per element) pair with histories from boundary lengths; selected tiny configurations until no new internal state is reachable. Explored twice: built with all run-time checks, and (quick: a smaller space) without debug assertions and overflow checks, there also asking every question (any, all, get, hash, eq, iteration) between any two calls; numbers are totals." % NOTES[prop],
    }
    if prop == "C25":
        res.coverage["explanation"] = NOTES[prop][0].upper() + NOTES[prop][1:] + ". All of it runs on the real code, twice: built with all run-time checks, and without debug assertions and overflow checks; numbers are totals."
    if prop in LIM and not res.violations:
        limits(prop, tier, res)
    if prop == "C09" and not res.violations:
        interpreted(tier, res)
    res.assumptions = ["element conversions are correct (the harness's own type)", "std's Vec and the smallvec crate behave as documented", "room before the next reallocation is distinguished as none, one block or more"]
    return res


def replay(prop, r):
    if r.get("engine") == "lim":
        return likeprops.again("limmc", prop, r)
    if r.get("engine") == "miri":
        miriprops.build()
        w = miriprops.confirm(r["cfg"], r["hist"])
        print("%s %s\n    %s" % (r["cfg"], r["hist"], w or "holds"))
        if w:
            print("VIOLATION property=%s replay=again" % prop)
        return 1 if w else 0
    exe = build(r.get("profile", "chk"))
    w = confirm(exe, prop, r.get("tier", "quick"), r["cfg"], r["hist"], r.get("extra", ()))
    if w and not w.startswith("(outside"):
        print("%s %s\n    %s" % (r["cfg"], r["hist"], w))
        print("VIOLATION property=%s replay=again" % prop)
        return 1
    print("holds: %s" % (w or "no difference"))
    return 0
