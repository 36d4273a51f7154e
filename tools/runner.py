"""Common driver of all checks."""
import importlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

VEC = ["C%02d" % i for i in range(1, 14)] + ["C25"]


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_TERM_COLOR"] = "never"
    return e


class Rejected(Exception):
    """The harness, which uses only the documented interface, does not compile
    against the working tree although the crates under test do."""


def cargo(workspace, packages, profile="chk", extra=(), target="mc"):
    """Builds packages of a harness workspace; returns the output directory.
    Raises Rejected when code under test compiles but its users do not."""
    t = os.path.join(BUILD, target)
    ws = os.path.join(VERIF, workspace)
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--target-dir", t, "--message-format", "json"]
    for p in packages:
        cmd += ["-p", p]
    cmd += list(extra)
    r = subprocess.run(cmd, cwd=ws, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        harness, other = [], []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"].get("level") == "error" and not m["message"]["message"].startswith("aborting due"):
                mine = os.path.dirname(m.get("manifest_path", "")).startswith(VERIF + "/")
                (harness if mine else other).append(m["message"])
        if harness and not other:
            e = Rejected(harness[0]["message"])
            e.messages = harness
            raise e
        text = "\n".join(x.get("rendered", "") for x in other) or r.stderr
        raise CheckError("build failed:\n" + text[-6000:])
    return os.path.join(t, profile)


def rejected(prop, e):
    """A violation: valid use of the interface that no longer compiles."""
    m = e.messages[0]
    where = ""
    if m.get("spans"):
        s = next((x for x in m["spans"] if x.get("is_primary")), m["spans"][0])
        where = "%s:%s" % (s["file_name"], s["line_start"])
    res = Result()
    res.coverage = {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": ["the harness itself, compiled"], "exhaustive": False,
                    "explanation": "The harness uses documented calls only and compiles against the original code; it is rejected by the code in the working tree."}
    text = m.get("rendered") or e.args[0]
    res.violations.append({"ident": "does not compile: %s %s" % (where, m["message"].split("\n")[0][:200]), "what": " ".join(text.split())[:600], "replay": {"engine": "compile", "message": text[:8000]}})
    return res


def known(prop):
    out = set()
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.add(l.split(" ", 2)[2])
    return out


class Result:
    def __init__(self):
        self.coverage = {}
        self.violations = []  # dicts: what, replay (dict written to the file)
        self.assumptions = []


def finish(prop, tier, seed, t0, res):
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    kn = known(prop)
    new = []
    for v in res.violations:
        ident = v["ident"]
        if ident in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, ident, v["what"]))
        else:
            new.append(v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": res.coverage, "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for i, v in enumerate(new[:5]):
        path = os.path.join(REPLAYS, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump(dict(v["replay"], property=prop, what=v["what"], ident=v["ident"]), f, indent=1)
            f.write("\n")
        print("%s: %s" % (prop, v["ident"]))
        print("    %s" % v["what"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    c = res.coverage
    print("%s %s: states=%s transitions=%s validated=%s violations=%d in %.1fs" % (prop, tier, c.get("states"), c.get("transitions"), c.get("traces_validated_against_impl"), len(new), time.time() - t0))
    return 1 if new else 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--replay":
            replay = argv[i + 1]
        i += 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if prop in VEC:
        mod = importlib.import_module("vecprops")
    else:
        mod = importlib.import_module({"C14": "likeprops", "C15": "likeprops", "C16": "likeprops", "C17": "likeprops", "C18": "deriveprops", "C19": "deriveprops", "C20": "compileprops", "C21": "setprops", "C22": "setprops", "C23": "setprops", "C24": "e2eprops"}[prop])
    try:
        if replay:
            return mod.replay(prop, json.load(open(replay)))
        res = mod.run(prop, tier, seed)
    except Rejected as e:
        if replay:
            print("does not compile: %s" % e)
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        res = rejected(prop, e)
    except CheckError as e:
        print("%s: the check could not run: %s" % (prop, e))
        return 2
    return finish(prop, tier, seed, t0, res)
