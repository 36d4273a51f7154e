#!/usr/bin/env python3
"""tryseed.py ID...: inside a lab; confirms planted bugs and runs the checks.
Options: --all runs every check, --noverify skips tests and demo, --checks A,B."""
import json, os, subprocess, sys, time
a = sys.argv[1:]
ALL = ["C%02d" % i for i in range(1, 25)]
allc = "--all" in a
nov = "--noverify" in a
only = None
if "--checks" in a:
    i = a.index("--checks")
    only = a[i + 1].split(",")
    del a[i:i + 2]
a = [x for x in a if not x.startswith("--")]
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")


def sh(c, cwd="/repo", t=900):
    return subprocess.run(["timeout", str(t), "bash", "-c", c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)


for s in a:
    d = "/verif/seeded/" + s
    prop = json.load(open(d + "/meta.json"))["property"]
    sh("git checkout -q -- .")
    out = ["%-22s %s" % (s, prop)]
    if not nov:
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % d)
        out.append("clean demo %s" % ("ok" if r.returncode == 0 else "BAD " + r.stdout[-1500:]))
    r = sh("git apply %s/patch.diff" % d)
    if r.returncode:
        print(out, "DOES NOT APPLY", r.stdout)
        continue
    if not nov:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(out, "NO BUILD", r.stdout[-3000:])
            sh("git checkout -q -- .")
            continue
        sh("bash /opt/vp/test.sh /opt/vp/o.json")
        o = json.load(open("/opt/vp/o.json"))
        out.append("tests ok" if not o["failed"] and len(o["passed"]) >= 209 else "TESTS FAIL %s" % o["failed"])
        r = sh("bash %s/demo.sh" % d)
        out.append("demo fails" if r.returncode not in (0, 3, 124) and "could not compile" not in r.stdout else "DEMO BAD %d %s" % (r.returncode, r.stdout[-1500:]))
    checks = only or ([prop] + ([c for c in ALL if c != prop] if allc else []))
    caught = []
    for c in checks:
        t = time.time()
        r = sh("./check " + c, "/verif")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if r.returncode == 1 and v:
            caught.append(c)
            if c == prop:
                out.append("caught in %.0fs: %s" % (time.time() - t, " | ".join(r.stdout.splitlines()[:2])[:300]))
        elif r.returncode != 0:
            out.append("!! %s exit %d %s" % (c, r.returncode, r.stdout[-1000:]))
        elif c == prop:
            out.append("MISSED in %.0fs" % (time.time() - t))
    if len(checks) > 1:
        out.append("caught by " + " ".join(caught))
    sh("git checkout -q -- .")
    print("; ".join(out), flush=True)
