"""C09 under Miri: histories executed by an interpreter that stops at the first
undefined behaviour, also where it has no consequences."""
import concurrent.futures, os, re, subprocess, time
import runner

FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"


def command(args, timeout):
    e = runner.env()
    e["MIRIFLAGS"] = FLAGS
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", os.path.join(runner.BUILD, "miri"), "-p", "mirimc", "--"] + args
    return subprocess.run(cmd, cwd=os.path.join(runner.VERIF, "mc"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)


def undefined(r):
    """What Miri objects to, if it does."""
    m = re.search(r"^error: Undefined Behavior: (.*)$", r.stderr, re.M)
    if not m:
        return None
    at = re.findall(r"(?:-->|at) (\S*/repo/\S+|\S*enum_\S+\.rs:\d+\S*)", r.stderr)
    return "undefined behaviour: " + m.group(1) + (" at " + at[0] if at else "")


def build():
    """None when Miri runs here, else why not."""
    try:
        r = command(["list"], 600)
    except (OSError, subprocess.TimeoutExpired) as e:
        return str(e)[:200]
    return None if r.returncode == 0 else (r.stderr.strip().split("\n") or ["?"])[-1][:300]


def explore(tier, limit):
    """(totals, violations, notes)"""
    t0 = time.time()
    why = build()
    total = {"states": 0, "transitions": 0}
    if why:
        return total, [], ["Miri does not run here: " + why]
    n = int(command(["list", "--tier", tier], 600).stdout.strip().lstrip("#"))
    bad, notes = [], []

    def one(i):
        left = limit - (time.time() - t0)
        if left < 5 or bad:
            return None
        try:
            return command(["run", "--tier", tier, "--shard", str(i), "--of", str(n)], left)
        except subprocess.TimeoutExpired:
            return None

    done = 0
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(one, range(n)):
            if r is None:
                continue
            last = ""
            for l in r.stdout.splitlines():
                if l[:1] == "@":
                    last = l[1:]
                    total["transitions"] += 1
                elif l[:1] == "=":
                    total["states"] += int(l[1:].split()[0])
                    done += 1
                elif l[:1] == "!":
                    c, h, w = l[1:].split("|", 2)
                    bad.append((c, h, w))
            w = undefined(r)
            if w and last:
                bad.append(tuple(last.split("|", 1)) + (w,))
            elif w or r.returncode:
                notes.append("one part of the Miri run ended with: " + ((w or r.stderr.strip().split("\n")[-1])[:200]))
    if done < n and not bad:
        notes.append("%d of %d parts of the Miri run completed" % (done, n))
    return total, [{"cfg": c, "hist": h, "what": w} for c, h, w in bad], notes


def confirm(cfg, hist):
    try:
        r = command(["replay", "--cfg", cfg, "--hist", hist], 300)
    except subprocess.TimeoutExpired:
        return None
    return undefined(r) or (r.stdout.strip() if r.returncode == 1 and r.stdout.strip() else None)
