#!/usr/bin/env python3
"""Writes the lists of built-in types under mc/like/t*/ (committed)."""
import os, itertools
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COUNT = {"()": 1, "bool": 2, "Never": 0, "One": 1, "Two": 2, "Tri": 3, "Four": 4, "Five": 5, "Wide": 3, "D17": 17, "H63": 1 << 63, "H62": 1 << 62}
SMALL = ["()", "bool", "Never", "One", "Two", "Tri", "Four", "Five", "Wide", "D17"]
LIM = 1 << 64
types = {}


def add(t, c):
    if c < LIM and t not in types:
        types[t] = c


def opt(a):
    return "Option<%s>" % a[0], a[1] + 1


def res(a, b):
    return "Result<%s,%s>" % (a[0], b[0]), a[1] + b[1]


def tup(*xs):
    p = 1
    for x in xs:
        p *= x[1]
    return "(%s)" % "".join(x[0] + "," for x in xs), p


def arr(a, n):
    return "[%s;%d]" % (a[0], n), a[1] ** n


B = [(t, COUNT[t]) for t in COUNT]
S = [(t, COUNT[t]) for t in SMALL]
for b in B:
    add(*b)
    add(*opt(b)); add(*opt(opt(b))); add(*opt(opt(opt(b))))
    add(*tup(b))
    for n in range(33):
        add(*arr(b, n))
for a in B:
    for b in B:
        add(*res(a, b)); add(*tup(a, b))
# triples and quadruples
P3 = [(t, COUNT[t]) for t in ("()", "bool", "Tri", "Five", "Never")]
for xs in itertools.product(P3, repeat=3):
    add(*tup(*xs))
P4 = [(t, COUNT[t]) for t in ("()", "Two", "Tri")]
for xs in itertools.product(P4, repeat=4):
    add(*tup(*xs))
# long tuples
PATS = [["bool"], ["()"], ["Two", "Tri"], ["Tri", "()", "bool", "One", "Two"], ["()", "Wide", "()", "Two"], ["Five", "()", "One"], ["Four", "bool", "()"]]
for n in range(5, 33):
    for p in PATS:
        for k in range(len(p) if n in (5, 6, 12, 13, 31, 32) else 1):
            xs = [p[(i + k) % len(p)] for i in range(n)]
            xs = [(t, COUNT[t]) for t in xs]
            # shorten what would not fit
            t = tup(*xs)
            i = n - 1
            while t[1] >= LIM:
                xs[i] = ("()", 1)
                i -= 1
                t = tup(*xs)
            add(*t)
    xs = [("bool", 2)] * n
    xs[n // 2] = ("Never", 0)
    add(*tup(*xs))
    for pos in (0, 1, n // 2, n - 2, n - 1):
        xs = [("bool", 2)] * n
        xs[pos] = ("Tri", 3)
        if tup(*xs)[1] < LIM:
            add(*tup(*xs))
# nested
D = [("()", 1), ("bool", 2), ("Never", 0), ("Tri", 3)]
D1 = D + [opt(x) for x in D] + [tup(D[1], D[3]), res(D[1], D[0]), res(D[3], D[1]), res(D[2], D[3]), arr(D[1], 2), arr(D[3], 0), arr(D[3], 3), tup(D[3])]
for a in D1:
    add(*opt(a)); add(*tup(a)); add(*arr(a, 2)); add(*arr(a, 1)); add(*arr(a, 0)); add(*arr(a, 3))
    for b in D1:
        add(*res(a, b)); add(*tup(a, b))
        add(*tup(a, b, a))
D2 = [opt(res(D1[1], D1[3])), tup(opt(D1[1]), arr(D1[3], 2)), arr(tup(D1[1], D1[3]), 2), res(tup(D1[3], D1[1]), arr(D1[1], 3)), res(opt(D1[2]), D1[5]), tup(res(D1[2], D1[2]), D1[1]), arr(opt(D1[0]), 4), opt(arr(D1[2], 1)), opt(arr(D1[2], 0)), tup(tup(D1[3], D1[1]), D1[3])]
for a in D2:
    add(*opt(a)); add(*tup(a)); add(*arr(a, 2)); add(*arr(a, 3))
    for b in D2:
        add(*res(a, b)); add(*tup(a, b)); add(*tup(b, a, b)); add(*opt(res(a, opt(b)))); add(*arr(tup(a, b), 2))
K = 8
items = sorted(types.items(), key=lambda t: (-t[0].count(","), t[0]))
lists = [[] for _ in range(K)]
for i, t in enumerate(items):
    lists[i % K].append(t[0])
for i, l in enumerate(lists):
    d = os.path.join(V, "mc/like/t%d" % i)
    os.makedirs(d + "/src", exist_ok=True)
    open(d + "/Cargo.toml", "w").write('[package]\nname = "liket%d"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nlikesut = { path = "../sut" }\n' % i)
    with open(d + "/src/lib.rs", "w") as f:
        f.write("// generated by tools/gen_like.py\nuse likesut::*;\npub fn all(v: &mut Vec<Ty>) {\n")
        for t in sorted(l):
            f.write('    v.push(Ty::of::<%s>("%s"));\n' % (t, t))
        f.write("}\n")
print(len(items), "types")
