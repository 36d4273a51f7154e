#!/usr/bin/env python3
"""Writes the types of the composition check under e2e/t*/ (committed)."""
import itertools, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "tools/gen_derive.py")).read()
head, rest = src.split("\nK = 8\n")
G = {"__file__": os.path.join(V, "tools/gen_derive.py")}
exec(head, G)
comp = rest.split("comp = ['''")[1].split("''']")[0]
comp2 = rest.split("comp.append('''")[1].split("''')")[0]
G["COUNT"].update({"N16": 65280, "Byte": 256, "Suit": 4, "Card": 40, "Rank": 10, "Play": 242})
K = 8
out = [[] for _ in range(K)]
push = [[] for _ in range(K)]
cost = [0] * K
types = 0


def add(k, t, n, label=None):
    global types
    s = []
    if n >= 2:
        for w, f in ((8, "u8_"), (16, "u16_"), (32, "u32_"), (64, "u64_"), (64, "u128_"), (32, "small_")):
            if n <= 1 << w:
                s.append(f)
    if 1 <= n <= 256:
        s.append("p8_")
    if 1 <= n <= 65536:
        s.append("p16_")
    label = (label or t).replace('"', "'")
    push[k].append('    v.push(ty::<%s>("%s", vec![%s]));' % (t, label, ", ".join("%s::<%s>()" % (f, t) for f in s)))
    types += 1


def where():
    k = cost.index(min(cost))
    cost[k] += 1
    return k


# derived definitions: every 16th of those the derive check uses, wrapped in
# one built-in constructor each
wraps = [lambda t, n: ("Option<%s>" % t, n + 1), lambda t, n: ("(%s, bool)" % t, 2 * n), lambda t, n: ("Result<%s, Tri>" % t, n + 3), lambda t, n: ("[%s; 2]" % t, n * n), lambda t, n: ("Option<(Tri, %s)>" % t, 3 * n + 1), lambda t, n: ("(%s,)" % t, n), lambda t, n: ("Result<bool, [%s; 1]>" % t, n + 2)]
defs = G["defs"]
chosen = [d for i, d in enumerate(defs) if i % 16 == 3 or d.inst and i % 3 == 0 or i < 16]
for i, d in enumerate(chosen):
    k = where()
    name = ("E%d" if d.kind == "enum" else "S%d") % i
    insts = d.inst[i % 2::2] if d.inst else [()]
    ok = [x for x in insts if G["total"](d, dict(zip(["A", "B"], x))) < 1 << 62]
    if not ok:
        continue
    out[k].append(G["emit"](d, name))
    text = " ".join(G["emit"](d, name).split("\nimpl")[0].replace("#[derive(Clone, Copy, EnumLike)]", "").replace("pub ", "").replace("/// doc", "").split())[:120]
    for x in ok[:2]:
        t = name + ("<%s>" % ", ".join(x) if x else "")
        n = G["total"](d, dict(zip(["A", "B"], x)))
        add(k, t, n, "%s: %s" % (t, text))
    w, m = wraps[i % len(wraps)](t, n)
    if m < 1 << 62:
        add(k, w, m, "%s: %s" % (w, text))
# built-in towers over derived leaves
L = [("()", 1), ("bool", 2), ("Tri", 3), ("Five", 5), ("Never", 0), ("D17", 17)]
S1 = []
for a in L:
    S1 += [("Option<%s>" % a[0], a[1] + 1), ("[%s; 3]" % a[0], a[1] ** 3), ("[%s; 0]" % a[0], 1)]
    for b in L[:4]:
        S1 += [("(%s, %s)" % (a[0], b[0]), a[1] * b[1]), ("Result<%s, %s>" % (a[0], b[0]), a[1] + b[1])]
for i, (t, n) in enumerate(L + S1):
    add(where(), t, n)
S2 = []
for i, a in enumerate(S1):
    b = S1[(i * 7 + 3) % len(S1)]
    S2.append([("Option<%s>" % a[0], a[1] + 1), ("(%s, %s)" % (a[0], b[0]), a[1] * b[1]), ("Result<%s, %s>" % (a[0], b[0]), a[1] + b[1]), ("[%s; 2]" % a[0], a[1] ** 2), ("(%s, bool, %s)" % (a[0], b[0]), 2 * a[1] * b[1])][i % 5])
for t, n in S2:
    if n < 1 << 62:
        add(where(), t, n)
# long tuples and arrays, and the limits of every container
for t, n in [("(bool, Tri, (), Two, One, bool, Tri)", 72), ("(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)", 4096), ("(Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, (), Two, ())", 512),
             ("(%s)" % ", ".join(["bool"] * 32), 1 << 32), ("(%s)" % ", ".join((["()", "One"] * 16)[:31] + ["Five"]), 5), ("[bool; 16]", 65536), ("[bool; 17]", 1 << 17), ("[bool; 32]", 1 << 32), ("[(); 32]", 1), ("[Tri; 5]", 243), ("[Tri; 6]", 729), ("[Tri; 32]", 3 ** 32),
             ("Byte", 256), ("Option<Byte>", 257), ("(Byte, Byte)", 65536), ("Option<(Byte, Byte)>", 65537), ("N32", 1 << 32), ("Option<N32>", (1 << 32) + 1), ("(N32, (N16, [bool; 12]))", (1 << 44) * 65280), ("[Byte; 7]", 1 << 56), ("Result<N32, N32>", 1 << 33), ("[[Tri; 3]; 3]", 19683), ("((Byte, Two), Option<Byte>)", 512 * 257)]:
    add(where(), t, n)
out[0].append(comp)
out[1].append(comp2.replace("use likesut::{Spec, Tri};", "use e2esut::{Spec, Tri};"))
for t, n in (("Suit", 4), ("Card", 40), ("Rank", 10), ("Play", 242), ("Wrap<Suit>", 21), ("Wrap<Play>", 1211), ("Wrap<Wrap<Card>>", 1006), ("Wrap<Wrap<Wrap<Never>>>", 31), ("Wrap<Option<Wrap<Rank>>>", 261), ("Option<Play>", 243), ("(Card, Card)", 1600), ("[Wrap<bool>; 3]", 1331), ("Result<Card, Wrap<Suit>>", 61)):
    add(0, t, n)
for t, n in (("Life<'static>", 7), ("Deft", 6), ("Deft<Tri>", 9), ("Deft<Never>", 0), ("LifeS<'static, bool>", 6), ("LifeS<'static, Option<Tri>>", 20), ("hygiene::So", 12), ("hygiene::Eo", 16), ("hygiene::Co", 4), ("hygiene::usize_", 3), ("Option<hygiene::So>", 13)):
    add(1, t, n)
for k in range(K):
    dd = os.path.join(V, "e2e/t%d" % k)
    os.makedirs(dd + "/src", exist_ok=True)
    open(dd + "/Cargo.toml", "w").write('[package]\nname = "e2et%d"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ne2esut = { path = "../sut" }\nenum_like = "0.2"\nenum_like_derive = { path = "/repo/enum_like_derive" }\n' % k)
    with open(dd + "/src/lib.rs", "w") as f:
        f.write("// generated by tools/gen_e2e.py\n#![allow(dead_code, unused_assignments, unused_mut, unused_variables, unreachable_code, unused_imports, overflowing_literals, non_camel_case_types)]\nuse e2esut::*;\nuse enum_like_derive::EnumLike;\n")
        f.write("\n".join(out[k]))
        f.write("\npub fn all(v: &mut Vec<Ty>) {\n" + "\n".join(push[k]) + "\n}\n")
print(types, "types")
# e2e/Cargo.toml, the workspace, is kept by hand
open(os.path.join(V, "e2e/mc/Cargo.toml"), "w").write('[package]\nname = "e2emc"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nmccore = { path = "../../mc/core" }\ne2esut = { path = "../sut" }\n' + "".join('e2et%d = { path = "../t%d" }\n' % (k, k) for k in range(K)))
