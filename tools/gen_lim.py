#!/usr/bin/env python3
"""Writes the list of element types at every limit under mc/lim/l*/ (committed)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l = []
for m, bits in (("u8_", 8), ("u16_", 16), ("u32_", 32), ("u64_", 64), ("u128_", 64), ("small_", 32)):
    ns = set()
    for k in range(1, bits + 1):
        for d in (-1, 0, 1):
            ns.add(2 ** k + d)
    ns |= {2, 3, 5, 6, 7, 10, 12, 100, 1000, 3 * 2 ** 20, 10 ** 9, 10 ** 15}
    if bits == 8:
        ns |= set(range(2, 257))
    for n in sorted(ns):
        if 2 <= n <= 2 ** bits and n < 2 ** 64:
            l.append((m, n))
K = 8
for k in range(K):
    d = os.path.join(V, "mc/lim/l%d" % k)
    os.makedirs(d + "/src", exist_ok=True)
    open(d + "/Cargo.toml", "w").write('[package]\nname = "lim%d"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nlimsut = { path = "../sut" }\n' % k)
    with open(d + "/src/lib.rs", "w") as f:
        f.write("// generated by tools/gen_lim.py\nuse limsut::*;\npub fn all(v: &mut Vec<Cfg>) {\n")
        for m, n in l[k::K]:
            f.write("    v.push(%s::cfg::<%d>());\n" % (m, n))
        f.write("}\n")
print(len(l))
