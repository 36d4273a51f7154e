#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VECT = "explicit-state model checking of the real code: exhaustive bounded call histories against a plain-vector model"
T = {
 "C01": VECT, "C02": VECT, "C03": VECT, "C13": VECT,
 "C04": "exhaustive exploration of histories and block contents, membership queries checked in every state",
 "C05": "exhaustive exploration of histories, identity laws checked in every state",
 "C06": "exhaustive exploration of iterator call interleavings in every explored vector state",
 "C07": "exhaustive exploration of histories under an accounting allocator",
 "C08": "exhaustive exploration of histories under an accounting allocator",
 "C09": "exhaustive exploration of histories under a guarding allocator with two memory fills",
 "C10": "exhaustive enumeration of panic points in every explored history",
 "C11": "explicit-state model checking of raw reads, writes and block layout",
 "C25": "exhaustive exploration of repeated cycles of calls (lassos), requests for memory counted",
 "C12": "lockstep exhaustive exploration of the same histories on all back ends",
}
NOTE = {}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from manifest_more import T as T2, NOTE as N2, NA as NA2
    T.update(T2); NOTE.update(N2); NA.update(NA2)
except ImportError:
    pass
checks = []
for p in props:
    if p in T:
        checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s --tier thorough" % p,
            "technique": T[p], "level": "model_checking", "level_note": NOTE.get(p, "Exhaustive within the bounds stated in DESIGN.md; every explored trace runs on the implementation itself.")})
    else:
        NA.setdefault(p, "check not built yet")
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
