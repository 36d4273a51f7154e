#!/usr/bin/env python3
import collections, json, sys
c = collections.Counter()
for f in sys.argv[1:]:
    for l in open(f):
        r = json.loads(l)
        c[r["result"]] += 1
        if r["result"] == "MISSED" or r.get("codes"):
            print(r["result"], f.split("/")[-1], r["line"], "|", r["old"], "=>", r["new"], "|", {k: (v[0], v[1][-300:]) for k, v in r.get("codes", {}).items()})
print(c)
