#!/usr/bin/env python3
"""Transcribes the express/brief columns of docs/results.md and calibrates which tests of the battery are decided for every seed.
usage: gen_results.py express|brief nseeds workers [every k-th]   (updates data/results.json; run on the reviewed tree only)"""
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import results

bat, nseeds, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
path = vf.VERIF + "/data/results.json"
D = json.load(open(path)) if os.path.exists(path) else {}
exe = vf.build_cli("fast")
rows = results.doc_rows(vf.REPO + "/docs/results.md")
gens = vf.build_gens(sorted({g for _, g, _, _ in rows}), "fast")
FLAWS = [("flaw%d %s" % (nb, k), "@%d" % nb, k, {"express": (None, None), "brief": (None, None)}) for nb in (32, 64) for k in "cohnabplki"]
FLAWS = [f for f in FLAWS if f[2] != "h"]
rows += FLAWS
if len(sys.argv) > 4:
    rows = [r for i, r in enumerate(rows) if r[1][0] == "@" or i % int(sys.argv[4]) == 0]
gens.update(results.flaw_plugins())
jobs = [(label, g, par, k) for label, g, par, _ in rows for k in range(nseeds)]


def one(j):
    label, g, par, k = j
    return label, results.run(exe, gens[g], par, bat, "cal%d" % k)


got = {}
for label, r in ThreadPoolExecutor(workers).map(one, jobs):
    got.setdefault(label, []).append(r)
for label, g, par, doc in rows:
    rs = got[label]
    e = D.setdefault(label, {"plugin": g, "param": par})
    lo, hi = doc[bat]
    if any(r is None for r in rs) or len({tuple(r) for r in rs}) != 1 or (lo is None and g[0] != "@"):
        e.pop(bat, None)
        print("left out:", label, doc[bat], [r and len(r) for r in rs][:4])
        continue
    names = list(rs[0])
    must = [n for n in names if all(results.tail(r[n]) > 15 for r in rs)]
    may = [n for n in names if any(results.tail(r[n]) > 4.5 for r in rs)]
    n = [sum(results.tail(v) > 10 for v in r.values()) for r in rs]
    e[bat] = {"doc": [lo, hi], "must": must, "may": may}
    if lo is not None and not (min(n) <= hi and max(n) >= lo):
        e[bat]["differs"] = [min(n), max(n)]
        print("differs:", label, "documented", lo, hi, "observed", sorted(set(n)))
json.dump(D, open(path, "w"), indent=0, sort_keys=True)
print(len(D), "entries;", sum(bat in e for e in D.values()), bat)
