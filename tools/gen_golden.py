"""Writes data/golden.json: digests of the streams of all plugins of the pinned tree (with the repairs listed in known_findings.txt)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import golden
import host
import vf

ctx = None
ctr = len(sys.argv) > 1 and sys.argv[1] == "ctr"
deep = len(sys.argv) > 1 and sys.argv[1] == "deep"
p = V + "/data/golden.json"
old = json.load(open(p)) if os.path.exists(p) else {}
names = vf.gen_names()
pars = json.load(open(V + "/data/params.json"))
cx = golden.ctr_build()
g, h = vf.build_gens(names, "fast"), host.build("fast")


def one(j):
    n, q = j
    k = n + "|" + q
    d = dict(old.get(k, {})) if deep or ctr else {}
    if ctr:
        d.pop("ctr", None)
        r = {}
        for f in ("fast", "generic"):
            for a, b in golden.overflow_digests(cx, vf.build_gens([n], f)[n], q).items():
                if r.setdefault(a, b) != b:
                    print("BUILDS DIFFER", k, a)
        if r:
            d["ctr"] = r
        if k not in old:
            return k, None
    elif deep:
        d["deep"] = golden.deep(h, g[n], n, q)
    else:
        r = golden.run(h, g[n], q)
        if isinstance(r, str):
            print("NOT", k, r)
            return k, None
        d.update(r)
        for x in ("deep", "ctr"):
            if k in old and x in old[k]:
                d[x] = old[k][x]
    return k, d


out = dict(x for x in vf.pmap(one, [(n, q) for n in names for q in pars.get(n, [""]) if n not in golden.SKIP]) if x[1] is not None)
with open(p, "w") as f:
    f.write("{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(out[k], sort_keys=True, separators=(",", ":"))) for k in sorted(out)) + "\n}\n")
print(len(out), os.path.getsize(p))
