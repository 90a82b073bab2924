"""C12: p-values are calibrated on good streams, classic flaws are detected, documented verdicts are reproduced."""
import json
import math
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import numpy as np
from scipy import stats
import vf
import engcheck
import results
from vf import EngineCase as E

# engine, options, samples (1 = the usual number), largest |mean of z|, range of the standard deviation of z.
# The exact value is (0, 1); wider ranges are the documented approximations (overlapping tuples, asymptotic formulas, discrete counts).
GOOD = [
    ("monobit", (1 << 16,), 1, 0.05, 0.95, 1.05), ("nbitwords", (8, 16, 256), 1, 0.1, 0.9, 1.05), ("nbitwords", (4, 64, 64), 1, 0.1, 0.93, 1.07), ("nbitwords", (2, 512, 256), 1, 0.1, 0.9, 1.05),
    ("bspace", (32, 1, 8, 1), 1, 0.12, 0.9, 1.06), ("bspace", (16, 2, 8, 1), 1, 0.12, 0.9, 1.06), ("bspace", (8, 4, 8, 0), 1, 0.14, 0.9, 1.06), ("bspace", (4, 8, 4, 1), 1, 0.2, 0.9, 1.06),
    ("bspacedec", (1,), 1, 0.3, 0.9, 1.1), ("collover", (5, 4, 4, 5000, 1), 1, 0.12, 0.93, 1.1), ("collover", (10, 2, 8, 5000, 1), 1, 0.12, 0.93, 1.1), ("collover", (8, 3, 8, 40000, 0), 1, 0.1, 0.93, 1.08),
    ("gap", (4, 100000), 1, 0.1, 0.93, 1.07), ("sumcoll", (500000,), 1, 0.08, 0.95, 1.1), ("mod3", (200000,), 1, 0.1, 1.2, 1.6),
    ("hamming_ot", (1 << 20, 0), 1, 0.12, 1.1, 1.55), ("hamming_ot", (1 << 20, 1), 1, 0.12, 1.1, 1.6), ("hamming_ot", (1 << 20, 2), 1, 0.15, 1.2, 1.65), ("hamming_ot", (1 << 20, 3), 1, 0.12, 1.1, 1.6),
    ("hamming_ot_long", (1 << 20, 128), 1, 0.08, 1.1, 1.4), ("hamming_ot_long", (1 << 20, 256), 1, 0.08, 1.1, 1.4), ("hamming_ot_long", (1 << 21, 512), 0.5, 0.1, 1.15, 1.45), ("hamming_ot_long", (1 << 21, 1024), 0.25, 0.1, 1.1, 1.45),
    ("hamming_distr", (1 << 18, 6), 1, 0.5, 1.3, 1.65), ("linearcomp", (5000, 0), 1, 0.3, 0.75, 0.95), ("matrixrank", (256, 8), 1, 0.1, 0.93, 1.1), ("matrixrank", (512, 64), 0.4, 0.1, 0.93, 1.1),
    ("usphere", (3, 20000), 1, 0.08, 0.95, 1.05), ("usphere", (8, 20000), 1, 0.08, 0.95, 1.05), ("ising", (0, 5000, 20), 0.1, 0.3, 1.0, 1.4), ("ising", (1, 5000, 20), 0.1, 0.9, 0.95, 1.2), ("gap16", (10000000,), 0.15, 0.2, 0.9, 1.15)]

KINDS = ["c:0", "n:1", "n:12345677", "m:0x7F7F7F7F7F7F7F7F", "o:1", "p:100", "p:5000", "a", "b", "B", "x", "l:7", "z:1", "z:8", "y:0", "d:4096", "s", "t:20"]
HIGH = ("o:1", "l:7", "z:1", "z:8")                  # flaws of the low bits only
# engine, options, flaws that the test does not exist to find (32-bit / 64-bit), flaws reported in the upper tail, flaws reported in either
FLAWED = [
    ("monobit", (1 << 16,), "p:100 p:5000 l:7 n:12345677 y:0 d:4096", "a", ""),
    ("nbitwords", (8, 16, 256), "p:5000", "", ""),
    ("nbitwords", (2, 512, 256), "p:100 p:5000 l:7", "", ""),
    ("bspace", (32, 1, 8, 1), "o:1 p:5000 l:7 z:1", "", ""),
    ("bspace", (16, 2, 8, 1), "z:1", "", ""),
    ("bspace", (8, 4, 8, 0), "o:1 l:7 z:1 z:8", "", ""),
    ("bspace", (4, 8, 4, 1), "m:0x7F7F7F7F7F7F7F7F", "", ""),
    ("bspacedec", (1,), "", "", ""),
    ("collover", (5, 4, 4, 5000, 1), "m:0x7F7F7F7F7F7F7F7F p:5000 t:20", "c:0 n:1 n:12345677 p:100 a l:7 z:8 y:0 d:4096", ""),
    ("collover", (10, 2, 8, 5000, 1), "p:5000", "c:0 n:1 n:12345677 p:100 a l:7 z:8 y:0 d:4096", ""),
    ("collover", (8, 3, 8, 40000, 0), "o:1 l:7 z:1 z:8", "c:0 n:1 n:12345677 p:100 p:5000 a y:0 d:4096 s t:20", ""),
    ("gap", (4, 100000), "o:1 l:7 z:1 z:8", "", ""),
    ("sumcoll", (500000,), "o:1 l:7 z:1 z:8", "s", "c:0 n:1 a d:4096"),
    ("mod3", (200000,), "m:0x7F7F7F7F7F7F7F7F o:1 b B l:7 z:1 z:8", "", ""),
    ("hamming_ot", (1 << 20, 0), "l:7", "", ""), ("hamming_ot", (1 << 20, 1), "l:7", "", ""), ("hamming_ot", (1 << 20, 2), "", "", ""),
    ("hamming_ot", (1 << 20, 3), "m:0x7F7F7F7F7F7F7F7F", "", ""),
    ("hamming_ot_long", (1 << 20, 128), "", "", ""), ("hamming_ot_long", (1 << 20, 256), "", "", ""), ("hamming_ot_long", (1 << 21, 512), "", "", ""), ("hamming_ot_long", (1 << 21, 1024), "", "", ""),
    ("hamming_distr", (1 << 18, 6), "", "", ""),
    ("linearcomp", (5000, 0), "m:0x7F7F7F7F7F7F7F7F p:5000 b B x s t:20", "", ""),
    ("linearcomp", (5000, 7), "o:1 p:5000 b B x z:1 s t:20", "", ""),
    ("matrixrank", (256, 8), "p:5000 b B x s", "", ""),
    ("matrixrank", (512, 64), "p:5000 b B x", "", ""),
    ("usphere", (3, 20000), "o:1 p:100 p:5000 l:7 z:1 z:8", "a B x", "c:0 n:1 t:20 y:0 d:4096"),
    ("usphere", (8, 20000), "o:1 p:100 p:5000 l:7 z:1 z:8", "a B", "c:0 n:1 t:20 y:0 d:4096"),
    ("ising", (0, 5000, 20), "o:1 l:7 z:1 z:8 y:0 p:100 p:5000 d:4096 c:0", "b B x t:20", "n:1"),
    ("gap16", (10000000,), "", "", "")]


TOY = re.compile(r"(?<!\d)(8|16|816|1616)(?!\d)|tiny")


def z_of(res):
    p, q = res["p"], res["alpha"]
    return stats.norm.ppf(p) if p <= 0.5 else -stats.norm.ppf(q)


def calibrate(ctx, drv):
    sets = []
    for eng, o, share, m0, s0, s1 in GOOD:
        for nb in (32, 64):
            n = int(ctx.scale(160, 1000) * share)
            sets.append((eng, o, nb, m0, s0, s1, [E(eng, nb, "ideal", ctx.rng.getrandbits(60), o) for _ in range(n)]))
    cs = [c for s in sets for c in s[-1]]
    cs.sort(key=lambda c: c.engine not in ("ising", "gap16"))

    def fail(c):
        ctx.violation("calib:%s:%s" % (c.engine, c.res["fail"]), c.key() + str(c.res)[:300])
    vf.run_engine_cases(drv, cs, timeout=800, on_fail=fail)
    for eng, o, nb, m0, s0, s1, cc in sets:
        r = [c.res for c in cc if c.res and "fail" not in c.res]
        key = "%s/%d%s" % (eng, nb, list(o))
        bad = [c for c in cc if c.res and "fail" not in c.res and not (0 <= c.res["p"] <= 1 and 0 <= c.res["alpha"] <= 1 and abs(c.res["p"] + c.res["alpha"] - 1) < 1e-6)]
        for c in bad[:3]:
            ctx.violation("range:" + eng, "%s: p = %r, complement %r" % (c.key(), c.res["p"], c.res["alpha"]))
        if bad or not r:
            continue
        if eng == "monobit":                          # exactly balanced bits: p = 1 by design, probability sqrt(2 / (pi n))
            k = sum(x["x"] == 0 for x in r)
            r = [x for x in r if x["x"] != 0]
            ctx.count("balanced_monobit_runs", k)
            if k > 4 + len(r) * 0.004:
                ctx.violation("balanced", "%s: %d of %d ideal streams have exactly balanced bits" % (key, k, len(r)))
        z = np.array([z_of(x) for x in r])
        n = len(z)
        ctx.case(key, sample="mean %.2f sd %.2f over %d runs" % (z.mean(), z.std(), n))
        ctx.count("calibration_runs", n)
        if not np.isfinite(z).all() or abs(z).max() > 6.3613 * max(1.0, s1):
            ctx.violation("excess:" + eng, "%s: a run on an ideal stream gives z = %.2f" % (key, z[np.argmax(abs(z))]))
            continue
        nf = sum(x["p"] < 1e-10 or x["alpha"] < 1e-10 for x in r)
        if nf > 1:
            ctx.violation("excess:" + eng, "%s: %d of %d runs on ideal streams fail" % (key, nf, n))
        if abs(z.mean()) > m0 + 6 * s1 / math.sqrt(n):
            ctx.violation("mean:" + eng, "%s: mean of z over %d ideal streams is %.3f (p-values are not centred)" % (key, n, z.mean()))
        if not s0 * (1 - 5 / math.sqrt(2 * n)) < z.std() < s1 * (1 + 5.5 / math.sqrt(2 * n)):
            ctx.violation("spread:" + eng, "%s: standard deviation of z over %d ideal streams is %.3f, expected %.2f..%.2f" % (key, n, z.std(), s0, s1))
        # a mid-sized tail: suspicious results
        k = int((abs(z) > 3.0902).sum())
        q = 2 * stats.norm.sf(3.0902 / s1)
        if stats.binom.sf(k - 1, n, q) < 1e-9 and k > 1:
            ctx.violation("tails:" + eng, "%s: %d of %d runs on ideal streams are suspicious" % (key, k, n))


def detect(ctx, drv):
    jobs = []
    for eng, o, no, up, either in FLAWED:
        for nb in (32, 64):
            for k in KINDS:
                if k in no.split():
                    continue
                want = "LH" if k in either.split() else "H" if k in up.split() else "L"
                for _ in range(1 if eng in ("ising", "gap16") else ctx.scale(1, 4)):
                    if eng in ("monobit",) and k == "c:0":
                        continue                      # a constant may have balanced bits
                    jobs.append((E(eng, nb, k, ctx.rng.getrandbits(60), o, maxwords=3 * 10 ** 8), want))
    for nb in (32, 64):                               # what the parts of gap16 exist to find
        for k in ("g:1", "g:2", "g:3"):
            jobs.append((E("gap16", nb, k, ctx.rng.getrandbits(60), (10000000,)), "LH" if k == "g:3" else "L"))

    def fail(c):
        ctx.violation("detect:%s:%s" % (c.engine, c.res["fail"]), c.key() + str(c.res)[:300])
    vf.run_engine_cases(drv, [c for c, _ in jobs], timeout=400, on_fail=fail)
    for c, want in jobs:
        if not c.res or "fail" in c.res:
            continue
        got = "L" if c.res["p"] < 1e-10 else "H" if c.res["alpha"] < 1e-10 else "."
        ctx.case("%s/%d%s on %s" % (c.engine, c.nbits, list(c.opts), c.gen))
        ctx.count("flaw_runs")
        if got not in want:
            ctx.violation("missed:%s:%s" % (c.engine, c.gen), "%s: p = %r, complement %r; the flaw must be reported in the %s tail" % (c.key(), c.res["p"], c.res["alpha"], {"L": "lower", "H": "upper"}.get(want, "lower or upper")), c.key())


def exact(ctx):
    """every engine once more against the word-exact reference, on ideal and on flawed streams"""
    cases = []
    R = ctx.rng
    for eng, o, _, _, _, _ in GOOD:
        if eng == "gap16" and ctx.quick:
            continue
        if eng == "matrixrank" and o[0] > 256:
            continue
        if eng == "ising":
            o = (o[0], 500, 20)
        for nb in (32, 64):
            for k in range(ctx.scale(1, 4)):
                cases.append(E(eng, nb, "i", R.getrandbits(60), o))
            for g in R.sample(["l:%d" % R.getrandbits(40), "m:0x7F7F7F7F7F7F7F7F", "b", "B", "p:5000", "z:1", "t:20"], ctx.scale(1, 4)):
                cases.append(E(eng, nb, g, R.getrandbits(60), o))
    if engcheck.run(ctx, cases) < len(cases) - 5:
        ctx.count("exact_incomplete")


def documented(ctx):
    """the verdicts of docs/results.md and the flawed plugins, end to end"""
    D = json.load(open(vf.VERIF + "/data/results.json"))
    exe = vf.build_cli("fast")
    have = set(vf.gen_names())
    names = sorted({e["plugin"] for e in D.values() if not e["plugin"].startswith("@")})
    gens = vf.build_gens([n for n in names if n in have], "fast")
    gens.update(results.flaw_plugins())
    for n in names:
        if n not in gens:
            ctx.violation("doc:gone", "the documented generator %s is not bundled any more" % n)
    tag = "s%d" % ctx.rng.getrandbits(30)
    jobs = [(label, e, "express", "%s.%d" % (tag, k)) for label, e in sorted(D.items()) if "express" in e and e["plugin"] in gens for k in range(ctx.scale(1, 3))]
    if not ctx.quick:
        jobs += [(label, e, "brief", tag) for label, e in sorted(D.items()) if "brief" in e and e["plugin"] in gens]

    def one(j):
        label, e, bat, seed = j
        return results.run(exe, gens[e["plugin"]], e["param"], bat, seed, full=True)
    seen_grades = set()
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for (label, e, bat, seed), r in zip(jobs, ex.map(one, jobs)):
            key = "%s %s%s" % (bat, label, " --param=" + e["param"] if e["param"] else "")
            if r is None:
                ctx.violation("doc:norun", "%s --seed=%s gives no report" % (key, seed))
                continue
            rows, quality, rc = r
            ctx.count("documented_runs")
            x = e[bat]
            failed = {n for n, (p, v) in rows.items() if v == "FAIL"}
            ctx.case(key, bool(failed) or True, sample="fails " + (",".join(sorted(failed)) or "nothing"))
            ctx.count("documented_failures", len(failed))
            for n in x["must"]:
                if n not in failed:
                    ctx.violation("doc:missed:%s" % label, "%s --seed=%s: %s is %s (p = %s), but it fails for this generator" % (key, seed, n, rows.get(n, ("absent", "absent"))[1], rows.get(n, ("absent",))[0]))
            if TOY.search(label) and "r16" not in label:
                ctx.count("toy_generators")           # small states: some seeds start on short cycles
            for n in () if TOY.search(label) and "r16" not in label else failed - set(x["may"]):
                ctx.violation("doc:excess:%s" % label, "%s --seed=%s: %s FAILs (p = %s), which this generator passes" % (key, seed, n, rows[n][0]))
            lo, hi = x["doc"]
            if lo is not None and not x.get("differs") and set(x["may"]) == set(x["must"]) and not TOY.search(label) and not lo <= len(failed) <= hi:
                ctx.violation("doc:count:%s" % label, "%s --seed=%s: %d tests fail, docs/results.md says %d..%d" % (key, seed, len(failed), lo, hi))
            q = float(quality[0]) if quality else None
            seen_grades.add(quality)
            if not x["may"] and not TOY.search(label) and (q != 4.0 or rc != 0):
                ctx.violation("grade:good", "%s --seed=%s: grade %s, exit code %d for a generator without failures" % (key, seed, quality, rc))
            if len(failed) == len(rows) and q != 0.0:
                ctx.violation("grade:bad", "%s --seed=%s: grade %s though every test fails" % (key, seed, quality))
            if failed and rc != 1:
                ctx.violation("grade:rc", "%s --seed=%s: exit code %d with failures" % (key, seed, rc))
    ctx.count("distinct_grades", len(seen_grades))


def check(ctx):
    ctx.rule = "distinct by (engine, size, word size[, flaw]) for the statistical part and by (battery, generator) for the end-to-end part"
    drv = vf.build_tests("fast")
    documented(ctx)
    calibrate(ctx, drv)
    detect(ctx, drv)
    exact(ctx)
    ctx.require("calibration_runs", 7000)
    ctx.require("flaw_runs", 800)
    ctx.require("documented_runs", 300)
    ctx.require("documented_failures", 180)
    ctx.assumptions = ["data/results.json: the tests that fail for all (any) of 20 seeds on the reviewed tree, cross-checked with the counts in docs/results.md",
                       "spread of the approximate tests on ideal streams as measured on the reviewed tree; false alarm bounds of 5-6 standard errors"]


if __name__ == "__main__":
    vf.main("C12", check)
