"""C30: the compact battery sr_tiny reports the documented tests of its built-in generators for every start time."""
import os
import re
import sys

import numpy as np

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import ref
import vf

GENS = "alfib lcg32 lcg64 mwc1616 mwc1616x xorshift32 xorwow".split()
# failures documented at the head of apps/sr_tiny.c
DOC = {"alfib": 2, "lcg32": 6, "lcg64": 1, "mwc1616": 1, "mwc1616x": 0, "xorshift32": 2, "xorwow": 2}
NAMES = ["bspace32_1d", "bspace8_4d", "bspace4_8d", "bspace4_8d_dec", "bytefreq", "linearcomp:31", "linearcomp:0"]
N, NS, NBITS = 4096, 1024, 10000


def ndups(rows):
    s = np.sort(np.diff(np.sort(rows, axis=1), axis=1), axis=1)
    return int((np.diff(s, axis=1) == 0).sum())


def expected(words):
    """(x, p, alpha) of the seven tests for the generator's words"""
    w = words[: N * NS]
    low = (w & 15).astype(np.uint64)

    def tup(v, k, b):
        v = v.reshape(-1, k).astype(np.uint64)
        out = np.zeros(len(v), np.uint64)
        for j in range(k):
            out = (out << np.uint64(b)) | v[:, j]
        return out.reshape(-1, N).astype(np.int64)
    mu = NS * 4.0
    res = []
    for x, m in ((ndups(w.reshape(NS, N).astype(np.int64)), mu), (ndups(tup(w & 255, 4, 8)), mu / 4), (ndups(tup(low, 8, 4)), mu / 8),
                 (ndups(tup(low[::64][: 8 * N], 8, 4)), 4.0)):
        res.append((x, float(ref.poisson_p(x, m)), float(ref.poisson_cdf(x, m))))
    O = np.bincount(w.view(np.uint8), minlength=256).astype(float)
    E = O.sum() / 256
    x = float(((O - E) ** 2 / E).sum())
    res.append((x, float(ref.chi2_sf(x, 255)), float(ref.chi2_cdf(x, 255))))
    pos = N * NS
    for bit in (31, 0):
        L = ref.bm(((words[pos: pos + NBITS] >> np.uint32(bit)) & 1).tolist())
        pos += NBITS
        T = L - NBITS // 2
        F = 1 - 2.0 ** max(-1070, -2 * T + 2) / 3 if T > 0 else 2.0 ** max(-1070, 2 * T + 1) / 3
        Fc = 2.0 ** max(-1070, -2 * T + 2) / 3 if T > 0 else 1 - 2.0 ** max(-1070, 2 * T + 1) / 3
        res.append((T, F, Fc))
    return res


def texts(p, a):
    """the printed forms the p-value may take, allowing for the precision of the special functions"""
    out = set()
    for f in (1 - 2e-6, 1, 1 + 2e-6):
        for q, c in ((p * f, a), (p, a * f)):
            q = min(q, 1.0)
            if q < 1e-307:
                out |= {"0", "%.2e" % q}
            if q < 1e-3:
                out.add("%.2e" % q)
            if 0.00099999 <= q <= 0.999001:
                out.add("%.3f" % q)
            if q > 0.9989999:
                out |= {"1 - %.2e" % c, "1 - %.2e" % (1 - q)} if c > 1e-13 else {"1 - %.2e" % c}
                if c < 1e-307:
                    out.add("1")
    return out


def check(ctx):
    ctx.rule = "one evaluation = one run of sr_tiny under a fixed clock; distinct = (generator, start time, build)"
    R = ctx.rng
    srcs = [vf.REPO + "/apps/sr_tiny.c", "specfuncs", vf.HARN + "/fixclock.c"]
    exes = {"plain": vf.build("sr_tiny", "plain", srcs), "asan": vf.build("sr_tiny", "asan", srcs)}
    c89 = vf.build("sr_tiny89", "fast", srcs, extra_flags=["-std=gnu90", "-funsigned-char"])
    exes["gnu90"] = c89
    if not ctx.quick:
        exes["msan"] = vf.build("sr_tiny", "msan", srcs, cc="clang")
    rf = vf.build("tinyref", "plain", [vf.HARN + "/vh_tinyref.c"])
    edge = [0, 1, 2, 65535, 65536, 65537, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFF0000, 0x100000000 + 77, 1700000000, 0xFFFE0000, 618 * 65536 + 5]
    jobs = []
    for g in GENS:
        ts = R.sample(edge, 3 if ctx.quick else len(edge)) + [R.getrandbits(32) for _ in range(ctx.scale(4, 40))]
        for k, t in enumerate(ts):
            fl = ("plain", "asan", "gnu90", "plain")[k % 4] if ctx.quick else list(exes)[k % len(exes)]
            jobs.append((g, t, fl, R.choice([100, 1000, 61234567, 500000, 3599999000, 359999999999, 86400000000 + 1234567, R.randrange(10 ** 9)])))

    def one(j):
        g, t, fl, step = j
        what = "sr_tiny %s started at time %d (%s build)" % (g, t, fl)
        rc, out, err = vf.run([exes[fl], g], timeout=300, env={"VH_TIME": str(t), "VH_CLKSTEP": str(step)})
        out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
        rp = {"generator": g, "time": t, "build": fl, "cmd": "VH_TIME=%d sr_tiny %s" % (t, g)}
        ctx.case((g, t, fl), sample=what if t % 7 == 0 else None)
        if rc != 0 or err.strip():
            ctx.violation("crash", "%s: exit %r, stderr %s" % (what, rc, err[-400:]), rp)
            return
        words = np.frombuffer(vf.run([rf, g, str(t & 0xFFFFFFFF), str(N * NS + 2 * NBITS)])[1], "<u4")
        exp = expected(words)
        rows = re.findall(r"(?m)^ +(\d+) (\S+) +(\S+) +(\S.*?)\s*$", out[out.rfind("Test name"):])
        if [(int(r[0]), r[1]) for r in rows] != list(enumerate(NAMES, 1)):
            ctx.violation("table", "%s: rows of the table %r, expected %r" % (what, [r[:2] for r in rows], NAMES), rp)
            return
        nfail = 0
        for (num, name, x, ptxt), (ex, p, a) in zip(rows, exp):
            ctx.count("rows_checked")
            if x != "%g" % ex and abs(float(x) - ex) > 1.5e-6 * abs(ex):
                ctx.violation("x:" + name, "%s: %s statistic %s, exact value %r" % (what, name, x, ex), rp)
            if ptxt not in texts(p, a):
                ctx.violation("p:" + name, "%s: %s p-value %r, exact p=%.17g 1-p=%.17g" % (what, name, ptxt, p, a), rp)
            nfail += min(p, a) < 1e-9
            ctx.count("tail_low" if p < 1e-3 else "tail_high" if p > 0.999 else "body")
            # the progress line repeats the same numbers
            m = re.search(r"(?m)^  %s: x = (\S+), p = (\S+)$" % re.escape(name), out)
            if num in "12345" and (not m or m.group(1) != x or not ref.close_p(float(m.group(2)), p, tol=1e-5)):
                ctx.violation("line:" + name, "%s: progress line of %s %r, exact x=%r p=%r" % (what, name, m and m.groups(), ex, p), rp)
        m = re.findall(r"(?m)^  L = (\S+); T = (\S+); p = (\S+); 1 - p = (\S+)$", out)
        if len(m) == 2:
            for q, (T, p, a) in zip(m, exp[5:]):
                if float(q[0]) != T + NBITS // 2 or float(q[1]) != T or not ref.close_p(float(q[2]), p, tol=1e-5) or not ref.close_p(float(q[3]), a, tol=1e-5):
                    ctx.violation("lc", "%s: linear complexity line %r, exact L=%d p=%r" % (what, q, T + NBITS // 2, p), rp)
        if nfail != DOC[g]:
            ctx.count("documented_failures_differ_" + g)
        else:
            ctx.count("documented_failures_" + g)
        e = re.search(r"(?m)time: (\d+):(\d\d):(\d\d)\.(\d{3})$", out)
        ms = step // 1000
        if not e or abs((int(e[1]) * 3600 + int(e[2]) * 60 + int(e[3])) * 1000 + int(e[4]) - ms) > 1 or int(e[2]) > 59 or int(e[3]) > 59:
            ctx.violation("elapsed", "%s: the clock advanced by %d ms, printed %r" % (what, ms, e and e[0]), rp)
    vf.pmap(one, jobs)

    # speed mode: with a clock that advances by a fixed step the figure follows from the amount of work
    for g in GENS:
        for step in (130000, 600000, 2000000, 7000000, 300000000) if g in ("lcg32", "xorwow") or not ctx.quick else (2000000, 7000000):
            rc, out, err = vf.run([exes["plain"], g, "speed"], env={"VH_TIME": "5", "VH_CLKSTEP": str(step)})
            m = re.search(rb"speed: (\S+) (KiB|MiB)/sec", out)
            ctx.case((g, "speed", step))
            k = -(-2000000 // step)               # blocks are doubled until two seconds have passed
            kib = (2 ** (k + 1) - 2) * 64.0 / (k * step * 1e-6)
            want = ("%g" % kib, b"KiB") if kib < 1000 else ("%g" % (kib / 1024), b"MiB")
            ctx.count("speed_runs")
            if rc != 0 or not m or m.group(2) != want[1] or abs(float(m.group(1)) - float(want[0])) > 2e-5 * float(want[0]):
                ctx.violation("speed", "sr_tiny %s speed with a clock step of %d us: exit %r, %r; expected %r" % (g, step, rc, m and m.group(0), want), {"generator": g, "step": step})
    # command line
    for args, ok in (([], True), (["nosuch"], False), ([""], False), (["LCG32"], False), (["lcg"], False), (["lcg640", "speed"], False), (["x" * 5000], False)):
        for fl in ("plain", "asan"):
            rc, out, err = vf.run([exes[fl]] + args, env={"VH_CLKSTEP": "2000000"})
            ctx.case(("cli", tuple(a[:20] for a in args), fl))
            if (rc == 0) != ok or rc is None or rc < 0 or rc > 1 or not (out if ok else err).strip() or b"Sanitizer" in err:
                ctx.violation("cli", "sr_tiny %r: exit %r, stderr %r" % ([a[:20] for a in args], rc, err[-200:]), {"args": args})
    ctx.require("rows_checked", 7 * len(jobs) // 2)


vf.main("C30", check)
