"""C13: report, verdict, grade and exit code follow from the p-values."""
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import batteries
import report
import vf

nxt, prv = (lambda v: math.nextafter(v, 2)), (lambda v: math.nextafter(v, -1))
EDGE = [0.0, 5e-324, 1e-310, prv(report.DBL_MIN), report.DBL_MIN, 1e-300, 1e-100, 1e-20, 1e-11, prv(1e-10), 1e-10, nxt(1e-10), 1.004e-10, 1e-9, 1e-5,
        9.994e-4, 9.996e-4, prv(1e-3), 1e-3, nxt(1e-3), 1.0004e-3, 0.0015, 0.01, 0.1, 0.5, 0.9, 0.99, 0.9985, 0.9989999, prv(0.999), 0.999, nxt(0.999), 0.9990004, 0.99905, 0.9995,
        1 - 1e-3, nxt(1 - 1e-3), 0.9999, 1 - 1e-6, 1 - 1e-9, prv(1 - 1e-10), 1 - 1e-10, nxt(1 - 1e-10), 1 - 1e-12, prv(1.0), 1.0]
PENALTY = {"nbitwords": 4, "monobit": 4, "gap": 4, "bspace": 3, "collover": 3, "hamming_ot": 2, "hamming_ot_long": 2, "hamming_distr": 2,
           "gap16": 2, "mod3": 2, "sumcoll": 2, "bspacedec": 1, "matrixrank": 0.25, "linearcomp": 0.25}


def grade(rows):
    g = max(0.0, 4.0 - sum(pen for p, pen in rows if report.verdict(p) == "FAIL"))
    t = "good" if g >= 3.999 else "some issues" if g >= 3 else "flawed" if g >= 2 else "bad" if g >= 1 else "very bad"
    return g, t


def judge(ctx, what, rc, out, names, items, brief, threads_of, rp, ids=None):
    """items: (p, alpha, x, penalty) in battery order"""
    r = vf.parse_report(out)
    n = len(items)
    verd = [report.verdict(i[0]) for i in items]
    cnt = {"Passed": verd.count("Ok"), "Suspicious": verd.count("SUSPICIOUS"), "Failed": verd.count("FAIL")}
    ids = ids or list(range(1, n + 1))

    def v(key, msg):
        ctx.violation(key, "%s: %s" % (what, msg), rp)
    for k in cnt:
        if r.get(k) != cnt[k]:
            v("count", "%s: %r, expected %r" % (k, r.get(k), cnt[k]))
    if rc != (1 if cnt["Failed"] else 0):
        v("exit", "exit code %r with %d failed rows" % (rc, cnt["Failed"]))
    want = []
    for i in range(n):
        if not brief or verd[i] != "Ok":
            want.append((ids[i], names[i].strip(), "%g" % items[i][2], report.ptext(items[i][0], items[i][1]), verd[i], threads_of[i] if threads_of else 0))
    if brief and cnt["Passed"] == n:
        if not r["allpassed"] or r["rows"]:
            v("brief", "all tests are Ok: banner %r rows %r" % (r["allpassed"], r["rows"][:3]))
    else:
        if r["allpassed"]:
            v("brief", "'All tests have been passed' printed with %r" % cnt)
        if r["rows"] != want:
            d = [(a, b) for a, b in zip(r["rows"], want) if a != b][:3]
            v("rows", "%d rows, expected %d; first differences (printed, expected): %r" % (len(r["rows"]), len(want), d or [r["rows"][-1:], want[-1:]]))
    g, t = grade([(i[0], i[3]) for i in items])
    if n >= 5:
        exp = ("%.2f" % g, t)
        if r["quality"] != exp:
            v("grade", "quality %r, expected %r" % (r["quality"], exp))
        ctx.count("grades_" + t.replace(" ", "_"))
    ctx.count("rows_checked", len(want))
    for k in cnt:
        ctx.count("verdict_" + k, cnt[k])
    return r


def elapsed(ctx, exe, lib, spy):
    """elapsed time: the conversion for chosen durations, then whole runs under a clock that jumps"""
    R = ctx.rng
    drv = vf.build("vh_hms", "asan", vf.CORE + [vf.HARN + "/vh_hms.c"])
    ns = list(range(0, 200)) + [k * 3600 + d for k in (1, 2, 9, 10, 23, 24, 25, 99, 100, 101, 999, 65535, 65536, 500000) for d in (-1, 0, 1, 59, 60, 61, 3599)]
    ns += [int(10 ** R.uniform(0, 12)) for _ in range(ctx.scale(1500, 20000))]
    rc, out, err = vf.run([drv], input=("\n".join(map(str, ns)) + "\n").encode())
    got = out.decode("utf-8", "replace").split("\n")[:-1]
    if rc != 0 or len(got) != len(ns):
        ctx.violation("elapsed", "the elapsed time driver: rc=%r, %d of %d lines: %s" % (rc, len(got), len(ns), err[-300:]), {"n": len(ns)})
    for n, g in zip(ns, got):
        h, m, s = n // 3600, n // 60 % 60, n % 60
        want = "%d %d %d %d %02d:%02d:%02d" % (n, h, m, s, h, m, s)
        ctx.count("elapsed_values")
        ctx.case(("hms", n))
        if g != want:
            ctx.violation("elapsed", "%d seconds are shown as %r, expected %r" % (n, g, want), {"seconds": n})
            break
    clock = vf.build("fakeclock", "plain", [vf.HARN + "/fakeclock.c"], shared=True)
    for k, jump in enumerate([0, 1000, 3661, 7322, 59 * 60 + 50, 86400, 360000, 100 * 3600] + [R.randrange(100, 400000) for _ in range(ctx.scale(12, 60))]):
        f, lg = "%s/ck%d" % (ctx.tmp, k), "%s/cklog%d" % (ctx.tmp, k)
        with open(f, "w") as h:
            for i in range(1 + k % 7):
                h.write("t%d|%s|%s|%s|%s\n" % (i, (0.5).hex(), (0.5).hex(), (0.1).hex(), (1.0).hex()))
        rc, out, err, _ = vf.cli(ctx, exe, ["s=" + lib, spy, "--seed=k%d" % k, "--nthreads=%d" % (1 + k % 3)],
                                 {"VH_RES": f, "LD_PRELOAD": clock, "VH_CLOCKJUMP": str(jump), "VH_CLOCKLOG": lg})
        calls = sum(int(q) for q in open(lg).read().split()) if os.path.exists(lg) else 0
        m = re.search(r"^Elapsed time: +(\d\d+):([0-5]\d):([0-5]\d)$", out, re.M)
        ctx.case(("clock", k, jump))
        rp = {"jump": jump, "file": f, "printed": re.findall(r"Elapsed.*", out)[:2]}
        if not m:
            ctx.violation("elapsed", "no hh:mm:ss elapsed time in the report (rc=%r): %r" % (rc, rp["printed"]), rp)
            continue
        if calls < 2:
            continue    # the program does not take its time from time(): nothing to compare
        ctx.count("elapsed_runs")
        v = int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3))
        if not any(0 <= v - q * jump <= 20 for q in range(1, calls)):
            ctx.violation("elapsed", "the clock jumped by %d s at each of %d readings, elapsed time printed: %s" % (jump, calls, m.group(0)), rp)


def main(ctx):
    ctx.rule = "one evaluation = one battery run through the real scheduler and report; distinct = (p-value vector, report type, threads, selection)"
    ctx.assumptions = ["engine-defined p-values are replaced by prescribed ones through a battery library (s=FILE); engines' penalties are observed on the real engines",
                       "documented penalties and grade borders: docs/technotes.md; verdict borders 1e-10 and 1e-3 of the report"]
    exe, spy = vf.build_cli("fast"), vf.build_spy()
    lib = vf.build("batlib", "fast", [vf.HARN + "/vh_batlib.c"], shared=True)
    R = ctx.rng

    def vec(n):
        kind = R.randrange(7)
        res = []
        for i in range(n):
            if kind == 0:
                p = R.choice(EDGE)
            elif kind == 1:
                p = R.random()
            elif kind == 2:
                p = R.choice([R.random(), 0.5, 10 ** -R.uniform(0, 14)])
            elif kind == 3:
                p = 0.5 if i != n // 2 else R.choice(EDGE)
            elif kind == 4:
                p = R.uniform(1.1e-3, 0.998)
            elif kind == 5:
                p = R.choice([1e-4, 0.9995, 0.3])
            else:
                p = R.choice([10 ** -R.uniform(0, 320), 1 - 10 ** -R.uniform(0, 16)])
            a = R.choice([None, None, 10 ** -R.uniform(3, 300), 0.0]) if p > 0.999 else None
            alpha = 1 - p if a is None else a
            x = R.choice([R.gauss(0, 100), R.randint(-5, 10 ** 7), 0.0, 1e-30, 1.23456789e18, R.random(), -R.random() * 1e-5, float("inf") if R.random() < 0.1 else 1.0])
            pen = R.choice([4, 3, 2, 1, 0.25, 0.25, 0, 0.125, 0.5, 0.0009765625, 0.00390625])
            res.append((p, alpha, x, pen))
        return res

    jobs = []
    for k in range(ctx.scale(500, 6000)):
        n = R.choice([1, 2, 3, 4, 5, 6, 7, 10, 25, 42, 46, R.randint(1, 120), 250 if k % 10 == 0 else 5, 1100 if k % 60 == 0 else 4])
        jobs.append((k, n, vec(n), R.choice([True, False]), R.choice([1, 1, 1, 2, 3, 8]), R.choice(["64", "32"]), R.randrange(4) == 0, R.getrandbits(30)))

    def one(j):
        k, n, items, brief, nth, nb, select, rs = j
        f = "%s/res%d" % (ctx.tmp, k)
        names = [("%s_%d" % ("abc_test_name"[: 1 + (rs + i) % 13], i)) + ("_with_a_long_name_of_a_test" if (rs + i) % 17 == 0 else "") for i in range(n)]
        with open(f, "w") as h:
            for nm, it in zip(names, items):
                h.write("|".join([nm] + [q.hex() for q in map(float, it)]) + "\n")
        env = {"VH_RES": f, "VH_SPY_NBITS": nb, "VH_BATNAME": "syn%d" % k, "VH_SPY_NAME": "Gen-%d" % rs}
        if nth > 1:
            env["VH_RESDELAY"] = "200"
        args = ["s=" + lib, spy, "--seed=s%d" % rs, "--nthreads=%d" % nth] + (["--report-brief"] if brief else [])
        ids, sub, nm = None, items, names
        if select:
            q = rs % n
            args.append("--testid=%d" % (q + 1) if rs & 1024 else "--testname=%s" % names[q])
            ids, sub, nm = [q + 1], [items[q]], [names[q]]
        rc, out, err, lg = vf.cli(ctx, exe, args, env)
        os.unlink(f)
        ctx.case((k, rs), sample="%d tests %s threads=%d first p=%r" % (n, "brief" if brief else "full", nth, items[0][0]) if k % 60 == 0 else None)
        th = None
        exp = [int(t["idx"]) for t in lg.tests]
        if sorted(exp) != (ids and [ids[0] - 1] or list(range(n))):
            ctx.violation("exec", "%d tests, executed %r" % (n, exp[:50]), {"args": args})
            return
        if nth > 1 and not select:
            th = [None] * n
            for t in lg.tests:
                th[int(t["idx"])] = int(t["ord"])
        what = "battery of %d tests (%s, %d threads%s)" % (n, "brief" if brief else "full", nth, ", one selected" if select else "")
        rp = {"args": args, "items": [(a, i[0].hex(), i[1].hex(), i[2], i[3]) for a, i in zip(names, items)][:60]}
        judge(ctx, what, rc, out, nm, sub, brief, th, rp, ids)
        title = "'syn%d' battery " % k
        if title not in out or "Generator name:    Gen-%d\n" % rs not in out or "Output size, bits: %s\n" % nb not in out:
            ctx.violation("header", what + ": the report header does not name the battery, the generator or its word size", rp)
        if ("Seeds logger report" in out) == brief:
            ctx.violation("seedlog", what + ": seeds log printed=%r" % ("Seeds logger report" in out), rp)
    vf.pmap(one, jobs)

    # penalties of the real engines are the documented ones, whatever the verdict
    drv = vf.build_tests("fast")
    cases = []
    small = dict(monobit=[5000], nbitwords=[4, 8, 64], bspace=[8, 2, 3, 1], bspacedec=[1], collover=[8, 2, 1, 2000, 1], gap=[3, 10000], sumcoll=[100000], mod3=[100000],
                 hamming_ot_long=[65536, 128], hamming_distr=[65536, 3])
    for g, s in (("i", 5), ("c", 0), ("n:1", 3), ("c", 0x5555555555555555)):
        for nb in (32, 64):
            for eng, o in small.items():
                cases.append(vf.EngineCase(eng, nb, g, s, o))
            for m in (0, 1, 2, 3):
                cases.append(vf.EngineCase("hamming_ot", nb, g, s, [65536, m]))
            for b in (0, -1, -2):
                cases.append(vf.EngineCase("linearcomp", nb, g, s, [500, b]))
            for b in (8, 32, 64):
                cases.append(vf.EngineCase("matrixrank", nb, g, s, [256, b]))
            cases += [vf.EngineCase("nbitwords", nb, g, s, [8, 256, 64]), vf.EngineCase("nbitwords", nb, g, s, [16, 32, 16])]
    cases.append(vf.EngineCase("gap16", 64, "c", 0x0101010101010101, [10000000]))
    cases.append(vf.EngineCase("gap16", 32, "i", 3, [10000000]))

    def after(c):
        ctx.count("engine_penalties")
        ctx.case((c.engine, c.nbits, c.gen, c.seed, c.opts))
        w = PENALTY[c.engine]
        if c.res["penalty"] != w:
            ctx.violation("penalty:" + c.engine, "%s (p=%r) carries penalty %r, documented %r" % (c.key(), c.res["p"], c.res["penalty"], w), {"case": c.key()})
    vf.run_engine_cases(drv, cases, after=after)
    # the real express battery on flawed generators: grade from the documented penalties
    for env, nb in (({"VH_SPY_CONST": "0"}, 64), ({"VH_SPY_CONST": "123456789"}, 32), ({"VH_SPY_CYCLE": "1000"}, 64), ({"VH_SPY_CYCLE": "65536"}, 32), ({}, 64)):
        rc, out, err, lg = vf.cli(ctx, exe, ["express", spy, "--seed=q", "--nthreads=2"], dict(env, VH_SPY_NBITS=str(nb)), timeout=300)
        r = vf.parse_report(out)
        ctx.case(("express", nb, repr(env)))
        fails = [q[1] for q in r["rows"] if q[4] == "FAIL"]
        pen = sum(PENALTY[e] for nm, e, o in batteries.EXPRESS if nm in fails)
        g, t = grade([(0.0, pen)])
        if len(r["rows"]) != 7 or r["quality"] != ("%.2f" % g, t) or rc != (1 if fails else 0):
            ctx.violation("express", "express on %r: rows %r quality %r exit %r; expected grade %.2f" % (env, r["rows"], r["quality"], rc, g), {"env": env})
        ctx.count("real_batteries")
    elapsed(ctx, exe, lib, spy)
    for k, m in (("elapsed_values", 500), ("rows_checked", 2000), ("verdict_Failed", 300), ("verdict_Suspicious", 300), ("engine_penalties", 80), ("grades_flawed", 3), ("grades_some_issues", 5),
                 ("grades_good", 10), ("grades_very_bad", 20)):
        ctx.require(k, m)


vf.main("C13", main)
