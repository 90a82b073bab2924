"""C02: parallel batteries run each test exactly once without data races."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import batfile
import batteries
import report
import smallbat
import vf


def conserve(ctx, what, lg, out, exp, nth, rp, lib=False):
    """every test exactly once, on one thread and one live instance; rows show the results of their own tests"""
    def v(key, msg):
        ctx.violation(key, "%s: %s" % (what, msg), rp)
    if lg.bad:
        v("instance", "generator instance misuse: %s" % lg.bad[:3])
    key = (lambda t: t["idx"]) if lib else (lambda t: (t["eng"], t["opts"]))
    want = [str(i) for i in range(len(exp))] if lib else [(e, o) for _, e, o in exp]
    got = [key(t) for t in lg.tests]
    if sorted(got) != sorted(want):
        d = ["missing %r" % (q,) for q in set(want) if want.count(q) > got.count(q)] + ["executed %d times instead of %d: %r" % (got.count(q), want.count(q), q) for q in set(got) if got.count(q) > want.count(q)]
        v("once", "tests executed differ from tests described: %s" % d[:4])
        return
    ctx.count("tests_executed", len(got))
    by_state, by_tid = {}, {}
    for t in lg.tests:
        by_state.setdefault(t["state"], set()).add(t["tid"])
        by_tid.setdefault(t["tid"], set()).add(t["ord"])
    if any(len(s) > 1 for s in by_state.values()):
        v("shared", "a generator instance was used by several threads: %r" % {k: sorted(s) for k, s in by_state.items() if len(s) > 1})
    if any(len(s) > 1 for s in by_tid.values()):
        v("ord", "a thread changed its number: %r" % by_tid)
    ords = [next(iter(s)) for s in by_tid.values()]
    if len(set(ords)) != len(ords) or any(not 1 <= int(o) <= nth for o in ords):
        v("ord", "threads numbers %r are not distinct numbers of 1..%d" % (ords, nth))
    ctx.maxc("threads_seen", len(by_tid))
    # each instance: no overlap of two tests on it
    if not lib:
        open_ = {}
        ev = sorted([(t["n"], "B", t) for t in lg.begins] + [(t["n"], "T", t) for t in lg.tests], key=lambda q: q[0])
        for n, k, t in ev:
            if k == "B":
                if t["state"] in open_:
                    v("overlap", "two tests ran at the same time on one instance")
                    return
                open_[t["state"]] = t["tid"]
            else:
                open_.pop(t["state"], None)
    live, maxl = 0, 0
    for n, d in sorted([(c["n"], 1) for c in lg.creates] + [(c["n"], -1) for c in lg.frees]):
        live += d
        maxl = max(maxl, live)
    fr = [c["id"] for c in lg.frees]
    if live != 0 or len(set(fr)) != len(fr):
        v("lifetime", "%d instances created, %d destroyed" % (len(lg.creates), len(lg.frees)))
    ctx.maxc("live_instances", maxl)
    r = vf.parse_report(out)
    if [q[0] for q in r["rows"]] != list(range(1, len(exp) + 1)) or len(r["rows"]) != len(exp):
        v("rows", "report has rows %r for %d tests" % ([q[0] for q in r["rows"]][:80], len(exp)))
        return
    for q, e in zip(r["rows"], exp):
        if lib:
            t = [t for t in lg.tests if t["idx"] == str(q[0] - 1)]
            ok = q[1] == e[0] and q[2] == "%g" % e[3] and q[3] == report.ptext(e[1], e[2])
        else:
            m = report.match_row(q, lg.tests)
            t = [t for t in m if (t["eng"], t["opts"]) == (e[1], e[2]) and t["ord"] == str(q[5])]
            ok = q[1] == e[0].strip() and bool(t)
        if not ok or q[5] != int(t[0]["ord"]):
            v("row", "row %r does not show the result of test %r run by thread %s" % (q, e, [x["ord"] for x in t]))
            return
        ctx.count("rows_matched")


def main(ctx):
    ctx.rule = "one evaluation = one multi-threaded battery run of the real program under ThreadSanitizer or with an event log; distinct = (battery, threads, schedule perturbation, observed completion order)"
    ctx.assumptions = ["POSIX threads back end; ThreadSanitizer judges executed interleavings only, perturbed by random delays around lock, unlock, thread start/exit, inside tests and generators"]
    mock, spy, lib = vf.build_mock("fast"), vf.build_spy(), vf.build_batlib()
    tmock, treal, tspy, tlib = vf.build_mock("tsan"), vf.build_real("tsan"), vf.build_spy("tsan"), vf.build_batlib("tsan")
    names = [g for g in ("xoroshiro128pp", "chacha", "mt19937", "lcg64", "xorwow", "hc256", "aesni", "sezgin63", "ranlux_plusplus", "philox") if g in vf.gen_names()]
    tgens = vf.build_gens(names, "tsan")
    R = ctx.rng
    jobs = []
    for k in range(ctx.scale(260, 2500)):
        kind = R.choice(["builtin", "file", "file", "lib", "lib", "special"])
        nth = R.choice([2, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 24, 33, 64, 100, 255])
        ts = k % 3 != 0 and (nth <= 33 or k % 9 == 1)
        env = {"VH_SPY_NBITS": R.choice(["32", "64"]), "VH_DRAW": R.choice(["0", "4", "12"]), "VH_PMODE": R.choice(["words", "mix"]), "VH_SPY_SEEDS": R.choice(["64", "32", "64,32"]),
               "VH_DELAY": "%d:%d" % (R.getrandbits(30), R.choice([20, 200, 1500] if nth < 60 else [20, 200]))}
        if k % 20 == 0:
            del env["VH_DELAY"]
        if env["VH_DRAW"] == "0":
            env["VH_DRAW"] = "6"
        args = ["--seed=c02-%d-%d" % (ctx.seed, k)]
        if kind == "builtin":
            bat = R.choice(["express", "brief", "default", "full"])
            exp = batteries.ALL[bat]
        elif kind == "special":
            bat = R.choice(["ising", "unitsphere"])
            exp = None
        elif kind == "file":
            bat = "f=%s/f%d.cfg" % (ctx.tmp, k)
            data, b, exp = batfile.rnd_file(R, R.choice([1, 2, 3, nth - 1, nth, nth + 1, 2 * nth, 45, 150]) or 1)
            open(bat[2:], "wb").write(data)
        else:
            bat = "s="
            n = R.choice([1, 2, nth - 1, nth, nth + 1, 3 * nth + 1, 60, 200])
            exp = [("t%d" % i, R.choice([R.random(), 1e-20, 0.5]), 0.5, i * 1.0 + 0.25, 1) for i in range(n)]
            exp = [(a, p, 1 - p, x, q) for a, p, _, x, q in exp]
            env["VH_RES"] = "%s/r%d" % (ctx.tmp, k)
            env["VH_RESDELAY"] = str(R.choice([50, 1000]))
            if ts and R.random() < 0.5:
                env["VH_SEEDDRAW"] = str(R.choice([3, 20]))
            vf.write_res(env["VH_RES"], exp)
        jobs.append((k, kind, ts, bat, args, env, nth, exp))

    def one(j):
        k, kind, ts, bat, args, env, nth, exp = j
        if bat == "s=":
            bat = "s=" + (tlib if ts else lib)
        exe = tmock if ts else mock
        cmd = [bat, tspy if ts else spy, "--nthreads=%d" % nth] + args
        rp = {"args": cmd, "env": env}
        what = "%s battery, %s threads%s" % (kind, nth, " (TSan)" if ts else "")
        rc, out, err, lg = vf.cli(ctx, exe, cmd, env, timeout=120)
        order = tuple((t["ord"], t.get("opts") or t.get("idx")) for t in lg.tests)
        ctx.case((k, vf.hash_int(order)), sample="%s %d tests executed" % (what, len(lg.tests)) if k % 40 == 0 else None)
        if "ThreadSanitizer" in err:
            ctx.violation(vf.san_key(err), "%s: %s" % (what, err[err.find("WARNING: ThreadS"):][:1400]), rp)
            return
        if rc not in (0, 1):
            ctx.violation("end", "%s: run ended with %s: %s" % (what, "a timeout" if rc is None else rc, err[-600:]), rp)
            return
        ctx.count("tsan_runs" if ts else "plain_runs")
        ctx.count("distinct_orders", 1)
        if exp is None:
            exp = sorted(set((t["eng"], t["opts"]) for t in lg.tests))
            if len(exp) != len(lg.tests) or len(exp) != (2 if bat == "ising" else 8):
                ctx.violation("once", "%s: %d tests executed, %d different" % (what, len(lg.tests), len(exp)), rp)
            if lg.bad or len(lg.creates) != len(lg.frees):
                ctx.violation("instance", "%s: %s, %d created, %d destroyed" % (what, lg.bad[:2], len(lg.creates), len(lg.frees)), rp)
            return
        conserve(ctx, what, lg, out, exp, nth, rp, kind == "lib")
    vf.pmap(one, jobs, 10)

    # the real engines and real generators in parallel under ThreadSanitizer
    rj = []
    for k in range(ctx.scale(14, 90)):
        nth = R.choice([2, 3, 4, 8, 16])
        f = "%s/real%d.cfg" % (ctx.tmp, k)
        txt, tn = smallbat.text(R, R.choice([nth * 2, 24, 30]), skip=("dec",) if k % 7 else ())
        open(f, "w").write(txt)
        g = tspy if k % 2 else tgens[names[(k // 2 + ctx.seed) % len(names)]]
        rj.append((k, ["f=" + f, g, "--seed=r%d-%d" % (ctx.seed, k), "--nthreads=%d" % nth], {"VH_SPY_NBITS": R.choice(["32", "64"]), "VH_DELAY": "%d:200" % R.getrandbits(30)}, tn))

    def real(j):
        k, args, env, tn = j
        rc, out, err, lg = vf.cli(ctx, treal, args, env, timeout=400)
        rp = {"args": args, "env": env, "file": open(args[0][2:]).read()}
        ctx.case(("real", k, vf.hash_int(args[1:])), sample="real engines %s" % " ".join(map(os.path.basename, args)) if k % 7 == 0 else None)
        if "ThreadSanitizer" in err:
            ctx.violation(vf.san_key(err), "real engines, %r: %s" % (args[1:], err[err.find("WARNING: ThreadS"):][:1400]), rp)
        elif rc not in (0, 1):
            ctx.violation("end", "real engines %r ended with %s: %s" % (args[1:], rc, err[-600:]), rp)
        else:
            r = vf.parse_report(out)
            if [q[1] for q in r["rows"]] != tn:
                ctx.violation("rows", "real engines %r: rows %r for tests %r" % (args[1:], [q[1] for q in r["rows"]], tn), rp)
            if lg.bad or len(lg.creates) != len(lg.frees):
                ctx.violation("instance", "real engines %r: %s" % (args, lg.bad[:3]), rp)
            ctx.count("tsan_real_engine_tests", len(tn))
    vf.pmap(real, rj, 4)
    for k, m in (("rows_matched", 3000), ("tsan_runs", 80), ("plain_runs", 50), ("tsan_real_engine_tests", 150), ("threads_seen", 33)):
        ctx.require(k, m)


vf.main("C02", main)
