"""Word-exact differential monitor: runs real engines on scripted generators with every drawn word recorded,
then lets an independent reference recompute the result from the recording."""
import concurrent.futures as cf
import multiprocessing as mp
import os
import sys
import threading
import traceback

import vf
import ref


def evaluate(item):
    engine, nbits, trace, opts, res, words = item
    import numpy as np
    try:
        if words is None:
            w = np.fromfile(trace, dtype=np.uint32 if nbits == 32 else np.uint64)
        else:
            w = words
        if len(w) != res["nwords"]:
            return "harness", "trace has %d words, %d counted" % (len(w), res["nwords"]), None
        try:
            r = ref.REF[engine](w, nbits, opts)
        except ref.Short as e:
            return "bad", [("nwords", str(e))], None
        return "ok", ref.compare(res, r), r
    except Exception:
        return "harness", traceback.format_exc()[-1500:], None
    finally:
        if trace:
            try:
                os.unlink(trace)
            except OSError:
                pass


def run(ctx, cases, flavour="plain", timeout=600, on_result=None, background=None):
    """cases: list of EngineCase. Traces are placed in ctx.tmp, evaluated by a process pool and removed."""
    drv = vf.build_tests(flavour)
    for i, c in enumerate(cases):
        c.trace = "%s/t%s_%d" % (ctx.tmp, flavour, i)
    futs = []
    with cf.ProcessPoolExecutor(vf.NCPU, mp_context=mp.get_context("fork")) as ex:
        list(ex.map(abs, range(vf.NCPU)))      # fork the workers before any thread exists
        th = None
        if background:
            th = threading.Thread(target=background)
            th.start()

        def after(c):
            futs.append((c, ex.submit(evaluate, (c.engine, c.nbits, c.trace, c.opts, c.res, None))))

        def on_fail(c):
            ctx.violation("%s:%s:%s" % (c.engine, c.res["fail"], c.res["key"]),
                          "%s on %s: %s %s" % (c.engine, c.key(), c.res["fail"], c.res["err"][-600:]), c.key())
        vf.run_engine_cases(drv, cases, timeout=timeout, after=after, on_fail=on_fail)
        n = 0
        for c, f in futs:
            st, bad, r = f.result()
            if st == "harness":
                raise vf.HarnessError("%s: %s" % (c.key(), bad))
            ctx.count("words_recorded", c.res["nwords"])
            ctx.count("results_recomputed_" + c.engine)
            trivial = r is not None and r["p"] is not None and (r["p"] <= 1e-300 or r["p"] >= 1 - 1e-15)
            ctx.case(c.key(), not trivial)
            if r is not None and r["p"] is not None:
                ctx.count("p_nontrivial" if not trivial else "p_saturated")
            if r is not None and r["p"] is not None:
                a = abs(c.res["p"] + c.res["alpha"] - 1)
                if not a <= 1e-6 and c.engine != "gap":
                    bad = list(bad) + [("complement", "p = %r and its complement %r do not sum to 1" % (c.res["p"], c.res["alpha"]))]
            for f_, msg in bad:
                ctx.violation("%s:%s" % (c.engine, f_), "%s (%s build): %s" % (c.key(), flavour, msg), c.key())
            if on_result:
                on_result(c, r)
            if "-v" in sys.argv:
                print(c.key(), c.res["x"], c.res["p"], c.res["nwords"], "ref", r and (r["x"], r["p"]))
            n += 1
    if th:
        th.join()
    return n


def period_words(kind, k, seed, nbits):
    """one period of the stream kinds N:k and Q:k of the driver"""
    import numpy as np
    w = (np.uint64(seed) + np.arange(1 << k, dtype=np.uint64)) * np.uint64(0x9E3779B97F4A7C15)
    w = (w ^ (w >> np.uint64(32))) * np.uint64(0xd6e8feb86659fd93)
    w ^= w >> np.uint64(29)
    if kind == "Q":
        w |= (w >> np.uint64(1)) | (w << np.uint64(3))
    return w if nbits == 64 else (w & np.uint64(0xFFFFFFFF)).astype(np.uint32)


def _big(a):
    engine, kind, k, seed, nbits, opts = a
    return ref.big(engine, period_words(kind, k, seed, nbits), nbits, opts)


def long_runs(ctx, specs, timeout=800):
    """samples beyond 2^31 / 2^32 elements: specs = [(engine, nbits, kind, log2 of the period, opts)]; returns a function for `background`"""
    drv = vf.build_tests("plain")
    cs = [vf.EngineCase(e, nb, "%s:%d" % (kind, k), ctx.rng.getrandbits(60), o, maxwords=1 << 35) for e, nb, kind, k, o in specs]

    def start():
        vf.run_engine_cases(drv, cs, timeout=timeout)

    def finish():
        with cf.ProcessPoolExecutor(vf.NCPU, mp_context=mp.get_context("fork")) as ex:
            refs = list(ex.map(_big, [(e, kind, k, c.seed, nb, o) for c, (e, nb, kind, k, o) in zip(cs, specs)]))
        for c, r in zip(cs, refs):
            if c.res is None:
                raise vf.HarnessError("no result for " + c.key())
            if "fail" in c.res:
                ctx.violation("%s:%s" % (c.engine, c.res["fail"]), c.key() + str(c.res))
                continue
            for f_, msg in ref.compare(c.res, r):
                ctx.violation("%s:%s" % (c.engine, f_), "%s: %s" % (c.key(), msg), c.key())
            ctx.case(c.key())
            ctx.count("long_runs")
            ctx.count("long_run_words", c.res["nwords"])
            if "-v" in sys.argv:
                print(c.key(), c.res["x"], c.res["p"], r["x"], r["p"])
        ctx.require("long_runs", len(specs))
    return start, finish
