"""C17: built-in batteries consist of exactly the documented tests."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import batteries
import report
import vf


def main(ctx):
    ctx.rule = "one evaluation = one run (or listing) of a built-in battery of the real CLI with recorded engines; distinct = (battery, word size, threads, filter, seed)"
    ctx.assumptions = ["the statistical engines are replaced at link level by recorders (their own behaviour is the subject of C05-C12)",
                       "documented tables: docs/tests.md and batscripts; where the docs table disagrees with the script and the program (full bspace21_3d..8_8d: 250 vs 200 samples) the script is taken"]
    exe, spy = vf.build_mock("fast"), vf.build_spy()
    jobs = []
    for bat in batteries.ALL:
        for nbits in (32, 64):
            for nth in ctx.scale([1, 2, 3, 5, 8, 30], [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 33, 50, 64, 128, 255]):
                for flt in ctx.scale([None], [None, "reverse-bits", "interleaved32", "low32", "high32"]):
                    if nbits == 32 and flt not in (None, "reverse-bits"):
                        continue
                    for rep in range(ctx.scale(3, 6)):
                        jobs.append((bat, nbits, nth, flt, rep))
        jobs.append((bat, 64, 0, None, 0))
        jobs.append((bat, 32, 0, None, 0))

    def one(j):
        bat, nbits, nth, flt, rep = j
        exp = batteries.ALL[bat]
        env = {"VH_SPY_NBITS": str(nbits), "VH_DRAW": "8"}
        if nth == 0:
            rc, out, err, lg = vf.cli(ctx, exe, [bat, "list"], env)
            rows = re.findall(r"^ +(\d+) (\S+) *$", out, re.M)
            want = [(str(i + 1), t[0]) for i, t in enumerate(exp)]
            ctx.case(j, sample="%s list -> %d tests" % (bat, len(rows)))
            if rc != 0 or rows != want or lg.tests:
                ctx.violation("list:" + bat, "listing of %s: rc=%r, rows %r, expected %r" % (bat, rc, rows, want), {"args": [bat, "list"]})
            ctx.count("listed", len(rows))
            return
        args = [bat, spy, "--seed=c17-%s-%d" % (bat, ctx.seed * 100 + rep), "--nthreads=%d" % nth] + (["--filter=" + flt] if flt else [])
        rc, out, err, lg = vf.cli(ctx, exe, args, env)
        rp = {"args": args, "env": env}
        ctx.case(j)
        if rc not in (0, 1) or not lg.tests:
            ctx.violation("run:" + bat, "%s did not run: rc=%r %s" % (j, rc, err[-300:]), rp)
            return
        r = vf.parse_report(out)
        got = [(t["eng"], t["opts"]) for t in lg.tests]
        want = [(e, o) for _, e, o in exp]
        ctx.count("engine_calls", len(got))
        if sorted(got) != sorted(want):
            d = ["missing %r" % (x,) for x in want if want.count(x) > got.count(x)] + ["extra %r" % (x,) for x in got if got.count(x) > want.count(x)]
            ctx.violation("tests:" + bat, "%r executed other tests than documented: %s" % (j, sorted(set(d))[:6]), rp)
            return
        if nth == 1 and got != want:
            k = [i for i in range(len(want)) if got[i] != want[i]][0]
            ctx.violation("order:" + bat, "%r test %d executed is %r, documented %r" % (j, k + 1, got[k], want[k]), rp)
        wb = 32 if flt not in (None, "reverse-bits") else nbits
        if any(t["nbits"] != str(wb) for t in lg.tests):
            ctx.violation("nbits:" + bat, "%r tests were given a generator of a wrong word size" % (j,), rp)
        names = [(q[0], q[1]) for q in r["rows"]]
        if names != [(i + 1, t[0]) for i, t in enumerate(exp)]:
            ctx.violation("rows:" + bat, "%r report rows %r" % (j, names), rp)
            return
        for q, t in zip(r["rows"], exp):
            m = report.match_row(q, lg.tests)
            if not any((x["eng"], x["opts"]) == (t[1], t[2]) for x in m):
                ctx.violation("row:" + bat, "%r row %r does not show the result of %r (matches %r)" % (j, q, t, [(x["eng"], x["opts"]) for x in m]), rp)
                return
            ctx.count("rows_matched")
    vf.pmap(one, jobs)
    ctx.require("rows_matched", 500)
    ctx.require("listed", 200)


vf.main("C17", main)
