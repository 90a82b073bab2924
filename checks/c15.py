"""C15: custom battery files run exactly the tests they describe."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import batfile
import report
import vf


def main(ctx):
    ctx.rule = "one evaluation = one generated (or shipped) battery file run or listed by the real CLI; distinct by file content and run options"
    ctx.assumptions = ["engines are replaced at link level by recorders of the options they receive; parser, scheduler and report are the real ones"]
    exe, spy = vf.build_mock("fast"), vf.build_spy()
    R = ctx.rng
    jobs = []
    shipped = sorted(os.path.join(d, f) for d, _, fs in os.walk(vf.REPO + "/batscripts") for f in fs if f.endswith(".cfg"))
    for f in shipped:
        data = open(f, "rb").read()
        m = batfile.parse(data)
        if m[0] == "ok":
            jobs += [(data, m[1], m[2], 1, 64, False), (data, m[1], m[2], 3, 32, False), (data, m[1], m[2], 0, 64, True)]
            ctx.count("shipped_files")
    for k in range(ctx.scale(1200, 20000)):
        data, bat, exp = batfile.rnd_file(R, ntests=R.randint(150, 400) if k % 200 == 7 else None)
        m = batfile.parse(data)
        if m != ("ok", bat, exp):
            raise vf.HarnessError("generator and model disagree: %r %r" % (m, data))
        jobs.append((data, bat, exp, R.choice([1, 1, 1, 1, 2, 4]), R.choice([32, 64]), R.random() < 0.15))

    def one(a):
        k, (data, bat, exp, nth, nbits, listing) = a
        f = "%s/b%d.cfg" % (ctx.tmp, k)
        open(f, "wb").write(data)
        args = ["f=" + f] + (["list"] if listing else [spy, "--seed=k%d" % k, "--nthreads=%d" % nth])
        rc, out, err, lg = vf.cli(ctx, exe, args, {"VH_SPY_NBITS": str(nbits)})
        os.unlink(f)
        rp = {"file": data.decode("latin-1"), "args": args}
        ctx.case(vf._sha(data, repr(args[1:])), sample=data.decode("latin-1")[:200] if k % 150 == 0 else None)

        def v(key, msg):
            ctx.violation(key, "%s (%d tests, %s)\n%s" % (msg, len(exp), args[1:], data.decode("latin-1")[:800]), rp)
        if listing:
            rows = re.findall(r"^ +(\d+) (\S+) *$", out, re.M)
            if rc != 0 or [(q[0], q[1]) for q in rows] != [(str(i + 1), e[0]) for i, e in enumerate(exp)] or lg.tests:
                v("list", "the listing is not the file's tests: rc=%r %r" % (rc, rows[:10]))
            if "'%s'" % bat not in out:
                v("batname", "the battery name %r is not listed" % bat)
            ctx.count("listed", len(rows))
            return
        if rc not in (0, 1) or not lg.tests:
            v("refused", "a well-formed file was refused: rc=%r %s" % (rc, err[-300:]))
            return
        got = [(t["eng"], t["opts"]) for t in lg.tests]
        want = [(e, o) for _, e, o in exp]
        ctx.count("engine_calls", len(got))
        for e in set(e for _, e, _ in exp):
            ctx.count("calls_" + e)
        if (got if nth == 1 else sorted(got)) != (want if nth == 1 else sorted(want)):
            d = [(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if g != w][:3] if nth == 1 else [x for x in want if x not in got][:3]
            v("exec", "executed tests differ (%d executed): %r" % (len(got), d))
            return
        r = vf.parse_report(out)
        names = [(q[0], q[1]) for q in r["rows"]]
        if names != [(i + 1, e[0]) for i, e in enumerate(exp)]:
            v("rows", "report rows %r" % (names[:10],))
            return
        for q, e in zip(r["rows"], exp):
            if not any((t["eng"], t["opts"]) == e[1:] for t in report.match_row(q, lg.tests)):
                v("row", "row %r does not show the result of %r" % (q, e))
                return
            ctx.count("rows_matched")
        if "'%s' battery report" % bat not in out:
            v("batname", "the battery name %r is not in the report" % bat)
    vf.pmap(one, list(enumerate(jobs)))
    for t in batfile.SPEC.values():
        ctx.require("calls_" + t[0], 20)
    ctx.require("rows_matched", 3000)
    ctx.require("listed", 100)


vf.main("C15", main)
