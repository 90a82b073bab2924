"""C14: selecting tests by number or name runs exactly the requested tests."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
import vf

CUSTOM = """battery name=sel end
alpha test=monobit_freq nvalues=2000 end
beta test=gap shl=3 ngaps=20000 end
alpha test=monobit_freq nvalues=3000 end
a test=mod3 nvalues=100000 end
ALPHA test=mod3 nvalues=200000 end
alphabet test=gap16_count0 ngaps=20000000 end
t_1 test=linearcomp nbits=1000 bitpos=low end
1 test=linearcomp nbits=1000 bitpos=high end
"""


def main(ctx):
    ctx.rule = "one evaluation = one run of the real CLI with a selection; distinct = (battery, selection, word size, threads, stream kind)"
    ctx.assumptions = ["engines are replaced by recorders whose result is a function of the words they draw; a constant or a seeded stream is supplied by a spy generator"]
    exe, spy = vf.build_mock("fast"), vf.build_spy()
    cf = ctx.tmp + "/custom.cfg"
    open(cf, "w").write(CUSTOM)
    one_t = ctx.tmp + "/one.cfg"
    open(one_t, "w").write("battery name=o end\nsole test=mod3 nvalues=123456 end\n")
    bats = ["express", "brief", "default", "full", "ising", "unitsphere", "f=" + cf, "f=" + one_t]
    streams = [("seeded", {}), ("const", {"VH_SPY_CONST": "123456789abcdef"})]

    def base(bat, nbits, sname, senv):
        env = dict(senv, VH_SPY_NBITS=str(nbits), VH_DRAW="6")
        rc, out, err, lg = vf.cli(ctx, exe, [bat, spy, "--seed=c14-%d" % ctx.seed], env)
        r = vf.parse_report(out)
        if rc not in (0, 1) or not r["rows"] or len(r["rows"]) != len(lg.tests):
            ctx.violation("full:" + bat.split("/")[0], "the full run of %s failed: rc=%r rows=%d executed=%d %s" % (
                bat, rc, len(r["rows"]), len(lg.tests), err[-300:]), {"args": [bat]})
            return None
        return r["rows"], lg.tests, env

    jobs = []
    for bat in bats:
        for nbits in (32, 64):
            for sname, senv in streams:
                b = base(bat, nbits, sname, senv)
                if b is None:
                    continue
                rows, tests, env = b
                ctx.case((bat, nbits, sname, "all"))
                n = len(rows)
                sel = [("id", str(i)) for i in range(1, n + 1)] + [("name", q[1]) for q in rows]
                bad = [("id", str(n + 1)), ("id", str(n + 2)), ("id", str(n * 10 + 7)), ("id", "2147483647"), ("id", "65536"), ("id", "257"),
                       ("name", rows[0][1][:-1] + "~"), ("name", rows[-1][1] + "_"), ("name", rows[0][1].upper() + "x"), ("name", "nosuchtest"), ("name", " "),
                       ("name", rows[0][1].swapcase() + "."), ("name", rows[0][1] + " "), ("name", ""), ("name", "all")]
                short = rows[-1][1][:max(1, len(rows[-1][1]) - 2)]
                if short not in [q[1] for q in rows]:
                    bad.append(("name", short))
                if ctx.quick and n > 10:
                    sel = ctx.rng.sample(sel, min(len(sel), 30)) + [("id", "1"), ("id", str(n)), ("name", rows[0][1]), ("name", rows[-1][1])]
                    bad = bad[:2] + ctx.rng.sample(bad[2:], 5)
                for s in sel:
                    for nth in ([1] if ctx.quick and ctx.rng.random() < 0.7 else [1, 2, 5]):
                        jobs.append((bat, nbits, sname, s, nth, rows, tests, env, True))
                for s in bad:
                    for nth in (1, 3):
                        jobs.append((bat, nbits, sname, s, nth, rows, tests, env, False))

    def one(j):
        bat, nbits, sname, s, nth, rows, tests, env, good = j
        args = [bat, spy, "--seed=c14-%d" % ctx.seed, "--test%s=%s" % s, "--nthreads=%d" % nth]
        if vf.hash_int((bat, s)) % 5 == 0:
            args[2:] = args[2:][::-1]
        rc, out, err, lg = vf.cli(ctx, exe, args, env)
        rp = {"args": args, "env": env}
        short = "%s %s nthreads=%d %d-bit %s" % (bat.split("/")[-1], args[3:], nth, nbits, sname)
        ctx.case((bat, nbits, sname, s, nth))
        if not good:
            ctx.count("refused")
            if rc == 0 or rc is None or rc < 0 or lg.begins or "report ====" in out:
                ctx.violation("refuse:" + s[0], "%s: an unknown selection was not refused: rc=%r, %d tests executed" % (short, rc, len(lg.begins)), rp)
            elif not err.strip():
                ctx.violation("diag", "%s: refused without a message" % short, rp)
            return
        if s[0] == "id":
            k = int(s[1]) - 1
        else:
            k = [q[1] for q in rows].index(s[1])
        ctx.count("selected")
        want = (tests[k]["eng"], tests[k]["opts"], tests[k]["nbits"], tests[k]["ndraw"])
        got = [(t["eng"], t["opts"], t["nbits"], t["ndraw"]) for t in lg.tests]
        if rc not in (0, 1) or got != [want]:
            ctx.violation("exec:" + s[0], "%s: rc=%r executed %r, requested %r" % (short, rc, got, want), rp)
            return
        r = vf.parse_report(out)
        if len(r["rows"]) != 1 or r["rows"][0][:2] != (k + 1, rows[k][1]):
            ctx.violation("row", "%s: report rows %r, expected test %d %s" % (short, r["rows"], k + 1, rows[k][1]), rp)
            return
        if not report.match_row(r["rows"][0], lg.tests):
            ctx.violation("row", "%s: the row %r does not show the result of the executed test" % (short, r["rows"][0]), rp)
        if sname == "const":
            if r["rows"][0][2:5] != rows[k][2:5]:
                ctx.violation("result", "%s: same stream, other result than in the full battery: %r vs %r" % (short, r["rows"][0], rows[k]), rp)
            ctx.count("compared_with_full")
        elif k == 0 and nth == 1:
            if r["rows"][0][2:5] != rows[0][2:5]:
                ctx.violation("result", "%s: same seed and stream, other result than in the full battery: %r vs %r" % (short, r["rows"][0], rows[0]), rp)
            ctx.count("compared_with_full")
        if (r.get("Passed", 0) + r.get("Suspicious", 0) + r.get("Failed", 0)) != 1 or rc != (1 if r["Failed"] else 0):
            ctx.violation("summary", "%s: summary %r rc=%d" % (short, {q: r.get(q) for q in ("Passed", "Suspicious", "Failed")}, rc), rp)
    vf.pmap(one, jobs)

    # both selections, malformed numbers
    for args in (["--testid=1", "--testname=byte_freq"], ["--testname=byte_freq", "--testid=1"], ["--testid=0"], ["--testid=-1"], ["--testid="], ["--testid=abc"]):
        rc, out, err, lg = vf.cli(ctx, exe, ["express", spy] + args)
        ctx.case(tuple(args))
        ctx.count("refused")
        if rc in (0, None) or rc < 0 or lg.begins or not err.strip():
            ctx.violation("refuse:both", "express %s: rc=%r, %d tests executed" % (args, rc, len(lg.begins)), {"args": args})
    # files without selection run every test (also duplicates)
    rc, out, err, lg = vf.cli(ctx, exe, ["f=" + cf, spy])
    if len(lg.tests) != CUSTOM.count("test="):
        ctx.violation("all", "no selection: %d of %d tests executed" % (len(lg.tests), CUSTOM.count("test=")))
    ctx.require("selected", 400)
    ctx.require("refused", 150)
    ctx.require("compared_with_full", 100)


vf.main("C14", main)
