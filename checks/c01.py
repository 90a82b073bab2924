"""C01: battery results do not depend on thread scheduling."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import batfile
import smallbat
import vf


def body(out, whole=False):
    """the deterministic part of the output: the report (for one thread: everything), without times and free memory"""
    i = 0 if whole else out.find("Seeds logger report")
    j = out.find("battery report ====") if "battery report ====" in out else out.find("report ====")
    if i < 0:
        i = j if j < 0 else out.rfind("\n", 0, j)
    t = out[i:] if i >= 0 else out
    return "\n".join(l for l in t.split("\n") if not re.match(r"^(Elapsed time|Total physical|Free +physical|  T=|Time)", l))


def canon(rc, out, lg, nth):
    """what must not change from run to run"""
    per = {}
    for t in lg.tests:
        per.setdefault(t["ord"], []).append((t["eng"], t["opts"], t["words"], t["p"], t["x"], t["nbits"]) if "opts" in t else (t["eng"], t.get("idx")))
    return {"exit code": rc, "report": body(out, nth == 1), "per-thread results": tuple(sorted((k, tuple(v)) for k, v in per.items())),
            "instances": tuple(sorted((c["seeds"], c["param"]) for c in lg.creates))}


def main(ctx):
    ctx.rule = "one evaluation = one run compared with the first run of the same configuration; distinct = (configuration, schedule perturbation, observed completion order)"
    ctx.assumptions = ["POSIX threads back end; interleavings are produced by random delays around lock, unlock, thread start, test start and inside tests and generators, and by CPU pinning",
                       "the times and the amount of free memory that a run prints are not results; the birthday battery (sized by free memory) is excluded"]
    mock, real, spy, lib = vf.build_mock("fast"), vf.build_real("fast"), vf.build_spy(), vf.build_batlib()
    gens = vf.build_gens([g for g in ("xoroshiro128pp", "chacha", "mt19937", "lcg64", "xorwow", "mwc64x", "hc256", "aesni", "shr3", "sezgin63") if g in vf.gen_names()], "plain")
    R = ctx.rng
    jobs = []
    for k in range(ctx.scale(150, 900)):
        kind = R.choice(["builtin", "builtin", "file", "file", "lib", "select", "special"])
        nth = R.choice([1, 2, 3, 4, 5, 7, 8, 11, 16, 33, 64]) if kind != "special" else R.choice([1, 2, 4, 8])
        env = {"VH_SPY_NBITS": R.choice(["32", "64"]), "VH_DRAW": R.choice(["1", "4", "9"]), "VH_PMODE": R.choice(["words", "mix", "mix"]), "VH_SPY_SEEDS": R.choice(["64", "32", "64,64", "64,32,64,32"])}
        args = ["--seed=c01-%d-%d" % (ctx.seed, k), "--nthreads=%d" % nth] + R.choice([[], [], ["--report-brief"], ["--param=abc%d" % k]])
        if env["VH_SPY_NBITS"] == "64" and R.random() < 0.25:
            args.append("--filter=" + R.choice(["reverse-bits", "interleaved32", "high32", "low32"]))
        if kind in ("builtin", "select"):
            bat = R.choice(["express", "brief", "default", "full"])
            if kind == "select":
                args.append("--testid=%d" % R.randint(1, 7))
        elif kind == "special":
            bat = R.choice(["ising", "unitsphere"])
        elif kind == "file":
            bat = "f=%s/f%d.cfg" % (ctx.tmp, k)
            data, b, exp = batfile.rnd_file(R, R.choice([1, 2, 3, 8, 20, 45]))
            open(bat[2:], "wb").write(data)
        else:
            bat = "s=" + lib
            env["VH_RES"] = "%s/r%d" % (ctx.tmp, k)
            vf.write_res(env["VH_RES"], [("t%d" % i, R.random(), 0.5, R.gauss(0, 1), 1) for i in range(R.randint(1, 60))])
        jobs.append((k, "mock", mock, [bat, spy] + args, env, nth, ctx.scale(6, 14)))
    for k in range(ctx.scale(16, 100)):
        nth = R.choice([2, 3, 4, 8, 16])
        f = "%s/real%d.cfg" % (ctx.tmp, k)
        txt, names = smallbat.text(R, R.choice([10, 20, 40]), skip=("dec",) if k % 3 else ())
        open(f, "w").write(txt)
        env = {"VH_SPY_NBITS": R.choice(["32", "64"]), "VH_SPY_DELAY": "5000:800"}
        g = spy if k % 2 == 0 else gens[R.choice(sorted(gens))]
        jobs.append((1000 + k, "real", real, ["f=" + f, g, "--seed=c01r-%d-%d" % (ctx.seed, k), "--nthreads=%d" % nth], env, nth, ctx.scale(4, 8)))
    for k in range(ctx.scale(4, 24)):
        nth = R.choice([1, 2, 5, 8])
        jobs.append((2000 + k, "express", real, ["express", gens[R.choice(sorted(gens))], "--seed=c01e-%d-%d" % (ctx.seed, k), "--nthreads=%d" % nth], {}, nth, 3))
    orders = {}

    def one(j):
        k, kind, exe, args, env, nth, reps = j
        base = None
        seen = set()
        rr = __import__("random").Random("%d/%d" % (ctx.seed, k))
        for rep in range(reps):
            e = dict(env)
            if rep:
                e["VH_DELAY"] = "%d:%d" % (rr.getrandbits(30), rr.choice([50, 300, 1500] if kind == "mock" else [100, 500]))
                if "VH_RES" in e:
                    e["VH_RESDELAY"] = str(rr.choice([100, 2000]))
            cmd = args
            x = exe
            if rep and rr.random() < 0.3:
                x, cmd = "/usr/bin/taskset", ["-c", str(rr.randrange(vf.NCPU)), exe] + args
                ctx.count("pinned_runs")
            rc, out, err, lg = vf.cli(ctx, x, cmd, e, timeout=300)
            order = tuple((t.get("ord"), t.get("opts") or t.get("idx")) for t in lg.tests) or tuple(re.findall(r"Thread (\d+): test #(\d+): \S+ \(\d+ of \d+\) finished", out))
            seen.add(order)
            ctx.case((k, rep, vf.hash_int(order)), sample="%s %r threads=%d" % (kind, [os.path.basename(a) for a in args[:1]], nth) if rep == 1 and k % 9 == 0 else None)
            rp = {"args": args, "env": e, "run": rep}
            if rc not in (0, 1):
                ctx.violation("run", "run %d of %r ended with %r: %s" % (rep, args, rc, err[-400:]), rp)
                return
            c = canon(rc, out, lg, nth)
            c["results"] = tuple(tuple(q) for q in vf.parse_report(out)["rows"])
            if not c["results"] and "--report-brief" not in args:
                raise vf.HarnessError("no report in the output of %r: %s" % (args, out[-300:]))
            if base is None:
                base = c
                continue
            for what in base:
                if base[what] != c[what]:
                    a, b = base[what], c[what]
                    if isinstance(a, str):
                        a, b = a.split("\n"), b.split("\n")
                    if isinstance(a, (list, tuple)):
                        d = [q for q in zip(a, b) if q[0] != q[1]][:2] or [(len(a), len(b))]
                    else:
                        d = (a, b)
                    ctx.violation("differs:" + what, "%r: %s of run %d differ(s) from the first run: %s" % (args, what, rep, repr(d)[:800]), rp)
                    return
            ctx.count("comparisons_" + kind)
        if nth > 1 and "--testid" not in " ".join(args):
            ctx.count("threaded_configurations")
            ctx.count("completion_orders", len(seen))
            if len(seen) > 1:
                ctx.count("configurations_with_several_orders")
    vf.pmap(one, [j for j in jobs if j[1] == "mock"], 12)
    vf.pmap(one, [j for j in jobs if j[1] != "mock"], 4)
    ctx.require("comparisons_mock", 200)
    ctx.require("comparisons_real", 10)
    ctx.require("comparisons_express", 4)
    ctx.require("configurations_with_several_orders", 15)


vf.main("C01", main)
