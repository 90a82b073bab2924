"""C04: the seed printed with a report reproduces the report."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import batfile
import seeds as sd
import smallbat
import vf


def state(rc, out, lg):
    per = {}
    for t in lg.tests:
        per.setdefault(t["ord"], []).append((t.get("eng"), t.get("opts") or t.get("idx"), t.get("words"), t.get("p"), t["nbits"]))
    return {"exit code": rc, "rows": vf.parse_report(out)["rows"], "tests": tuple(sorted((k, tuple(v)) for k, v in per.items())),
            "instance seeds": sorted((c["seeds"], c["param"]) for c in lg.creates), "seed log": vf.parse_report(out)["seeds"]}


def main(ctx):
    ctx.rule = "one evaluation = one recorded run replayed from its printed seed; distinct = (battery, arguments, seed, threads)"
    ctx.assumptions = ["same program, generator, battery and memory; the replay gets only the printed seed (which carries the number of threads) in place of --seed/--nthreads"]
    mock, real, spy, lib = vf.build_mock("fast"), vf.build_real("fast"), vf.build_spy(), vf.build_batlib()
    gens = vf.build_gens([g for g in ("xoroshiro128pp", "chacha", "mt19937", "lcg64", "xorwow", "mwc64x", "hc256", "pcg32") if g in vf.gen_names()], "plain")
    R = ctx.rng
    jobs = []
    for k in range(ctx.scale(420, 4000)):
        kind = R.choice(["builtin", "builtin", "file", "lib", "special"])
        nth = R.choice([1, 1, 2, 3, 5, 9, 10, 15, 16, 17, 31, 40, 99, 100, 127, 128, 160, 200, 254, 255, "threads"])
        how = R.choice(["auto", "text", "b64", "auto"])
        env = {"VH_SPY_NBITS": R.choice(["32", "64"]), "VH_DRAW": R.choice(["2", "6"]), "VH_PMODE": R.choice(["words", "mix"]), "VH_SPY_SEEDS": R.choice(["64", "32", "64,64", "64,32,64,32"])}
        args = []
        if R.random() < 0.25:
            args.append("--report-brief")
        if R.random() < 0.2:
            args.append("--param=p%d" % k)
        if env["VH_SPY_NBITS"] == "64" and R.random() < 0.25:
            args.append("--filter=" + R.choice(["reverse-bits", "interleaved32", "high32", "low32"]))
        if kind == "builtin":
            bat = R.choice(["express", "brief", "default", "full"])
            if R.random() < 0.3:
                args.append(R.choice(["--testid=%d" % R.randint(1, 7), "--testname=" + R.choice(["monobit_freq", "byte_freq"])]) if bat != "express" else "--testid=%d" % R.randint(1, 7))
        elif kind == "special":
            bat = R.choice(["ising", "unitsphere"])
        elif kind == "file":
            bat = "f=%s/f%d.cfg" % (ctx.tmp, k)
            data, b, exp = batfile.rnd_file(R, R.choice([1, 2, 3, 8, 20, 45]))
            open(bat[2:], "wb").write(data)
        else:
            bat = "s=" + lib
            env["VH_RES"] = "%s/r%d" % (ctx.tmp, k)
            vf.write_res(env["VH_RES"], [("t%d" % i, R.random(), 0.5, R.gauss(0, 1), 1) for i in range(R.randint(1, 60))])
        key = [R.choice([R.getrandbits(32), 0, 0xFFFFFFFF]) for _ in range(8)]
        if how == "text":
            seed = ["--seed=" + R.choice(["abc%d" % k, "", "_a", "x" * 200, "пароль %d" % k, "-", "a=b"])]
        elif how == "b64":
            seed = ["--seed=_%02X_%s" % (0 if nth == "threads" else nth, sd.b64(key))]
        else:
            seed = []
        seed += ["--threads"] if nth == "threads" else ["--nthreads=%d" % nth] if nth != 1 or R.random() < 0.5 else []
        R.shuffle(seed)
        jobs.append((k, kind, mock, [bat, spy], args, seed, env, nth, how))
    for k in range(ctx.scale(8, 60)):
        nth = R.choice([1, 2, 3, 8])
        f = "%s/real%d.cfg" % (ctx.tmp, k)
        txt, names = smallbat.text(R, 20, skip=("dec",))
        open(f, "w").write(txt)
        g = gens[R.choice(sorted(gens))] if k % 4 else spy
        jobs.append((3000 + k, "real", real, ["f=" + f, g], [], ["--nthreads=%d" % nth] + R.choice([[], ["--seed=real%d" % k]]), {}, nth, "real"))

    def one(j):
        k, kind, exe, head, args, seed, env, nth, how = j
        rc, out, err, lg = vf.cli(ctx, exe, head + args + seed, env, timeout=200)
        rp = {"args": head + args + seed, "env": env}
        ctx.case((k, kind, how, nth, repr(seed)), sample="%s %s %s threads=%s" % (kind, os.path.basename(head[0]), how, nth) if k % 40 == 0 else None)

        def v(key, msg):
            ctx.violation(key, "%s %r: %s" % (kind, args + seed, msg), rp)
        printed = set(re.findall(r"Used seed: +(\S+)", out))
        if rc not in (0, 1) or not printed:
            v("run", "no report: exit %r %s" % (rc, err[-300:]))
            return
        if len(printed) != 1:
            v("two", "several seeds printed: %r" % printed)
            return
        s = printed.pop()
        a = state(rc, out, lg)
        variants = [["--seed=" + s]]
        if k % 3 == 0:
            variants.append(["--nthreads=%d" % (1 if nth == 1 else 7), "--seed=" + s])       # the seed's own number of threads counts
        for n, vv in enumerate(variants):
            rc2, out2, err2, lg2 = vf.cli(ctx, exe, head + vv + args if k % 2 else head + args + vv, env, timeout=200)
            b = state(rc2, out2, lg2)
            for what in a:
                if a[what] != b[what]:
                    v("replay:" + what, "%s after replay with %r: %s, recorded %s" % (what, vv, repr(b[what])[:300], repr(a[what])[:300]))
                    return
            if set(re.findall(r"Used seed: +(\S+)", out2)) != {s}:
                v("replay:seed", "replay of %s prints another seed %r" % (s, re.findall(r"Used seed: +(\S+)", out2)))
            ctx.count("replays_" + how)
            ctx.count("replayed_rows", len(b["rows"]))
    vf.pmap(one, [j for j in jobs if j[2] is mock])
    vf.pmap(one, [j for j in jobs if j[2] is real], 4)
    for k, m in (("replays_auto", 60), ("replays_text", 30), ("replays_b64", 30), ("replays_real", 6), ("replayed_rows", 3000)):
        ctx.require(k, m)


vf.main("C04", main)
