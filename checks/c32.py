"""C32: the shipped scripts, the example battery and the calibration tool report exactly what their runs produced."""
import math
import os
import re
import shutil
import stat
import sys

import numpy as np

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import ref
import vf

STUB = """#!/bin/sh
# stands for the program: logs its arguments, exits with the code in the name of the generator
for a in "$@"; do echo "arg $a" >>"$VH_STUBLOG"; done
echo end >>"$VH_STUBLOG"
c=0
for a in "$@"; do case "$a" in *_code[0-9].so) c=${a##*_code}; c=${c%.so};; esac; done
[ -n "$VH_STUBCODE" ] && c=$VH_STUBCODE
echo "stub output"
exit $c
"""


def scripts(ctx):
    R = ctx.rng
    for k in range(ctx.scale(24, 150)):
        name = R.choice(["run_express.sh", "run_selftests.sh"])
        d = "%s/scr%d" % (ctx.tmp, k)
        os.makedirs(d + "/scripts")
        os.makedirs(d + "/bin/generators")
        shutil.copy(vf.REPO + "/scripts/" + name, d + "/scripts/")
        open(d + "/bin/smokerand", "w").write(STUB)
        os.chmod(d + "/bin/smokerand", 0o755)
        codes = [R.choice(R.choice([[0, 1, 2], [0, 0, 2], [1, 2], [0], [2], [1]])) for _ in range(R.choice([1, 2, 3, 5, 8, 20]))]
        files = ["%c%d_code%d.so" % (97 + i % 26, i, c) for i, c in enumerate(codes)]
        for f in files:
            open(d + "/bin/generators/" + f, "w").close()
        open(d + "/bin/generators/notes.txt", "w").close()
        lg = d + "/log"
        cwd = R.choice([d, d + "/scripts", "/"])
        rc, out, err = vf.run(["sh", d + "/scripts/" + name], env={"VH_STUBLOG": lg}, cwd=cwd)
        out = out.decode("utf-8", "replace")
        calls = [[a[4:] for a in c.split("\n") if a.startswith("arg ")] for c in open(lg).read().split("end\n")[:-1]]
        what = "%s over generators whose runs exit with %r" % (name, codes)
        rp = {"script": name, "codes": codes}
        ctx.case((name, tuple(codes)), sample=what)
        tested = sorted(os.path.basename(a) for c in calls for a in c if a.endswith(".so"))
        if tested != sorted(files):
            ctx.violation("script-runs", "%s: generators run %r, present %r" % (what, tested, sorted(files)), rp)
        cmd = "express" if "express" in name else "selftest"
        if any(c[0] != cmd for c in calls):
            ctx.violation("script-battery", "%s: calls %r" % (what, calls[:2]), rp)
        tally = [int(v) for v in re.findall(r"(?m)^(?:Passed|Failed|Error|Not implemented): +(\d+)$", out)]
        ctx.count("script_tallies")
        if tally != [codes.count(0), codes.count(1), codes.count(2)]:
            ctx.violation("script-tally", "%s: tally (passed, failed, error or not implemented) %r, expected %r" % (what, tally, [codes.count(c) for c in (0, 1, 2)]), rp)
        shutil.rmtree(d)
    # a fresh random seed, shown to the user together with the exit code
    seen = set()
    for k in range(ctx.scale(8, 40)):
        d = "%s/seed%d" % (ctx.tmp, k)
        os.makedirs(d)
        shutil.copy(vf.REPO + "/bin/srnd_seed.sh", d)
        open(d + "/smokerand", "w").write(STUB)
        os.chmod(d + "/smokerand", 0o755)
        code = k % 4
        rc, out, err = vf.run(["sh", "./srnd_seed.sh", "brief", "gen.so"], env={"VH_STUBLOG": d + "/log", "VH_STUBCODE": str(code)}, cwd=d)
        out = out.decode("utf-8", "replace")
        args = [a[4:] for a in open(d + "/log").read().split("\n") if a.startswith("arg ")]
        seed = [a[7:] for a in args if a.startswith("--seed=")]
        shown = re.findall(r"(?m)^The used seed: (\S+)$", out)
        ec = re.findall(r"(?m)^Exit code: (\d+)$", out)
        ctx.case(("srnd_seed", k, code))
        ctx.count("seed_scripts")
        if args[:2] != ["brief", "gen.so"] or len(seed) != 1 or shown != seed or ec != [str(code)] or len(seed[0]) < 40 or seed[0] in seen:
            ctx.violation("srnd_seed", "srnd_seed.sh: arguments %r, output %r" % (args, out), {"args": args, "out": out})
        seen |= set(seed)
        shutil.rmtree(d)


def example(ctx):
    R = ctx.rng
    for fl in ("plain", "asan"):
        exe, spy = vf.build_cli(fl), vf.build_spy("fast")
        bat = vf.build("bat_example", fl, [vf.REPO + "/apps/bat_example.c"], shared=True)
        for k in range(ctx.scale(10, 60)):
            nb = R.choice([32, 64])
            n = R.choice([1, 7, 1000, 99991, 100000, 250000])
            w = np.array([R.getrandbits(nb) for _ in range(n)], dtype="<u%d" % (nb // 8))
            if k % 5 == 0:
                w[:] = (1 << nb) - 1 if k % 2 else 0
            f = "%s/ex%s%d" % (ctx.tmp, fl, k)
            w.tofile(f)
            nth = R.choice([1, 1, 2, 255])
            opts, want = ["--nthreads=%d" % nth], [("Number of threads", str(nth))]
            par = "p%d" % R.getrandbits(20)
            opts.append("--batparam=" + par)
            want.append(("Battery parameter", par))
            if k % 3 == 1:
                opts.append("--testid=%d" % (k + 1))
                want.append(("Test id", str(k + 1)))
            if k % 3 == 2:
                opts.append("--testname=t%d" % k)
                want.append(("Test name", "t%d" % k))
            rc, out, err, lg = vf.cli(ctx, exe, ["s=" + bat, spy, "--seed=e%d" % k] + opts, {"VH_SPY_NBITS": str(nb), "VH_SPY_WORDS": f})
            m = re.search(r"Mean = ([0-9.]+)", out)
            vals = np.resize(w, 100000).astype(np.longdouble)
            mean = float((vals / np.longdouble(2 ** nb - 1)).mean())
            what = "bat_example on a %d-bit generator (%d words repeated), options %r (%s build)" % (nb, n, opts, fl)
            rp = {"nbits": nb, "words": n, "opts": opts}
            ctx.case(("example", nb, n, tuple(opts), fl))
            ctx.count("example_batteries")
            if rc != 0 or not m or abs(float(m.group(1)) - mean) > 2e-10 * 5 or lg.bad or len(lg.creates) != len(lg.frees):
                ctx.violation("example", "%s: exit %r, %s, expected mean %.10f; misuse %r, %d instances created, %d destroyed" % (what, rc, m and m.group(0), mean, lg.bad[:2], len(lg.creates), len(lg.frees)), rp)
            for a, b in want:
                if not re.search(r"(?m)\b%s: +%s$" % (a, re.escape(b)), out):
                    ctx.violation("example-options", "%s: %s is shown as %r, given %s" % (what, a, re.findall(a + ".*", out), b), rp)
            os.unlink(f)


def calibrate(ctx):
    R = ctx.rng
    exes = {fl: vf.build("calibrate_dc6", fl, vf.CORE + vf.BATS + [vf.REPO + "/apps/calibrate_dc6.c"]) for fl in ("plain", "asan", "tsan")}
    spy = vf.build_spy("fast")
    cases = [("w8_10m", 32, 10, "plain"), ("w8_10m", 64, 13, "tsan"), ("wv_10m", 64, 17, "plain"), ("wv_10m", 32, 11, "asan"), ("w128_10m", 64, 10, "plain"), ("w256_10m", 64, 10, "plain")]
    if not ctx.quick:
        cases += [("w8_10m", 64, 40, "plain"), ("w128_10m", 32, 16, "plain"), ("w256_10m", 32, 10, "plain"), ("w128_10m", 64, 10, "tsan"), ("wv_100m", 64, 10, "plain"), ("w8_100m", 32, 10, "plain"),
                  ("w256_100m", 64, 10, "plain"), ("w128_100m", 64, 10, "plain"), ("wv_10m", 32, 64, "tsan")]

    def one(c):
        k, (name, nb, ns, fl) = c
        d = "%s/cal%d" % (ctx.tmp, k)
        os.makedirs(d + "/generators")
        for g in ("chacha.dll", "speck128_avx.dll"):
            os.symlink(spy, d + "/generators/" + g)
        rng = np.random.default_rng(ctx.seed * 1000 + k)
        nper = 999983
        w = rng.integers(0, 1 << nb, nper, dtype=np.uint64)
        if k % 2:
            w &= rng.integers(0, 1 << nb, nper, dtype=np.uint64) | np.uint64(R.getrandbits(nb))     # biased weights
        w.astype("<u%d" % (nb // 8)).tofile(d + "/words")
        rc, out, err = vf.run([exes[fl], name, str(nb), str(ns)], timeout=800, cwd=d, env={"VH_SPY_NBITS": str(nb), "VH_SPY_WORDS": d + "/words", "VH_LOG": d + "/log"})
        out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
        what = "calibrate_dc6 %s %d %d (%s build)" % (name, nb, ns, fl)
        rp = {"args": [name, nb, ns], "build": fl}
        ctx.case((name, nb, ns, fl), sample=what)
        lg = vf.Log(d + "/log")
        f = "%s/hw_%s_%d.bin" % (d, name, ns)
        z = np.fromfile(f, "<f8") if os.path.exists(f) else np.zeros(0)
        if rc != 0 or len(z) != ns or lg.bad or len(lg.creates) != len(lg.frees) or "Sanitizer" in err:
            ctx.violation("calibrate", "%s: exit %r, %d samples in the file, misuse %r, %d instances created, %d destroyed, %s" % (what, rc, len(z), lg.bad[:2], len(lg.creates), len(lg.frees), err[-300:]), rp)
            return
        nth = int(re.search(r"Number of threads: (\d+)", out).group(1))
        kind, m = name.split("_")
        size = 10 ** 6 * int(m[:-1])

        def stat_of(j):
            # the j-th sample of every thread: all instances give the same stream
            o = [size, {"w8": 1, "wv": 0}[kind]] if kind in ("w8", "wv") else [size, int(kind[1:])]
            fn = ref.hamming_ot if kind in ("w8", "wv") else ref.hamming_ot_long
            need = stat_of.need
            if need is None:
                probe = Stream(w, nb, 0)
                stat_of.need = fn(probe, nb, o)["nwords"]
            return fn(Stream(w, nb, j * stat_of.need), nb, o)["x"]
        stat_of.need = None
        mx = -(-ns // nth)
        want = [stat_of(j) for j in range(min(mx, ctx.scale(2, 6)))]
        for i in range(ns):
            j = i // nth
            if j >= len(want):
                continue
            ctx.count("calibration_samples")
            if not abs(z[i] - want[j]) <= 1e-6 * max(1, abs(want[j])):
                ctx.violation("sample", "%s: sample %d is %r, the test of that part of the stream gives %r" % (what, i, z[i], want[j]), rp)
                break
        mean, std = z.mean(), z.std(ddof=1)
        q = np.sort((z - mean) / std) if std > 0 else None
        mm = re.search(r"mean: (\S+); std: (\S+)\s+Demp = (\S+); Kemp = (\S+)\s+Dcrit = (\S+); Kcrit = (\S+)", out)
        if not mm or abs(float(mm[1]) - mean) > 1e-5 * abs(mean) + 1e-9 or abs(float(mm[2]) - std) > 1e-5 * std + 1e-9:
            ctx.violation("moments", "%s: %s; the file has mean %g, std %g" % (what, mm and mm[0], mean, std), rp)
        elif q is not None and std > 1e-9:
            F = ref.stats.norm.cdf(q)
            D = max((np.arange(1, ns + 1) / ns - F).max(), (F - np.arange(ns) / ns).max())
            ctx.count("lilliefors")
            if abs(float(mm[3]) - D) > 1e-5 or abs(float(mm[4]) - D * math.sqrt(ns)) > 1e-4 or abs(float(mm[5]) * math.sqrt(ns) - float(mm[6])) > 1e-4:
                ctx.violation("lilliefors", "%s: %s; exact D=%g K=%g" % (what, mm[0], D, D * math.sqrt(ns)), rp)
        shutil.rmtree(d)
    vf.pmap(one, list(enumerate(cases)), 4)
    d = ctx.tmp + "/calbad"
    os.makedirs(d)
    for args, ok in (([], True), (["nosuch"], False), (["w8_10m", "16"], False), (["w8_10m", "33"], False), (["w8_10m", "32", "9"], False), (["w8_10m", "32", "10000001"], False), (["w8_10m", "64", "10"], False),
                     (["w8_10m", "x"], False), (["w8_10m", "64", "-5"], False)):
        for fl in ("plain", "asan"):
            rc, out, err = vf.run([exes[fl]] + args, cwd=d)
            ctx.case(("calibrate-cli", tuple(args), fl))
            if rc is None or rc not in ((0,) if ok else (1, 2)) or b"Sanitizer" in err:
                ctx.violation("calibrate-cli", "calibrate_dc6 %r: exit %r, stderr %r" % (args, rc, err[-200:]), {"args": args})
    ctx.require("calibration_samples", 20)


class Stream:
    """words of the repeated file from a given position"""
    def __init__(self, w, nb, start):
        self.w, self.nb, self.start = w, nb, start

    def __len__(self):
        return 1 << 40

    def __getitem__(self, sl):
        idx = (self.start + np.arange(sl.stop)) % len(self.w)
        return self.w[idx].astype(np.uint32 if self.nb == 32 else np.uint64)


def check(ctx):
    ctx.rule = "one evaluation = one run of a script, tool or battery; distinct = (program, inputs, build)"
    scripts(ctx)
    example(ctx)
    calibrate(ctx)
    ctx.require("script_tallies", 20)
    ctx.require("example_batteries", 15)


vf.main("C32", check)
