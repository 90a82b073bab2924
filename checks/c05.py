"""C05: no memory error, leak, undefined arithmetic, hang or non-finite result of any statistical test on any generator output."""
import math
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf
from vf import EngineCase as E

GENS = ["i", "c", "n:1", "n:%d" % (1 << 31), "n:0x9E3779B97F4A7C15", "m:0xFF", "m:0xFFFF0000FFFF0000", "m:1", "o:0xFFFFFFFFFFFFFFFE", "o:1",
        "p:1", "p:2", "p:3", "p:1000", "a", "b", "B", "x", "l:12345", "t:100", "t:2", "s", "z:16", "m:0x8000000080000000"]
CONST = [0, (1 << 64) - 1, 1, 1 << 63, 1 << 31, 0xFFFFFFFF, 0xFFFFFFFE, 0x00FF00FF00FF00FF, 0x5555555555555555]


def options(R, eng, nb, q):
    """options inside what the batteries and battery files can request, at a size that runs under the sanitizers"""
    lu = lambda a, b: int(2 ** R.uniform(math.log2(a), math.log2(b)))
    if eng == "monobit":
        return [R.choice([1024, lu(1024, 100000)])]
    if eng == "nbitwords":
        b = R.randint(1, 16)
        avg, blk = lu(8, 64), lu(16, 64)
        while (avg << b) < 64 // b + 1:
            avg *= 2
        while (blk * avg) << b > 3000000:
            if avg > 8:
                avg = max(8, avg // 2)
            elif blk > 16:
                blk = max(16, blk // 2)
            else:
                break
        return [b, avg, blk]
    if eng == "bspace":
        while True:
            b, d = R.randint(1, nb), R.choice([1, 1, 2, 3, 4, 8, R.randint(1, 64)])
            if b * d <= 50 or (b == 64 and d == 1 and R.random() < 0.02):
                break
        t = b * d
        ln = 2 ** ((t + 4) / 3) * d
        return [b, d, max(1, int(min(R.choice([1, 1, 2, 30]), 500000 / ln))), R.randint(0, 1)]
    if eng == "bspacedec":
        return [R.choice([1, 2, 3, 5, 8, 16])]
    if eng == "collover":
        while True:
            b, d = R.randint(1, min(nb, 60)), R.choice([1, 2, 3, 4, 8, R.randint(1, 63)])
            if b * d <= 63:
                break
        return [b, d, R.choice([1, 2, 5]), R.choice([1000, 1001, lu(1000, 100000)]), R.randint(0, 1)]
    if eng == "gap":
        shl = R.randint(1, 11) if q else R.randint(1, 13)
        if shl <= 9:
            n = max(10000, 16 << shl)
            return [shl, lu(n, n * 2)]
        return [shl, max(10000, 16 << shl)]     # fewer gaps are refused by the battery file reader
    if eng == "gap16":
        return [10000000 + R.randint(0, 9)]
    if eng == "sumcoll":
        return [R.choice([100000, lu(100000, 300000)])]
    if eng == "mod3":
        return [R.choice([100000, lu(100000, 300000)])]
    if eng == "hamming_ot":
        return [lu(65536, 1000000), R.randint(0, 3)]
    if eng == "hamming_ot_long":
        return [lu(65536, 500000), R.choice([128, 256, 512, 1024])]
    if eng == "hamming_distr":
        return [lu(65536, 300000), R.choice([1, 2, 3, 5, 8, 10, 12, 15])]
    if eng == "linearcomp":
        return [R.choice([8, 9, 10, 16, 31, lu(8, 4000)]), R.choice([-1, -2, 0, 1, nb - 1, R.randrange(nb)])]
    if eng == "matrixrank":
        return [256 if R.random() < 0.9 else 512, R.choice([8, 32, 64])]
    if eng == "ising":
        return [R.randint(0, 1), 100 if R.random() < 0.8 else lu(100, 300), R.choice([3, 4, 10])]
    if eng == "usphere":
        return [R.randint(2, 20), lu(1000, 30000)]
    if eng == "birthday":
        return [R.choice([8, 9, lu(8, 5000)]), R.randint(0, 6)]
    raise AssertionError(eng)


COUNT = dict(monobit=40, nbitwords=70, bspace=140, bspacedec=24, collover=100, gap=60, gap16=6, sumcoll=40, mod3=40, hamming_ot=60,
             hamming_ot_long=50, hamming_distr=60, linearcomp=150, matrixrank=24, ising=24, usphere=60, birthday=50)


def check(ctx):
    ctx.rule = "distinct by (engine, options, word size, generator, seed, reported RAM); every case executes the real engine under ASan+UBSan"
    R = ctx.rng
    cases = []
    for eng, k in COUNT.items():
        for j in range(ctx.scale(k, k * 8)):
            nb = R.choice([32, 64])
            g = R.choice(GENS)
            seed = R.choice(CONST) if g in ("c", "t:100", "t:2") else R.getrandbits(63)
            if eng in ("ising",) and g in ("c", "p:1", "p:2", "p:3", "a", "m:1", "n:%d" % (1 << 31)):
                pass
            opts = options(R, eng, nb, ctx.quick)
            if eng == "birthday" and g not in ("i", "x"):
                opts[1] = 0      # streams that never produce the kept pattern need 1e8 draws per value: see below
            if eng == "gap":
                # the engine waits for hits without limit up to 1e4 expected gap lengths: bound the work
                if g not in ("i", "x", "b"):
                    opts = options(R, eng, nb, ctx.quick)
                    while opts[0] > 9:
                        opts = options(R, eng, nb, ctx.quick)
            cases.append(E(eng, nb, g, seed, opts, ram=R.choice([0, 1 << 20, 8 << 30, 64 << 30]), maxwords=ctx.scale(400000000, 4000000000), meta="h"))
    # streams on which a value is never kept: must end with the documented verdict, not hang
    cases.append(E("birthday", 64, "c", 1, [10, 1], maxwords=1 << 30, meta="flawed"))
    cases.append(E("birthday", 32, "c", 1, [10, 1], maxwords=1 << 30, meta="flawed"))
    if not ctx.quick:
        cases += [E("bytefreq", 64, "i", 5, [], meta="h"), E("birthday", 64, "o:1", 1, [10, 4], maxwords=1 << 30, meta="flawed")]
    R.shuffle(cases)
    cases.sort(key=lambda c: c.engine not in ("gap16", "birthday"))
    san = vf.build_tests("asan")

    def bad(c):
        ctx.violation("%s:%s:%s" % (c.engine, c.res["fail"], c.res["key"]), "%s: %s rc=%r %s" % (c.key(), c.res["fail"], c.res["rc"], c.res["err"][:1500]), c.key())

    def judge(c):
        r = c.res
        ctx.case(c.key())
        ctx.count("runs_" + c.engine)
        ctx.count("words_consumed", r["nwords"])
        if r["leak"] != 0:
            ctx.violation("leak:" + c.engine, "%s: %d heap blocks outstanding after the test" % (c.key(), r["leak"]), c.key())
        for f in ("p", "alpha"):
            v = r[f]
            if not (0 <= v <= 1):
                # a NaN is tolerated only where the statistic itself is undefined (0/0)
                if v != v and degenerate(c):
                    ctx.count("undefined_statistics")
                else:
                    ctx.violation("range:" + c.engine, "%s: %s = %r (x = %r)" % (c.key(), f, v, r["x"]), c.key())
        x = r["x"]
        if math.isnan(x) and not (c.engine == "gap" and r["p"] < 1e-10) and not degenerate(c) or math.isinf(x) and c.engine != "ising":
            ctx.violation("x:" + c.engine, "%s: statistic %r" % (c.key(), x), c.key())
    vf.run_engine_cases(san, cases, timeout=ctx.scale(240, 800), on_fail=bad, after=judge)
    # the optimised build as shipped and the portable build: hangs, traps and results must not appear there either
    sub = [E(c.engine, c.nbits, c.gen, c.seed, c.opts, ram=c.ram, maxwords=c.maxwords) for c in cases if c.meta == "h"]
    R.shuffle(sub)
    for fl in ("generic",):
        part = sub[:ctx.scale(250, 2500)]
        vf.run_engine_cases(vf.build_tests(fl), part, timeout=ctx.scale(200, 800), on_fail=bad, after=judge)
    for eng in COUNT:
        ctx.require("runs_" + eng, 4)
    ctx.assumptions = ["option values inside the accepted ranges of the battery file format", "out-of-memory paths end the process by design and are not driven here",
                       "ASan/UBSan (gcc 13) detect the memory error classes they implement; leaks are seen as unbalanced malloc/free of the engine call"]


def degenerate(c):
    return c.engine == "ising" and c.gen[0] in "cpanmotlxszbB"


if __name__ == "__main__":
    vf.main("C05", check)
