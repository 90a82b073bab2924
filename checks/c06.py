"""C06: frequency tests report the documented statistic and p-value."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf
import engcheck
from vf import EngineCase as E


def check(ctx):
    ctx.rule = "distinct by (engine, options, word size, generator kind, seed); non-trivial: p not saturated at 0 or 1"
    R = ctx.rng
    cases = []
    for nb in (32, 64):
        full = (1 << nb) - 1
        gens = ["i", "i", "i", "m:%d" % (full & ~1), "o:1", "t:50", "b", "B", "a", "n:1", "x", "l:12345", "s", "p:300", "c",
                "m:%d" % (full & 0xFFFFFF), "o:%d" % (1 << (nb - 1)), "m:%d" % (full >> 1)]
        for g in gens:
            for n in [1, 2, 3, 7, 8, 255, 1000] + [R.randint(10, 200000) for _ in range(ctx.scale(4, 40))]:
                s = R.getrandbits(nb) if g == "c" else R.getrandbits(60)
                cases.append(E("monobit", nb, g, s, [n]))
        for b in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16):
            for k in range(ctx.scale(2, 10)):
                g = "i" if k % 2 == 0 else R.choice(["m:%d" % (full ^ (1 << R.randrange(nb))), "t:40", "b", "n:1", "l:77", "s", "x", "p:4096"])
                bins, per = 1 << b, nb // b
                avg = R.choice([8, 16, 32, 33, 100, 1024])
                while bins * avg > 1 << 20:
                    avg = max(8, avg // 2)
                blk = max(1, min(400, (1 << 20) // (bins * avg)))
                blk = R.randint(max(1, blk // 2), blk)
                if bins * avg // per == 0:
                    continue
                cases.append(E("nbitwords", nb, g, R.getrandbits(60), [b, avg, blk]))
        # exactly uniform / single-bin contents
        cases.append(E("nbitwords", nb, "n:1", 0, [8, 1024, 5]))
        cases.append(E("nbitwords", nb, "c", R.getrandbits(nb), [8, 64, 16]))
    R.shuffle(cases)
    # the battery wrappers with their fixed documented options: billions of words, so the stream is an arithmetic
    # sequence of period 2^k whose blocks repeat and can be recomputed from one period
    drv = vf.build_tests("plain")
    import numpy as np
    import ref
    big = []
    for eng, b, avg, blocks in (("bytefreq", 8, 1024, 4096), ("word16", 16, 32, 4096)):
        for nb in (32, 64) if b == 8 or not ctx.quick else (64,):
            k = R.choice([17, 18]) if b == 8 else 21
            big.append((E(eng, nb, "N:%d" % k, R.getrandbits(60), [], maxwords=1 << 34), b, avg, blocks, k))
    # sums and counts beyond 32 bits
    B = 1 << 32
    spec = [("monobit", 64, "Q", 17, [(1 << 28) + R.randrange(1000)]), ("monobit", 32, "Q", 17, [(1 << 29) + R.randrange(1000)])]
    if not ctx.quick:
        spec += [("monobit", nb, k, 17, [B + R.randrange(100000)]) for nb in (32, 64) for k in "NQ"]
    start, finish = engcheck.long_runs(ctx, spec)

    def side():
        start()
        vf.run_engine_cases(drv, [x[0] for x in big], timeout=800)
    engcheck.run(ctx, cases, background=side)
    finish()
    for c, b, avg, blocks, k in big:
        if c.res is None:
            raise vf.HarnessError("no result for " + c.key())
        if "fail" in c.res:
            ctx.violation("%s:%s" % (c.engine, c.res["fail"]), c.key() + str(c.res))
            continue
        n, per = 1 << b, c.nbits // b
        blen = n * avg // per
        L = 1 << k
        w = (np.uint64(c.seed) + np.arange(L, dtype=np.uint64)) * np.uint64(0x9E3779B97F4A7C15)
        w = (w ^ (w >> np.uint64(32))) * np.uint64(0xd6e8feb86659fd93)
        w ^= w >> np.uint64(29)
        if c.nbits == 32:
            w &= np.uint64(0xFFFFFFFF)
        cnt = [np.bincount(ref.subwords(w[i * blen:(i + 1) * blen], c.nbits, b).astype(np.int64), minlength=n) for i in range(L // blen)]
        chi = np.array([((q - avg) ** 2).sum() / avg for q in cnt] * (blocks // (L // blen)))
        r = ref.ks_of_chi(chi, n, blen * blocks, b)
        for f_, msg in ref.compare(c.res, r):
            ctx.violation("%s:%s" % (c.engine, f_), "%s: %s" % (c.key(), msg), c.key())
        ctx.case(c.key())
        ctx.count("battery_defaults_recomputed")
    ctx.require("results_recomputed_monobit", 200)
    ctx.require("results_recomputed_nbitwords", 40)
    ctx.require("battery_defaults_recomputed", 3)
    ctx.assumptions = ["numpy/scipy reference of the documented statistics", "options inside the accepted ranges"]


if __name__ == "__main__":
    vf.main("C06", check)
