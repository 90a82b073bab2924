"""C09: Hamming weight tests classify, count and report as documented."""
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import numpy as np
import vf
import engcheck
from vf import EngineCase as E


def wide(ctx):
    """words with bits beyond the declared 32: one warning, and the bits do not count"""
    exe = vf.build_cli("plain")
    so = vf.build("wide", "plain", [vf.HARN + "/vh_wide.c"], shared=True)

    def one(j):
        nval, nlev, at, hi, every = j
        cfg = "%s/w%d_%d_%s_%d.cfg" % (ctx.tmp, nval, at, hi, every)
        open(cfg, "w").write("battery name=X end\na test=hamming_distr nvalues=%d nlevels=%d end\n" % (nval, nlev))

        def go(**env):
            rc, out, err = vf.run([exe, "f=" + cfg, so, "--seed=%d" % at, "--nthreads=1"], env=env)
            out = out.decode("latin-1")
            m = re.search(r"(?m)^ +1 +a +(\S.*?)\s*$", out)
            return rc, m and m.group(1), len(re.findall("exceeds its declared size", out))
        blk = 1 << nlev
        drawn = -(-nval // blk) * blk
        base, got = go(), go(VW_AT=str(at), VW_HI=hi, **({"VW_ALL": "1"} if every else {}))
        ctx.case(("wide", j))
        ctx.count("wide_runs")
        seen = at < 1000 + drawn                       # the sanity check of the generator takes 1000 words first
        if base[2] or got[2] != (1 if seen else 0) or base[:2] != got[:2] or not base[1]:
            ctx.violation("wide", "hamming_distr of %d values, %d levels: %s of the words from %d on has bits %s above the declared 32: %d warnings, row %r (exit %r), without these bits %d warnings, %r (exit %r)"
                          % (nval, nlev, "each" if every else "only the first", at, hi, got[2], got[1], got[0], base[2], base[1], base[0]), {"case": list(j)})
    R = ctx.rng
    jobs = []
    for _ in range(ctx.scale(8, 60)):
        nlev = R.randint(1, 10)
        nval = R.randint(65536, 300000)
        blk = 1 << nlev
        drawn = -(-nval // blk) * blk
        jobs.append((nval, nlev, 1000 + R.choice([0, 1, R.randrange(drawn), drawn - 1, drawn + 1000]), R.choice(["1", "80000000", "%x" % (1 << R.randrange(32)), "ffffffff"]), R.random() < .2))
    vf.pmap(one, jobs)
    ctx.require("wide_runs", 8)


def check(ctx):
    ctx.rule = "distinct by (engine, mode/size, word size, generator, seed); non-trivial: p not saturated"
    R = ctx.rng
    rng = ctx.np_rng(2)
    cases = []

    def stream(nb, w, tag):
        f = "%s/%s_%d_%d.bin" % (ctx.tmp, tag, nb, R.getrandbits(40))
        np.asarray(w, dtype=np.uint64).tofile(f)
        return "f:" + f

    def all_weights(nb):
        # every Hamming weight appears often, at random places
        k = rng.integers(0, nb + 1, 20000)
        perm = np.argsort(rng.random((20000, nb)), axis=1)
        bits = perm < k[:, None]
        return (bits.astype(np.uint64) << np.arange(nb, dtype=np.uint64)).sum(axis=1, dtype=np.uint64)
    bad = ["l:%d" % R.getrandbits(40), "n:1", "b", "B", "t:20", "x", "p:5000", "s", "a", "c", "m:0x7F7F7F7F7F7F7F7F"]
    for nb in (32, 64):
        for mode in (0, 1, 2, 3):
            for k in range(ctx.scale(20, 100)):
                nt = R.choice([20000, 300000, 1000000, R.randint(1000, 1500000)])
                if mode == 3:
                    nt = min(nt, 200000)
                nbytes = nt * {0: nb // 8, 1: 1, 2: nb // 8, 3: nb}[mode] + R.randint(0, 7)
                g = "i" if k % 2 == 0 else R.choice(bad)
                if k == 3:
                    g = stream(nb, all_weights(nb), "aw")
                cases.append(E("hamming_ot", nb, g, R.getrandbits(60), [nbytes, mode]))
        for size in (128, 256, 512, 1024):
            for k in range(ctx.scale(16, 80)):
                nv = R.randint(1000, 120000) * (size // nb) + R.randint(0, 3)
                g = "i" if k % 2 == 0 else R.choice(bad)
                if k == 1:
                    # slowly varying weights: all codes and both sides of each border are visited
                    w = rng.integers(0, 1 << 64, 60000, dtype=np.uint64)
                    m = rng.integers(0, 1 << 64, 60000, dtype=np.uint64) & rng.integers(0, 1 << 64, 60000, dtype=np.uint64) & rng.integers(0, 1 << 64, 60000, dtype=np.uint64) & rng.integers(0, 1 << 64, 60000, dtype=np.uint64)
                    q = (np.arange(60000) // 97) % 3
                    w = np.where(q == 0, w, np.where(q == 1, w & ~m, w | m))
                    g = stream(nb, w, "sl")
                cases.append(E("hamming_ot_long", nb, g, R.getrandbits(60), [nv, size]))
        for nlev in range(1, 11):
            for k in range(ctx.scale(14, 80)):
                nv = int(2 ** R.uniform(max(11, nlev + 5), 19)) + R.randint(0, 5)
                g = "i" if k % 2 == 0 else R.choice(bad)
                if k == 3:
                    g = stream(nb, all_weights(nb), "aw")
                cases.append(E("hamming_distr", nb, g, R.getrandbits(60), [nv, nlev]))
    R.shuffle(cases)
    # more than 2^32 bytes or values
    B = 1 << 32
    nb = R.choice([32, 64])
    spec = [("hamming_ot", nb, "N", 17, [B + R.randrange(10 ** 5), m]) for m in (1, 2)] + [("hamming_ot", nb, "N", 18, [B * 2 + R.randrange(10 ** 5), 3])]
    spec += [("hamming_ot_long", 64, "N", 17, [B + R.randrange(10 ** 5), 1024])]
    if not ctx.quick:
        spec += [("hamming_ot", n, "N", 17, [B * 8 + R.randrange(10 ** 5), m]) for n in (32, 64) for m in range(4)]
        spec += [("hamming_ot_long", n, "N", 17, [B + R.randrange(10 ** 5), size]) for n in (32, 64) for size in (128, 256, 512)]
        spec += [("hamming_distr", n, "N", 17, [B + R.randrange(10 ** 5), 9]) for n in (32, 64)]
    start, finish = engcheck.long_runs(ctx, spec)
    engcheck.run(ctx, cases, background=start)
    finish()
    wide(ctx)
    ctx.require("results_recomputed_hamming_ot", 40)
    ctx.require("results_recomputed_hamming_ot_long", 30)
    ctx.require("results_recomputed_hamming_distr", 80)
    ctx.require("p_nontrivial", 100)
    ctx.assumptions = ["numpy/scipy reference of code borders, tuple tables, bin merging and G statistic"]


if __name__ == "__main__":
    vf.main("C09", check)
