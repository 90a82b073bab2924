"""C07: birthday spacings, decimated birthday spacings and collision-over count exactly and report Poisson tails."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf
import engcheck
from vf import EngineCase as E

GENS = ["i", "i", "i", "m:0xF0F0F0F0F0F0F0F0", "l:77", "n:0x9E3779B97F4A7C15", "p:700", "x", "t:5", "b", "B", "s", "a", "o:3"]


def check(ctx):
    ctx.rule = "distinct by (engine, options, word size, generator, seed, reported RAM); non-trivial: p not saturated"
    R = ctx.rng
    cases, pairs = [], []
    rams = [8 << 30, 1 << 20, 0, 16 << 30, 100 << 20]

    def gen(nb, k):
        # keep enough ideal streams that Poisson counts stay informative
        return "i" if k % 3 else R.choice(GENS)
    for nb in (32, 64):
        combos = []
        for nd in range(1, 17):
            for b in range(1, nb + 1):
                t = nd * b
                if 6 <= t <= 44:
                    combos.append((b, nd))
        must = [(32, 1), (16, 2), (8, 4), (4, 8), (11, 3), (1, 32), (2, 16), (31, 1), (3, 11), (33, 1), (17, 2), (5, 7), (12, 3),
                (6, 6), (8, 5), (2, 20), (1, 40), (20, 2), (21, 2), (14, 3), (30, 1), (10, 3)]
        picks = [c for c in must if c[0] <= nb] + [R.choice(combos) for _ in range(ctx.scale(25, 200))]
        for k, (b, nd) in enumerate(picks):
            t = b * nd
            ln = int(2 ** ((t + 4) / 3))
            ns = max(1, min(R.choice([1, 2, 5, 20, 300]), 300000 // (ln * nd)))
            for lower in (0, 1):
                cases.append(E("bspace", nb, gen(nb, k), R.getrandbits(60), [b, nd, ns, lower], ram=R.choice(rams)))
        # the largest accepted total: 64 bits
        for (b, nd) in [(32, 2), (8, 8), (64, 1), (21, 3), (16, 4)][:ctx.scale(3, 5)]:
            if b <= nb or (b, nd) == (64, 1):
                cases.append(E("bspace", nb, "i", R.getrandbits(60), [b, nd, 1, R.randint(0, 1)], ram=8 << 30))
        # same stream, different reported RAM: the outcome must be the same
        for (b, nd, ns) in [(12, 3, 10), (40 if nb == 64 else 20, 1 if nb == 64 else 2, 3), (5, 8, 3)]:
            s = R.getrandbits(60)
            pairs.append([E("bspace", nb, "i", s, [b, nd, ns, 0], ram=r) for r in rams])
        for step in [1, 2, 3, 7, 16, 32, 64] + ([128, 4096] if not ctx.quick else []):
            for g in ["i", "l:%d" % R.getrandbits(30), R.choice(GENS), "n:%d" % (R.getrandbits(50) | 1)]:
                cases.append(E("bspacedec", nb, g, R.getrandbits(60), [step]))
        for k in range(ctx.scale(50, 400)):
            nd = R.choice([1, 2, 3, 4, 5, 6, 7, 8, 8])
            b = R.randint(1, nb)
            while not 3 <= nd * b <= 50 or b > nb:
                nd, b = R.choice([1, 2, 3, 4, 5, 8]), R.randint(1, 30)
            st = nd * b
            n = int(min(200000, max(nd + 4, 2 ** (st - R.choice([0, 1, 2, 4, 6])))))
            n = max(16, n + R.randint(-3, 3))
            ns = max(1, min(R.choice([1, 2, 5, 20]), 400000 // n))
            cases.append(E("collover", nb, gen(nb, k), R.getrandbits(60), [b, nd, ns, n, R.randint(0, 1)], ram=R.choice(rams)))
        for (b, nd, n) in [(2, 10, 50000), (5, 4, 50000), (20, 2, 100000), (3, 7, 60000)]:
            cases.append(E("collover", nb, "i", R.getrandbits(60), [b, nd, 3, n, R.randint(0, 1)]))
        s = R.getrandbits(60)
        pairs.append([E("collover", nb, "i", s, [3, 8, 4, 100000, 0], ram=r) for r in rams])
    R.shuffle(cases)
    cases = [c for g in pairs for c in g] + cases
    engcheck.run(ctx, cases)
    for g in pairs:
        res = {(c.res.get("x"), c.res.get("p"), c.res.get("nwords")) for c in g}
        ctx.count("ram_variants_compared", len(g))
        if len(res) != 1:
            ctx.violation("ram:" + g[0].engine, "%s: result depends on the reported RAM: %r" % (g[0].key(), res), g[0].key())
    # the portable (non-SIMD, non-GNU) build of the same code
    sub = [E(c.engine, c.nbits, c.gen, c.seed, c.opts, ram=c.ram) for c in cases if c.res and c.res.get("nwords", 1 << 30) < 400000]
    R.shuffle(sub)
    engcheck.run(ctx, sub[:ctx.scale(60, 400)], flavour="generic")
    ctx.require("results_recomputed_bspace", 120)
    ctx.require("results_recomputed_collover", 80)
    ctx.require("results_recomputed_bspacedec", 40)
    ctx.require("p_nontrivial", 120)
    ctx.assumptions = ["scipy Poisson tails as reference", "collision density as used by batteries (n below the number of cells)"]


if __name__ == "__main__":
    vf.main("C07", check)
