"""C08: gap, gap16, mod3 and sum-collector tests report the documented statistics; stuck streams fail instead of hanging."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import numpy as np
import vf
import engcheck
from vf import EngineCase as E


def check(ctx):
    ctx.rule = "distinct by (engine, options, word size, generator, seed); non-trivial: p not saturated"
    R = ctx.rng
    cases = []
    rng = ctx.np_rng(1)

    def stream(nb, w, tag):
        f = "%s/%s_%d_%d.bin" % (ctx.tmp, tag, nb, R.getrandbits(40))
        np.asarray(w, dtype=np.uint64).tofile(f)
        return "f:" + f
    for nb in (32, 64):
        M = (1 << nb) - 1
        for k in range(ctx.scale(40, 300)):
            shl = R.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 12])
            ngaps = int(max(20 * 2 ** shl, 2 ** R.uniform(8, 14)))
            ngaps = min(ngaps, 4000000 >> shl) + R.randint(0, 50)
            if ngaps >> shl < 16:
                ngaps = 16 << shl
            g = "i" if k % 3 else R.choice(["n:0x9E3779B9", "l:99", "p:65536", "B", "b", "t:30", "x", "m:0xFFFFFF00FFFFFF00", "s"])
            cases.append(E("gap", nb, g, R.getrandbits(60), [shl, ngaps]))
        # words exactly on the boundary of the interval
        for shl in (1, 2, 4, 8, 9):
            beta = 1 << (nb - shl)
            vals = np.array([0, beta - 1, beta, beta + 1, M, M - 1, beta >> 1], dtype=np.uint64)
            cases.append(E("gap", nb, stream(nb, rng.choice(vals, 20001), "b%d" % shl), 0, [shl, 64 << shl]))
            cases.append(E("gap", nb, stream(nb, np.concatenate([rng.integers(0, M, 5000, dtype=np.uint64, endpoint=True), np.array([beta - 1, beta], dtype=np.uint64)]), "c%d" % shl), 0, [shl, 64 << shl]))
        # streams that (stop) hitting the interval
        for shl in (1, 2, 4, 8, 9, 12):
            for c in (M, 1 << (nb - shl), (1 << (nb - shl)) + 1):
                cases.append(E("gap", nb, "c", c, [shl, 1 << (shl + 5)], meta="stuck"))
            good = rng.integers(0, M, 3000, dtype=np.uint64, endpoint=True)
            cases.append(E("gap", nb, stream(nb, np.concatenate([good, np.full(3000000, M, dtype=np.uint64)]), "late"), 0, [shl, max(4000, 1 << (shl + 9))], meta="stuck"))
        for shl in (1, 3, 6):
            for c in (0, 1, (1 << (nb - shl)) - 1):
                cases.append(E("gap", nb, "c", c, [shl, 1 << (shl + 8)]))
        for n in [19683, 20000, 40000] + [R.randint(20000, 400000) for _ in range(ctx.scale(12, 80))]:
            for g in ("i", "i", R.choice(["n:1", "n:3", "l:3", "m:%d" % (M - 3), "b", "x", "p:999", "t:9", "c", "s", "o:1"])):
                cases.append(E("mod3", nb, g, R.getrandbits(nb), [n]))
        for n in [1000, 5000] + [R.randint(3000, 400000) for _ in range(ctx.scale(12, 80))]:
            for g in ("i", "i", R.choice(["n:0x9E3779B97F4A7C15", "l:3", "B", "b", "p:999", "t:9", "c", "s", "a", "x", "m:%d" % (M >> 1)])):
                cases.append(E("sumcoll", nb, g, R.getrandbits(nb), [n]))
        # sums exactly at the limit: the limit 10 * 2^32 is reached by 4 * 2^31 ... in equal steps
        for v in (1 << 31, 10 << 28, 1 << 30, 0xFFFFFFFF, 0):
            w = [v if nb == 32 else v << 32] * 64
            cases.append(E("sumcoll", nb, stream(nb, w, "lim"), 0, [5000]))
        near = rng.choice(np.array([1 << 31, (1 << 31) + 1, (1 << 31) - 1, 1 << 30, 0xFFFFFFFF], dtype=np.uint64), 5000)
        cases.append(E("sumcoll", nb, stream(nb, near if nb == 32 else near << np.uint64(32), "lim2"), 0, [60000]))
        # 16-bit gaps
        n0 = 10000000
        g16 = ["i", "i", "l:5", "p:%d" % R.randint(3000000, 4000000), "n:0x9E3779B97F4A7C15"]
        for g in g16 + (["i"] * 6 + ["b", "t:3", "x", "m:%d" % (M ^ 2)] if not ctx.quick else []):
            cases.append(E("gap16", nb, g, R.getrandbits(60), [n0 + R.randint(0, 100000)]))
        # streams with planted structure: excess of zeros inside gaps / of certain gap lengths / of repeats after zeros
        per = nb // 16
        for kind in ("tot", "w0", "rb", "few0", "tot1", "w01", "w0-", "rb1", "rb-") if not ctx.quick else (("tot", "rb1", "w0-", "rb-") if nb == 32 else ("w01", "few0", "tot1", "rb")):
            v = rng.integers(0, 65536, n0 + 4 * per, dtype=np.uint16)
            if kind == "tot":
                at = rng.integers(0, n0 - 5000, 30000)
                v[at + 1237] = v[at]
            elif kind[:2] in ("w0", "rb") and len(kind) > 2:
                # natural gaps of one length get (or lose) a zero / the repeated value: only this part of the test can see it
                pos = np.arange(len(v))
                if kind[0] == "w":
                    o = np.argsort(v, kind="stable")
                    last = np.full(len(v), -1)
                    last[o[1:]] = np.where(v[o[1:]] == v[o[:-1]], o[:-1], -1)
                else:
                    last = np.concatenate(([-1], np.maximum.accumulate(np.where(v == 0, pos, -1))[:-1]))
                want = R.randint(25000, 27000) if kind[2] == "-" else R.randint(2, 3000)
                at = pos[(last >= 0) & (pos - last - 1 == want) & (pos < n0)]
                for q in at.tolist():
                    if kind[2] == "1":
                        if R.random() < .45:
                            v[R.randint(last[q] + 1, q - 1)] = 0 if kind[0] == "w" else v[q]
                    else:
                        seg = v[last[q] + 1:q]
                        seg[seg == (0 if kind[0] == "w" else v[q])] ^= 0x5A5A
            elif kind == "tot1":
                at = rng.integers(0, n0 - 5000, 250)
                d = R.randint(3, 20000)
                at = at[at + d < n0]
                v[at + d] = v[at]
            elif kind == "w0":
                at = rng.integers(0, n0 - 5000, 8000)
                v[at + 600] = v[at]
                v[at + 300] = 0
            elif kind == "rb":
                at = rng.integers(1000, n0 - 5000, 8000)
                v[at] = 0
                v[at + 500] = v[at + 77]
            else:
                v[v == 0] = rng.integers(1, 65536, int((v == 0).sum()), dtype=np.uint16)
            v = v[:len(v) // per * per].reshape(-1, per).astype(np.uint64)
            w = np.zeros(len(v), dtype=np.uint64)
            for j in range(per):
                w |= v[:, j] << np.uint64(16 * j)
            cases.append(E("gap16", nb, stream(nb, w, kind), 0, [n0], meta=kind))
    if not ctx.quick:
        cases.append(E("gap16", 64, "i", R.getrandbits(60), [100000000]))
        cases.append(E("gap16", 32, "i", R.getrandbits(60), [120000000]))
    # spread the big cases over the batches
    cases.sort(key=lambda c: (c.engine != "gap16", R.random()))

    def seen(c, r):
        if c.meta == "stuck":
            ctx.count("stuck_streams")
            if c.res and "p" in c.res and not (c.res["p"] < 1e-10 and c.res["penalty"] == 4.0):
                ctx.violation("gap:stuck", "%s: stream that never hits the interval got p=%r penalty=%r" % (c.key(), c.res["p"], c.res["penalty"]), c.key())
        elif c.meta:
            ctx.count("planted_structures")
    # more than 2^32 values
    B = 1 << 32
    spec = [("mod3", R.choice([32, 64]), "N", 17, [B + R.randrange(10 ** 5)]), ("sumcoll", R.choice([32, 64]), "N", 13, [B + R.randrange(10 ** 5)])]
    if not ctx.quick:
        spec += [(e, nb, "N", 16, [B + R.randrange(10 ** 5)]) for e in ("mod3", "sumcoll") for nb in (32, 64)]
        spec += [("gap", nb, "N", 16, [2, B + R.randrange(10 ** 5)]) for nb in (32, 64)]
        spec += [("gap16", nb, "N", 18, [B + R.randrange(10 ** 5)]) for nb in (32, 64)]
    start, finish = engcheck.long_runs(ctx, spec)
    engcheck.run(ctx, cases, on_result=seen, background=start)
    finish()
    ctx.require("results_recomputed_gap", 100)
    ctx.require("results_recomputed_gap16", 10)
    ctx.require("results_recomputed_mod3", 60)
    ctx.require("results_recomputed_sumcoll", 60)
    ctx.require("stuck_streams", 30)
    ctx.assumptions = ["scipy reference", "per-bin binomial tails of gap16 compared at 1e-3 relative accuracy"]


if __name__ == "__main__":
    vf.main("C08", check)
