"""C10: linear complexity and GF(2) matrix rank are exact for every bit sequence / matrix, on the SIMD and the portable path."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import numpy as np
import vf
import engcheck
from vf import EngineCase as E


def lfsr(R, deg, n):
    """random linear recurrence of the given degree, random start"""
    if deg == 0:
        return [0] * n
    taps = [0] + [i for i in range(1, deg) if R.random() < 0.4]     # s[i+deg] = sum s[i+t]
    s = [R.randint(0, 1) for _ in range(deg)]
    if not any(s):
        s[R.randrange(deg)] = 1
    while len(s) < n:
        k = len(s) - deg
        v = 0
        for t in taps:
            v ^= s[k + t]
        s.append(v)
    return s[:n]


def check(ctx):
    ctx.rule = "distinct by (engine, options, word size, stream, build); non-trivial: complexity not 0 / not all matrices of full deficiency"
    R = ctx.rng
    rng = ctx.np_rng(3)

    def f(words, nb, tag):
        name = "%s/%s_%d_%d.bin" % (ctx.tmp, tag, nb, R.getrandbits(50))
        np.asarray(words, dtype=np.uint64).tofile(name)
        return "f:" + name

    def cases(heavy):
        out = []
        for nb in (32, 64):
            M = (1 << nb) - 1

            def bitstream(bits, pos, tag="lc"):
                b = np.array(bits, dtype=np.uint64)
                noise = rng.integers(0, 1 << 64, len(b), dtype=np.uint64) & np.uint64(M & ~(1 << pos))
                return f(noise | (b << np.uint64(pos)), nb, tag)
            positions = [0, 1, nb // 2 - 1, nb - 1, nb // 2] + [R.randrange(nb) for _ in range(3)]
            opt = {nb - 1: -1, nb // 2 - 1: -2}

            def o(pos):
                return opt.get(pos, pos) if R.random() < 0.7 else pos
            # short sequences: all bit patterns of small lengths through random words
            for n in list(range(8, 41)) + [63, 64, 65, 127, 128, 129]:
                for _ in range(ctx.scale(3, 30)):
                    pos = R.choice(positions)
                    k = R.random()
                    bits = [R.randint(0, 1) for _ in range(n)] if k < 0.5 else lfsr(R, R.randint(0, n // 2 + 1), n)
                    if 0.4 < k < 0.5:
                        bits = [0] * (n - 1) + [1]
                    out.append(E("linearcomp", nb, bitstream(bits, pos), 0, [n, o(pos)]))
            # recurrences of every length, late jumps, single ones
            for _ in range(ctx.scale(40, 300)):
                n = R.choice([R.randint(100, 3000), R.randint(3000, 12000) if heavy else R.randint(100, 1000)])
                pos = R.choice(positions)
                deg = R.choice([1, 2, R.randint(1, 64), R.randint(1, n // 2), n // 2, R.randint(n // 2, n)])
                bits = lfsr(R, min(deg, n), n)
                k = R.random()
                if k < 0.25:
                    bits[-1] ^= 1
                elif k < 0.4:
                    bits[R.randrange(n)] ^= 1
                elif k < 0.5:
                    z = R.randrange(n)
                    bits = [0] * z + [1] + [0] * (n - z - 1)
                elif k < 0.6:
                    z = R.randrange(1, n)
                    bits = [0] * z + bits[z:]
                out.append(E("linearcomp", nb, bitstream(bits, pos), 0, [n, o(pos)]))
            for _ in range(ctx.scale(20, 100)):
                n = R.randint(200, 20000 if heavy else 3000)
                out.append(E("linearcomp", nb, R.choice(["i", "i", "l:3", "n:1", "a", "p:777", "x", "c"]), R.getrandbits(nb), [n, o(R.choice(positions))]))
            if heavy:
                out.append(E("linearcomp", nb, "i", R.getrandbits(60), [ctx.scale(50000, 200000), -1]))
                out.append(E("linearcomp", nb, "i", R.getrandbits(60), [ctx.scale(50001, 200001), 0]))
            # matrices
            for n, mx, k in [(256, 64, 8), (256, 8, 4), (512, 32, 3), (512, 8, 2), (768, 64, 1), (1024, 64, 1)] + ([(1024, 8, 1), (2048, 64, 1)] if not ctx.quick and heavy else []):
                for j in range(k if heavy or n < 600 else 0):
                    g = "i" if j == 0 else R.choice(["i", "l:7", "n:1", "m:0xFFFF00FF0F0F0FFF", "b", "p:1000", "t:3", "x", "c", "s"])
                    out.append(E("matrixrank", nb, g, R.getrandbits(nb), [n, mx]))
                # planted ranks: exactly n, n-1, n-2 and lower; dependent rows/columns anywhere
                if n <= 512:
                    by = n * n // 8
                    mats = []
                    for m in range(64):
                        a = rng.integers(0, 2, (n, n), dtype=np.uint8)
                        kind = m % 8
                        if kind in (1, 2, 3, 4):
                            # rank-deficient: replace rows by combinations of others
                            for r in rng.choice(n, [1, 1, 2, 5][kind - 1], replace=False):
                                s = rng.choice(np.setdiff1d(np.arange(n), [r]), 3, replace=False)
                                a[r] = a[s[0]] ^ a[s[1]] ^ a[s[2]]
                        elif kind == 5:
                            a = np.eye(n, dtype=np.uint8)[rng.permutation(n)]
                        elif kind == 6:
                            a = np.triu(rng.integers(0, 2, (n, n), dtype=np.uint8), 1) | np.eye(n, dtype=np.uint8)
                            if m % 2:
                                a = a[::-1].copy()
                                a[rng.integers(0, n)] = 0
                        elif kind == 7:
                            c = rng.integers(0, n)
                            a[:, c] = a[:, (c + 1 + rng.integers(0, n - 1)) % n]
                        mats.append(np.packbits(a, axis=1, bitorder="little").tobytes())
                    raw = np.frombuffer(b"".join(mats), dtype=np.uint8)
                    if mx == 8:
                        w = raw.astype(np.uint64) | (rng.integers(0, 1 << 56, len(raw), dtype=np.uint64) << np.uint64(8))
                        if nb == 32:
                            w &= np.uint64(M)
                    else:
                        w = raw.view(np.uint32 if nb == 32 else np.uint64).astype(np.uint64)
                    out.append(E("matrixrank", nb, f(w, nb, "mr"), 0, [n, mx], meta="planted"))
        return out

    def seen(c, r):
        if r is None:
            return
        if c.engine == "matrixrank":
            for k, v in zip(("deficient", "n_minus_1", "full"), r["O"]):
                ctx.count("matrices_rank_" + k, v)
        else:
            ctx.count("lc_jump" if r["x"] > c.opts[0] // 2 + 2 else "lc_low" if r["x"] < c.opts[0] // 2 - 2 else "lc_middle")
    for fl, heavy in (("plain", True), ("generic", False)):
        cs = cases(heavy)
        cs.sort(key=lambda c: (-c.opts[0] if c.engine == "matrixrank" else 0, R.random()))
        engcheck.run(ctx, cs, flavour=fl, on_result=seen)
        ctx.count("cases_" + fl, len(cs))
    ctx.require("lc_jump", 20)
    ctx.require("lc_low", 50)
    ctx.require("lc_middle", 100)
    for k in ("deficient", "n_minus_1", "full"):
        ctx.require("matrices_rank_" + k, 200)
    ctx.assumptions = ["independent Berlekamp-Massey on Python integers and Gaussian elimination on Python integers",
                       "the AVX2 build and the portable build (NO_X86_EXTENSIONS, generic code paths) are both executed"]


if __name__ == "__main__":
    vf.main("C10", check)
