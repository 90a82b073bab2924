"""C11: Ising, unit sphere volume, birthday paradox and block frequency batteries report the documented statistics."""
import math
import os
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import numpy as np
import vf
import ref
import engcheck
from vf import EngineCase as E


def birthday_cases(ctx, R):
    out = []
    for nb in (32, 64):
        for _ in range(ctx.scale(25, 150)):
            e = R.randint(0, 7)
            n = R.choice([8, 9, 100, R.randint(8, 3000), R.randint(1000, 20000)])
            g = R.choice(["i", "i", "m:%d" % (0xFFFFF if nb == 64 else 0x3FF), "m:%d" % (0x3FFFF << 3), "p:%d" % R.randint(500, 4000), "z:%d" % R.randint(0, 20),
                          "b", "y:%d" % R.randint(8, 16), "m:0xFFFF0000"])
            if nb == 32 and g[0] == "y":
                g = "i"
            out.append(E("birthday", nb, g, R.getrandbits(60), [n, e], maxwords=1 << 28))
    return out


def check_birthday(ctx, c):
    if "fail" in c.res:
        ctx.violation("birthday:%s:%s" % (c.res["fail"], c.res["key"]), c.key() + c.res["err"][-500:], c.key())
        return
    n, e = map(int, c.opts)
    w = np.fromfile(c.trace, dtype=np.uint32 if c.nbits == 32 else np.uint64)
    os.unlink(c.trace)
    bad = []
    if c.nbits == 32:
        if len(w) % 2:
            bad.append("odd number of 32-bit words drawn: %d" % len(w))
        w = w[:len(w) // 2 * 2].astype(np.uint64)
        v = w[0::2] | (w[1::2] << np.uint64(32))
    else:
        v = w
    acc = v[(v & np.uint64((1 << e) - 1)) == 0]
    if len(acc) < n:
        bad.append("kept at most %d values, %d requested" % (len(acc), n))
    else:
        if (v[-1] & np.uint64((1 << e) - 1)) != 0:
            bad.append("words were drawn after the last kept value")
        k = acc[-n:]
        x = n - len(np.unique(k))
        lam = n * n / 2.0 ** (64 - e + 1)
        p, a = ref.poisson_cdf(x, lam), ref.poisson_p(x, lam)
        if c.res["x"] != x:
            bad.append("%g duplicates reported, the kept values contain %d" % (c.res["x"], x))
        if not (ref.close_p(c.res["p"], p) and ref.close_p(c.res["alpha"], a, 1e-4)):
            bad.append("p=%r alpha=%r, reference %r %r" % (c.res["p"], c.res["alpha"], p, a))
        ctx.count("duplicates_seen", x)
        ctx.case(c.key(), x > 0)
    ctx.count("results_recomputed_birthday")
    for m in bad:
        ctx.violation("birthday", c.key() + ": " + m, c.key())


def birthday_battery(ctx, R):
    """small RAM report -> n = 2^19 (also larger for more RAM); the stream keeps every value, so both subtests are exact"""
    drv = vf.build_tests("plain")
    jobs = []
    for nb in (64, 32):
        for ram, log2n in [(1 << 20, 19), (int(1.6 * (1 << 23)), 20), ((1 << 23) + 5, 19), (int(1.3 * (1 << 24)), 20)]:
            for g in ("z:33", "z:%d" % (67 - 2 * log2n), "y:33", "d:%d" % ((1 << log2n) + 10)):
                if nb == 32:
                    continue
                jobs.append((E("bat_birthday", nb, g, R.getrandbits(60), [0], ram=ram, maxwords=1 << 26), log2n))
    jobs += [(E("bat_birthday", 32, "c", 0, [0], ram=1 << 20, maxwords=1 << 26), 19)]
    if ctx.quick:
        jobs = jobs[:4] + jobs[4:-1:3] + jobs[-1:]

    def go(job):
        c, log2n = job
        c.id = "b"
        c.trace = "%s/bb_%s_%d_%d_%d.bin" % (ctx.tmp, c.gen.replace(":", "_"), c.nbits, log2n, c.ram)
        txt = c.trace + ".txt"
        rc, out, err = vf.run([drv], input=c.line().encode(), timeout=300, env={"VH_TEXT": txt})
        return c, log2n, rc, out, err, open(txt).read() if os.path.exists(txt) else ""
    for c, log2n, rc, out, err, txt in vf.pmap(go, jobs, 4):
        m = re.search(r"RES b (\S+) ", out.decode())
        if rc != 0 or not m:
            ctx.violation("bat_birthday:fail", "%s rc=%r %s" % (c.key(), rc, err[-300:]), c.key())
            continue
        code = float.fromhex(m.group(1))
        w = np.fromfile(c.trace, dtype=np.uint32 if c.nbits == 32 else np.uint64)
        os.unlink(c.trace)
        if c.nbits == 32:
            w = w.astype(np.uint64)
            w = w[0::2] | (w[1::2] << np.uint64(32))
        n = 1 << log2n
        # stage 1: probe, n values; stage 2 (only without duplicates): probe, n values
        e1, e2 = 65 - 2 * log2n + 2, 65 - 2 * log2n + 4
        a2 = w[(w & np.uint64((1 << e2) - 1)) == 0]
        nd = [float(t) for t in re.findall(r"x = (\S+) \(ndups\)", txt)]
        ps = [float(t) for t in re.findall(r"\(ndups\); p = (\S+);", txt)]
        bad = []
        if not nd:
            bad.append("no result line")
        elif len(nd) == 1:
            x = n - len(np.unique(w[-n:]))
            lam = 4.0
            if x == 0 or nd[0] != x:
                bad.append("small subtest reported %g duplicates, kept values contain %d" % (nd[0], x))
            total = x
        else:
            x2 = n - len(np.unique(w[-n:]))
            lam = 20.0
            if nd[0] != 0 or nd[1] != x2 or nd[-1] != x2:
                bad.append("large subtest reported %r duplicates, kept values contain %d" % (nd, x2))
            total = x2
        if nd:
            p = ref.poisson_cdf(total, lam)
            if abs(ps[-1] - p) > 1e-4 * p + 1e-12:
                bad.append("p printed %r, reference %r for x=%d lambda=%g" % (ps[-1], p, total, lam))
            expect_fail = p < 1e-6 or p > 1 - 1e-6
            if (code != 0) != expect_fail:
                bad.append("battery result %r for p=%r" % (code, p))
            ctx.count("birthday_batteries_failed" if expect_fail else "birthday_batteries_passed")
            ctx.count("birthday_batteries_two_stage", len(nd) > 1)
        for b in bad:
            ctx.violation("bat_birthday", c.key() + ": " + b, c.key())
        ctx.case(c.key())


def blockfreq(ctx, R):
    drv = vf.build_tests("plain")
    rng = ctx.np_rng(5)
    N = 1 << 20
    jobs = []

    def base(nb):
        v = np.tile(np.arange(65536, dtype=np.uint64), N * (nb // 16) // 65536)
        rng.shuffle(v)
        return v

    def pack(v, nb):
        v = v.reshape(N, nb // 16)
        w = np.zeros(N, dtype=np.uint64)
        for j in range(nb // 16):
            w |= v[:, j] << np.uint64(16 * j)
        return w
    for nb in (32, 64):
        def bytes_case(d):
            v = base(nb)
            hi = rng.permutation(256)
            t = int(rng.integers(0, 256))
            done = 0
            for h in hi:        # one extra occurrence of byte t, each time in another 16-bit cell
                a = (int(h) << 8) | ((t + 7) % 256)
                if done < d and int(h) != t:
                    i = np.flatnonzero(v == a)[0]
                    v[i] = (int(h) << 8) | t
                    done += 1
            return pack(v, nb)

        def w16_case(k):
            v = base(nb)
            t = int(rng.integers(0, 65536))
            src = np.flatnonzero(v != t)
            pick = rng.choice(src, k, replace=False)
            v[pick] = t
            return pack(v, nb)
        zb = 2 ** 10 / np.sqrt(2.0 ** 30 * (nb // 8) * 255 / 65536)
        lo, hi = int(6.9 / zb), int(7.6 / zb) + 1
        sel = [("bytes%d" % lo, bytes_case(lo)), ("bytes%d" % hi, bytes_case(hi)), ("w16_2", w16_case(2))]
        if not ctx.quick:
            sel += [("w16_1", w16_case(1)), ("flat", pack(base(nb), nb)), ("bytes+", bytes_case(200)), ("w16+", w16_case(7))]
            if nb == 64:
                sel += [("rand", rng.integers(0, 1 << 64, N, dtype=np.uint64))]
        elif nb == 32:
            sel = sel[1:]
        for tag, w in sel:
            fn = "%s/bf_%d_%s.bin" % (ctx.tmp, nb, tag)
            w.tofile(fn)
            jobs.append((E("bat_freq", nb, "f:" + fn, 1, [0], maxwords=1 << 30), w, tag))

    def go(job):
        c, w, tag = job
        c.id = "f"
        so = c.gen[2:] + ".out"
        rc, out, err = vf.run([drv], input=c.line().encode(), timeout=600, env={"VH_STDOUT": so})
        return c, w, tag, rc, out.decode(), err.decode("utf-8", "replace"), open(so).read() if os.path.exists(so) else ""
    for c, w, tag, rc, out, err, txt in vf.pmap(go, jobs):
        if rc == 88 or rc == 0:
            passed = rc == 88
        else:
            ctx.violation("bat_freq:fail", "%s/%s rc=%r %s" % (c.nbits, tag, rc, err[-300:]))
            continue
        bad = []
        by = np.bincount(ref.subwords(w, c.nbits, 8).astype(np.int64), minlength=256) * 1024
        ww = np.bincount(ref.subwords(w, c.nbits, 16).astype(np.int64), minlength=65536) * 1024
        exp_pass = True
        rows = re.findall(r"^\s+(8 bits|16 bits)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)", txt, re.M)
        if len(rows) != 2:
            bad.append("expected one block of results, got %r" % txt[-300:])
        for (lab, chi, pchi, zmax, ind, pz, pc), cnt, cells in zip(rows, (by, ww), (256, 65536)):
            ntot = cnt.sum()
            Ee = ntot / cells
            d = cnt - Ee
            chi_r = float((d * d / Ee).sum())
            z = np.abs(d) / np.sqrt(ntot / cells * (1 - 1 / cells))
            zm = float(z.max())
            from scipy import special as sc
            pz_r = float(sc.erfc(zm / np.sqrt(2)))
            if abs(float(chi) - chi_r) > 1e-5 * chi_r + 1e-9:
                bad.append("%s: chi2 %s, reference %r" % (lab, chi, chi_r))
            if abs(float(zmax) - zm) > 6e-3 * zm:
                bad.append("%s: zmax %s, reference %r" % (lab, zmax, zm))
            pr = float(sc.chdtrc(cells - 1, chi_r))
            if abs(float(pchi) - pr) > 0.1 * pr + 1e-12:
                bad.append("%s: p(chi2) %s, reference %r" % (lab, pchi, pr))
            if zm > 0 and np.sum(z > zm - 1e-9) == 1 and int(ind) != int(np.argmax(z)):
                bad.append("%s: index of the worst value %s, reference %d" % (lab, ind, int(np.argmax(z))))
            if pz_r < 1e-10 / cells:
                exp_pass = False
        if exp_pass != passed:
            bad.append("verdict %s, reference %s" % (passed, exp_pass))
        if not passed:
            m = re.search(r"RES f (\S+) ", out)
            if not m or float.fromhex(m.group(1)) == 0:
                bad.append("failed run does not report failure: " + out)
        ctx.count("blockfreq_passed" if passed else "blockfreq_failed")
        ctx.case(("bat_freq", c.nbits, tag))
        for b in bad:
            ctx.violation("bat_freq", "%d-bit %s: %s" % (c.nbits, tag, b), [c.nbits, tag])


def check(ctx):
    ctx.rule = "distinct by (engine, options, word size, generator, seed); non-trivial: p not saturated / duplicates present"
    R = ctx.rng
    cases = []
    for nb in (32, 64):
        for k in range(ctx.scale(14, 80)):
            g = R.choice(["i", "i", "i", "l:%d" % R.getrandbits(30), "n:0x9E3779B97F4A7C15", "x", "p:5003", "b", "t:4"])
            cases.append(E("ising", nb, g, R.getrandbits(60), [0, R.randint(20, 400), R.randint(3, 12)]))
            if k % 3 == 0:
                cases.append(E("ising", nb, g, R.getrandbits(60), [1, R.randint(5, 40), R.randint(3, 8)]))
            # decisions next to the acceptance thresholds of both algorithms
            alg = k % 2
            q = 2 - math.sqrt(2) if alg == 0 else (1 / (1 + math.sqrt(2))) ** R.choice([2, 4])
            cases.append(E("ising", nb, "e:%d" % int(q * 2.0 ** nb), R.getrandbits(60), [alg, R.randint(20, 100) >> 2 * alg, R.randint(3, 8)]))
        for nd in range(2, 21):
            for g in ["i", R.choice(["i", "l:3", "n:1", "b", "B", "x", "s", "m:0xFF00FF00FF00FF00", "a", "p:100"])]:
                cases.append(E("usphere", nb, g, R.getrandbits(60), [nd, R.randint(1000, 60000)]))
        # the largest words must be treated as numbers below 1
        for nd in (2, 3, 6):
            cases.append(E("usphere", nb, "o:%d" % (((1 << nb) - 1) & ~0xFF), R.getrandbits(60), [nd, 5000]))
    R.shuffle(cases)
    drv = vf.build_tests("plain")

    def side():
        bc = birthday_cases(ctx, R)
        for i, c in enumerate(bc):
            c.trace = "%s/bd%d" % (ctx.tmp, i)
        vf.run_engine_cases(drv, bc, timeout=300, workers=4)
        for c in bc:
            check_birthday(ctx, c)

    def seen(c, r):
        if c.engine == "ising" and r:
            ctx.count("ising_threshold_hits", r["edge"])
    engcheck.run(ctx, cases, on_result=seen)
    side()
    birthday_battery(ctx, R)
    blockfreq(ctx, R)
    # long Ising run against the exact lattice values (built in to the reference: e and cv of the 16x16 lattice)
    exact = ising_exact()
    for name, v, lit in (("e", exact[0], 1.4530649029), ("cv", exact[1], 1.4987048885)):
        if abs(v - lit) > 2e-7:
            ctx.violation("ising-ref", "reference %s = %r differs from the exact finite-lattice value %r" % (name, lit, v))
    ctx.require("results_recomputed_ising", 30)
    ctx.require("results_recomputed_usphere", 60)
    ctx.require("results_recomputed_birthday", 40)
    ctx.require("duplicates_seen", 100)
    ctx.require("blockfreq_failed", 3)
    ctx.require("blockfreq_passed", 1)
    ctx.require("birthday_batteries_failed", 1)
    ctx.require("birthday_batteries_passed", 1)
    ctx.assumptions = ["Ising reference values recomputed from Kaufman's exact finite-lattice partition function",
                       "birthday batteries run on a stream that keeps every value (real streams would need 2^48 draws)"]


def ising_exact():
    """Kaufman's solution for an L x L torus at K = Kc; energy per spin in units of J and specific heat (Kc^2 var(E)/N)."""
    import mpmath as mp
    mp.mp.dps = 60
    L = 16

    def lnZ(K):
        def gam(r):
            c = mp.cosh(2 * K) * mp.cosh(2 * K) / mp.sinh(2 * K) - mp.cos(mp.pi * r / L)
            g = mp.acosh(c)
            return g
        g0 = 2 * K + mp.log(mp.tanh(K))
        gs = [None] * (2 * L)
        for r in range(2 * L):
            gs[r] = g0 if r == 0 else gam(r)
        z1 = z2 = z3 = z4 = mp.mpf(1)
        for r in range(L):
            z1 *= 2 * mp.cosh(L * gs[2 * r + 1] / 2)
            z2 *= 2 * mp.sinh(L * gs[2 * r + 1] / 2)
            z3 *= 2 * mp.cosh(L * gs[2 * r] / 2)
            z4 *= 2 * mp.sinh(L * gs[2 * r] / 2)
        return mp.log((2 * mp.sinh(2 * K)) ** (mp.mpf(L * L) / 2) / 2 * (z1 + z2 + z3 + z4))
    Kc = mp.log(1 + mp.sqrt(2)) / 2
    e = mp.diff(lnZ, Kc) / (L * L)
    cv = mp.diff(lnZ, Kc, 2) * Kc * Kc / (L * L)
    return float(e), float(cv)


if __name__ == "__main__":
    vf.main("C11", check)
