"""C18: tail probabilities / distribution functions agree with exact mathematics over their documented ranges."""
import math
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf

# name -> (rtol for p>1e-3, rtol in tails, atol).
TOL = {
    "normcdf": (1e-11, 1e-10, 0), "normpvalue": (1e-11, 1e-10, 0), "halfnorm": (1e-11, 1e-10, 0),
    "norminv": (1e-10, 1e-10, 1e-12), "expm1": (1e-12, 1e-12, 0), "lgamma": (1e-12, 1e-12, 1e-12),
    "ks": (1e-10, 1e-9, 1e-12), "gammainc": (1e-7, 1e-6, 1e-10),
    "poispvalue": (1e-6, 1e-3, 1e-10), "poiscdf": (1e-6, 1e-3, 1e-10),
    "chi2pvalue": (1e-7, 1e-5, 1e-11), "chi2cdf": (1e-7, 1e-5, 1e-10),
    "chi2pvalue_big": (2e-5, 0.5, 2e-6), "chi2cdf_big": (2e-5, 0.5, 2e-6),
    "tcdf": (1e-9, 1e-6, 1e-12), "tpvalue": (1e-9, 1e-6, 1e-12),
    "tcdf_big": (1e-7, 1e-3, 1e-9), "tpvalue_big": (1e-7, 1e-3, 1e-9),
    "betainc": (1e-8, 1e-7, 1e-9), "binpdf": (1e-7, 1e-6, 0), "bincdf": (1e-7, 1e-6, 1e-9),
    "binpvalue": (1e-7, 1e-6, 1e-9), "log2": (1e-12, 1e-12, 1e-14), "chi2norm": (1e-8, 1e-8, 1e-8),
}


def workload(ctx):
    import mpmath as mp
    import scipy.special as sc
    from scipy import stats
    mp.mp.dps = 40
    R = ctx.rng

    def lu(a, b):
        return math.exp(R.uniform(math.log(a), math.log(b)))
    reqs = []

    def add(name, args, ref, tol=None):
        reqs.append((name, args, float(ref), tol or name))
    N = ctx.scale(3000, 40000)
    for i in range(N):
        x = R.choice([R.uniform(-37.5, 37.5), R.uniform(-3, 3), R.gauss(0, 1e-3), R.choice([-1, 1]) * 2.5 + R.gauss(0, 1e-9)])
        add("normcdf", (x,), mp.erfc(-mp.mpf(x) / mp.sqrt(2)) / 2)
        add("normpvalue", (x,), mp.erfc(mp.mpf(x) / mp.sqrt(2)) / 2)
        add("halfnorm", (abs(x),), mp.erfc(mp.mpf(abs(x)) / mp.sqrt(2)))
        p = R.choice([R.random(), lu(1e-300, 1), 0.5 + R.uniform(-1, 1) * 1e-4, 1 - lu(1e-15, 1)])
        if 0 < p < 1:
            add("norminv", (p,), sc.ndtri(p))
        x = R.choice([R.uniform(-1, 1), R.uniform(-50, 50), lu(1e-12, 1), R.uniform(-.051, .051)])
        add("expm1", (x,), math.expm1(x))
        x = lu(1e-300, 1e300)
        add("log2", (x,), math.log2(x))
        x = lu(0.25, 1e9)
        add("lgamma", (x,), mp.loggamma(x))
        x = R.choice([lu(0.02, 18), R.uniform(0, 3), 1 + R.gauss(0, 1e-6)])
        add("ks", (x,), sc.kolmogorov(x))
        lam = lu(1e-3, 1e6)
        k = max(0, math.floor(R.choice([lam + R.gauss(0, 1) * math.sqrt(lam) * 3, lu(1, 1e6), R.uniform(0, 20)])))
        add("poispvalue", (k, lam), sc.pdtrc(k, lam))
        add("poiscdf", (k, lam), sc.pdtr(k, lam))
        f = R.choice([R.randint(1, 10), int(lu(1, 99000))])
        x = max(0.0, R.choice([f + R.gauss(0, 1) * 4 * math.sqrt(2 * f), lu(1e-3, 3 * f), f * R.uniform(0, 2)]))
        add("chi2pvalue", (x, f), sc.chdtrc(f, x))
        add("chi2cdf", (x, f), sc.chdtr(f, x))
        f = int(lu(99000, 1e7))
        x = max(0.0, f + R.gauss(0, 1) * R.choice([1, 1, 3, 8]) * math.sqrt(2 * f))
        add("chi2pvalue", (x, f), sc.chdtrc(f, x), "chi2pvalue_big")
        add("chi2cdf", (x, f), sc.chdtr(f, x), "chi2cdf_big")
        if x > 0:
            add("chi2norm", (x, f), ((mp.mpf(x) / f) ** (mp.mpf(1) / 3) - (1 - mp.mpf(2) / (9 * f))) / mp.sqrt(mp.mpf(2) / (9 * f)))
        f = R.choice([R.randint(1, 10), int(lu(1, 1000))])
        x = R.choice([R.gauss(0, 1), R.gauss(0, 6), R.uniform(-30, 30)])
        add("tcdf", (x, f), sc.stdtr(f, x))
        add("tpvalue", (x, f), sc.stdtr(f, -x))
        f = int(lu(1000, 1e6))
        x = R.choice([R.gauss(0, 1), R.gauss(0, 4), R.uniform(-15, 15)])
        add("tcdf", (x, f), sc.stdtr(f, x), "tcdf_big")
        add("tpvalue", (x, f), sc.stdtr(f, -x), "tpvalue_big")
        a, b = lu(0.3, 1e4), lu(0.3, 1e4)
        x = R.choice([R.random(), min(1, max(0, a / (a + b) + R.gauss(0, 1) * 3 * math.sqrt(a * b / (a + b) ** 2 / (a + b + 1))))])
        add("betainc", (x, a, b), sc.betainc(a, b, x))
        n = int(lu(1, 5e4))
        p = R.choice([R.random(), lu(1e-5, 0.5), 0.5])
        k = min(n, max(0, int(R.gauss(n * p, 3 * math.sqrt(n * p * (1 - p))))))
        add("binpdf", (k, n, p), stats.binom.pmf(k, n, p))
        if k < n:
            add("bincdf", (k, n, p), sc.bdtr(k, n, p))
            add("binpvalue", (k, n, p), sc.bdtrc(k, n, p))
        a = lu(0.3, 1e5)
        x = R.choice([lu(1e-4, 3e5), max(0, a + R.gauss(0, 1) * 4 * math.sqrt(a))])
        add("gammainc", (a, x), sc.gammainc(a, x))
    return reqs


EXACT = [  # limits and special points: (request, expected value, tolerance)
    ("normcdf inf", 1, 0), ("normcdf -inf", 0, 0), ("normpvalue inf", 0, 0), ("normcdf 0", .5, 1e-15),
    ("normpvalue 40", 0, 1e-300), ("normcdf 40", 1, 0), ("halfnorm 0", 1, 1e-15), ("halfnorm inf", 0, 0),
    ("norminv 0", -math.inf, 0), ("norminv 1", math.inf, 0), ("norminv 0.5", 0, 1e-15),
    ("ks 0", 1, 0), ("ks -1", 1, 0), ("ks inf", 0, 0), ("ks 1e-300", 1, 0), ("ks 0.01", 1, 1e-15), ("ks 50", 0, 0),
    ("chi2pvalue 0 1", 1, 1e-15), ("chi2pvalue 0 2", 1, 0), ("chi2pvalue 0 3", 1, 0), ("chi2pvalue 0 500", 1, 0),
    ("chi2pvalue 0 200000", 1, 0), ("chi2pvalue 1e10 5", 0, 1e-300), ("chi2pvalue 1e6 50000", 0, 1e-300),
    ("chi2pvalue 1e300 10", 0, 0), ("chi2pvalue 1e300 1", 0, 0), ("chi2pvalue 1e300 1000000", 0, 0),
    ("chi2cdf 0 1", 0, 0), ("chi2cdf 0 3", 0, 0), ("chi2cdf 1e300 10", 1, 0),
    ("tcdf inf 5", 1, 0), ("tcdf -inf 5", 0, 0), ("tcdf 0 5", .5, 1e-14), ("tcdf 0 5000", .5, 1e-14),
    ("poispvalue 0 0", 0, 0), ("poiscdf 5 0", 1, 0), ("poispvalue 0 1e-10", 1e-10, 1e-18),
    ("poispvalue 0 800", 1, 0), ("poispvalue 1e6 1", 0, 0), ("poispvalue 0.9 2", -math.expm1(-2), 1e-12),
    ("poispvalue 1e9 1", 0, 0),
    ("bincdf 0 5 0.3", .7 ** 5, 1e-12), ("bincdf 5 5 0.3", 1, 1e-12), ("binpvalue 5 5 0.3", 0, 1e-12), ("binpvalue 0 5 0.3", 1 - .7 ** 5, 1e-12),
    ("betainc 0 2 3", 0, 0), ("betainc 1 2 3", 1, 0), ("betainc 0.25 1 1", .25, 1e-14),
    ("lcTcdf 0", 2 / 3, 1e-14), ("lcTcdf 1", 2 / 3, 1e-14), ("lcTccdf 1", 1 / 3, 1e-14), ("lcTcdf 1e6", 1, 0), ("lcTcdf -1e6", 0, 0),
    ("lcTccdf 1e6", 0, 0), ("lcTccdf -1e6", 1, 0),
    ("round 0.49999999999999994", 0, 0), ("round 0.5", 1, 0), ("round -0.4", 0, 0), ("round 2.49", 2, 0), ("round -2.51", -3, 0),
]
NANS = ["normcdf nan", "normpvalue nan", "norminv -0.1", "norminv 1.1", "norminv nan", "ks nan", "chi2pvalue nan 1",
        "chi2pvalue nan 2", "chi2pvalue nan 5", "chi2pvalue nan 500000", "tcdf nan 5", "tcdf nan 5000", "poispvalue nan 3",
        "poispvalue 3 nan", "betainc nan 1 1", "betainc -0.5 1 1", "betainc 1.5 1 1", "halfnorm nan", "expm1 nan", "gammainc 2 nan"]


def check(ctx):
    ctx.rule = ("a case is distinct by (function, arguments); non-trivial: the exact value is neither 0 nor 1 "
                "to double precision, so a wrong formula cannot hide behind saturation")
    drivers = [(fl, vf.build("vh_funcs", fl, vf.CORE + [vf.HARN + "/vh_funcs.c"])) for fl in ("plain", "asan")]
    reqs = workload(ctx)
    chunk = 4000
    parts = [reqs[i:i + chunk] for i in range(0, len(reqs), chunk)]
    worst = {}

    def fmt(r):
        return "%s %s\n" % (r[0], " ".join(repr(v) for v in r[1]))
    for fl, drv in drivers:
        def go(part):
            return vf.run([drv], input="".join(map(fmt, part)).encode(), timeout=ctx.scale(60, 300))
        for part, (rc, out, err) in zip(parts, vf.pmap(go, parts)):
            lines = out.decode().splitlines()
            if rc is None or rc != 0:
                bad = part[len(lines)] if len(lines) < len(part) else part[-1]
                ctx.violation("%s:%s" % ("hang" if rc is None else vf.san_key(err), bad[0]),
                              "%s %s: %s" % (fl, fmt(bad).strip(), "did not terminate" if rc is None else err.decode()[:600]), fmt(bad))
                continue
            for (name, args, ref, tk), line in zip(part, lines):
                v = float.fromhex(line.split()[0])
                rt, rtail, at = TOL[tk]
                if abs(ref) < 1e-290 and name not in ("lgamma", "norminv", "expm1", "log2", "chi2norm"):
                    ok = abs(v) < 1e-285
                    ctx.case((name, args), False)
                else:
                    tol = max(at, (rt if abs(ref) > 1e-3 else rtail) * abs(ref))
                    if abs(ref) < 1e-9 and tk not in ("lgamma", "norminv", "expm1", "log2", "chi2norm", "gammainc", "chi2cdf", "chi2cdf_big", "poiscdf", "betainc", "bincdf", "binpdf"):
                        tol = rtail * abs(ref) if not tk.endswith("_big") else rtail * abs(ref)
                        if tk in ("poispvalue", "bincdf", "binpvalue", "chi2pvalue"):
                            tol = max(tol, 1e-12)
                    ok = abs(v - ref) <= tol and v == v
                    if tol:
                        q = abs(v - ref) / tol
                        if q > worst.get(tk, (0,))[0]:
                            worst[tk] = (q, name, args, v, ref)
                    ctx.case((name, args), 1e-290 < abs(ref) and abs(ref - 1) > 1e-15)
                    if name == "betainc":
                        c = float.fromhex(line.split()[1])
                        if not abs(v + c - 1) <= 1e-12:
                            ctx.violation("betainc-complement", "betainc%r: I + cI = %r" % (args, v + c), [name, args])
                if name not in ("norminv", "lgamma", "expm1", "log2", "chi2norm") and not -1e-9 <= v <= 1 + 1e-9:
                    ok = False
                if not ok:
                    ctx.violation("value:" + tk, "%s(%s) = %r, exact value %r (%s build)" % (name, args, v, ref, fl), [name, args, v, ref])
            ctx.count("values_compared_" + fl, len(part))
        # probability tables: every entry, and normalisation
        import numpy as np
        from scipy import stats
        tabs = [(n, p) for n in (1, 2, 3, 8, 32, 64, 128, 255, 256, 511, 512, 1000) for p in (0.5, 0.25, 1 / 3, 0.9, 1e-3)]
        rc, out, err = vf.run([drv], input="".join("binpdfall %d %r\n" % t for t in tabs).encode())
        if rc != 0:
            ctx.violation("binpdfall:" + vf.san_key(err), err.decode()[:500])
        for (n, p), line in zip(tabs, out.decode().splitlines()):
            v = np.array([float.fromhex(t) for t in line.split()])
            e = stats.binom.pmf(np.arange(n + 1), n, p)
            if len(v) != n + 1 or not np.all(np.abs(v - e) <= 1e-8 * e + 1e-290) or abs(v.sum() - 1) > 1e-9:
                ctx.violation("binpdfall", "binomial table n=%d p=%r differs from the exact one" % (n, p), [n, p])
            ctx.case(("binpdfall", n, p))
        # limits, integer arguments of the linear complexity law, rounding, and NaN propagation; each in its own run
        special = [(q, e, t) for q, e, t in EXACT]
        for k in list(range(-60, 61)):
            F = 1 - 2.0 ** (-2 * k + 2) / 3 if k > 0 else 2.0 ** (2 * k + 1) / 3
            Fc = 2.0 ** (-2 * k + 2) / 3 if k > 0 else 1 - 2.0 ** (2 * k + 1) / 3
            special += [("lcTcdf %d" % k, F, 1e-12 * F), ("lcTccdf %d" % k, Fc, 1e-12 * Fc)]

        def one(item):
            return item, vf.run([drv], input=(item[0] + "\n").encode(), timeout=20)
        for (q, e, t), (rc, out, err) in vf.pmap(one, special + [(q, None, 0) for q in NANS]):
            if rc is None:
                ctx.violation("hang:" + q.split()[0] + ":" + q, "%s does not return (%s build)" % (q, fl), q)
                continue
            if rc != 0:
                ctx.violation("%s:%s" % (vf.san_key(err), q), err.decode()[:600], q)
                continue
            v = float.fromhex(out.decode().split()[0])
            ok = (v != v) if e is None else (v == e or abs(v - e) <= t)
            if not ok:
                ctx.violation("special:" + q, "%s = %r, expected %r" % (q, v, "NaN" if e is None else e), q)
            ctx.case(("special", q))
            ctx.count("special_points")
        # verdict thresholds
        rng = ctx.rng
        ps = [1e-10, 9.999e-11, 1.0001e-10, 1e-3, 9.99e-4, .999, .9991, 1 - 1e-10, 1 - 9e-11, 0, 1, .5, 1e-300] + [rng.random() for _ in range(200)] + \
            [10 ** rng.uniform(-14, 0) for _ in range(300)] + [1 - 10 ** rng.uniform(-14, 0) for _ in range(300)]
        rc, out, err = vf.run([drv], input="".join("pcat %r\n" % p for p in ps).encode())
        for p, line in zip(ps, out.decode().splitlines()):
            m = min(p, 1 - p)
            near = any(abs(m - t) < 1e-6 * t + 2e-16 for t in (1e-10, 1e-3))
            exp = 2 if m < 1e-10 else 1 if m < 1e-3 else 0
            if not near and int(line.split()[0]) != exp:
                ctx.violation("category", "p=%r classified %s, documented category %d" % (p, line, exp), p)
            ctx.case(("pcat", p))
    ctx.counters["worst_error_over_tolerance"] = round(max(w[0] for w in worst.values()), 4)
    if "-v" in sys.argv:
        for k, w in sorted(worst.items()):
            print(k, w)
    ctx.require("values_compared_plain", len(reqs))
    ctx.require("special_points", 100)
    ctx.assumptions = ["scipy 1.x / mpmath (40 digits) as the exact reference", "arguments inside the documented ranges: finite x, df>=1, lambda<=1e6, n<=5e4"]


if __name__ == "__main__":
    vf.main("C18", check)
