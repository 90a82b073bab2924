"""Independent re-implementation (numpy / scipy / Python integers) of every documented statistic.
Each function gets the words that the engine really drew and its options and returns
dict(x, p, alpha, penalty, nwords, name[, tolx]) where p/alpha may be None (not judged)."""
import math
import numpy as np
from scipy import special as sc, stats

U1 = np.uint64(1)


class Short(Exception):
    """the engine drew fewer words than its documentation requires"""


def W(w, n):
    if len(w) < n:
        raise Short("drew %d words, at least %d are documented" % (len(w), n))
    return w[:n]


def norm_sf(z):
    return float(stats.norm.sf(z))


def norm_cdf(z):
    return float(stats.norm.cdf(z))


def chi2_sf(x, f):
    return float(sc.chdtrc(f, x))


def chi2_cdf(x, f):
    return float(sc.chdtr(f, x))


def poisson_p(x, mu):       # P(X > x)
    return float(sc.gammainc(x + 1, mu))


def poisson_cdf(x, mu):     # P(X <= x)
    return float(sc.gammaincc(x + 1, mu))


def wh(x, f):
    s2 = 2.0 / (9.0 * f)
    return (np.cbrt(x / f) - (1 - s2)) / math.sqrt(s2)


# ---------------------------------------------------------------- frequency
def popcount(a):
    return np.bitwise_count(a).astype(np.int64)


def monobit(w, nbits, o):
    n = int(o[0])
    return monobit_stat(int(popcount(W(w, n)).sum()), n, nbits)


def monobit_stat(ones, n, nbits):
    x = abs(2 * ones - n * nbits) / math.sqrt(n * nbits)
    p = float(sc.erfc(x / math.sqrt(2)))
    return dict(x=x, p=p, alpha=1 - p, penalty=4, nwords=n, name="MonobitFreq")


def subwords(w, nbits, b):
    """b-bit parts, least significant part first."""
    k = nbits // b
    w = w.astype(np.uint64)
    m = np.uint64((1 << b) - 1)
    return np.stack([(w >> np.uint64(j * b)) & m for j in range(k)], axis=1).ravel()


def nbitwords(w, nbits, o, name=None):
    b, avg, nblocks = map(int, o)
    nb = 1 << b
    per = nbits // b
    blen = nb * avg // per
    cyc = None
    chi = np.zeros(nblocks)
    W(w, blen * nblocks)
    for i in range(nblocks):
        cnt = np.bincount(subwords(w[i * blen:(i + 1) * blen], nbits, b).astype(np.int64), minlength=nb)
        E = per * blen / nb
        chi[i] = float(((cnt - E) ** 2 / E).sum())
    return ks_of_chi(chi, nb, blen * nblocks, b)


def ks_of_chi(chi, nb, nwords, b):
    n = len(chi)
    c = np.sort(chi)
    f = sc.chdtr(nb - 1, c)
    i = np.arange(n)
    D = max(float(((i + 1) / n - f).max()), float((f - i / n).max()), 0.0)
    K = math.sqrt(n) * D + 1 / (6 * math.sqrt(n))
    p = float(sc.kolmogorov(K))
    return dict(x=K, p=p, alpha=1 - p, penalty=4, nwords=nwords, name="BytesFreq" if b == 8 else "WordsFreq", tolx=1e-5)


# ---------------------------------------------------------------- birthday spacings / collisions
def field(w, nbits, nb, lower):
    w = w.astype(np.uint64)
    if lower:
        return w & np.uint64((1 << nb) - 1) if nb < 64 else w
    return w >> np.uint64(nbits - nb)


def dups(u):
    s = np.sort(u)
    d = np.sort(s[1:] - s[:-1])
    return int((d[1:] == d[:-1]).sum())


def bspace(w, nbits, o):
    nb, nd, ns, lower = map(int, o)
    if nb == 64 and nd == 1 and nbits == 32:
        nb, nd = 32, 2
    nbt = nb * nd
    ln = int(2.0 ** ((nbt + 4.0) / 3.0))
    lam = ln ** 3 / (4 * 2.0 ** nbt)
    W(w, ln * nd * ns)
    x = 0
    for i in range(ns):
        f = field(w[i * ln * nd:(i + 1) * ln * nd], nbits, nb, lower).reshape(ln, nd)
        u = f[:, 0].copy()
        for k in range(1, nd):
            u = (u << np.uint64(nb)) | f[:, k]
        x += dups(u)
    return dict(x=x, p=poisson_p(x, lam * ns), alpha=poisson_cdf(x, lam * ns), penalty=3, nwords=ln * nd * ns, name="bspace_nd", mu=lam * ns)


def bspacedec(w, nbits, o):
    step = int(o[0])
    ln = 4096
    lam = ln ** 3 / (4 * 2.0 ** 32)
    f = W(w, ln * 8 * step)[::step].astype(np.uint64).reshape(ln, 8)
    lo, hi = f & np.uint64(15), f >> np.uint64(nbits - 4)
    rev = np.array([int(format(i, "04b")[::-1], 2) for i in range(16)], dtype=np.uint64)
    best = None
    for a in (lo, rev[hi.astype(np.int64)], hi):
        u = np.zeros(ln, dtype=np.uint64)
        for k in range(8):
            u = (u << np.uint64(4)) | a[:, k]
        x = dups(u)
        p = poisson_p(x, lam)
        if best is None or (p < best[1] and p < 1e-10):
            best = (x, p)
    return dict(x=best[0], p=best[1], alpha=poisson_cdf(best[0], lam), penalty=1, nwords=ln * 8 * step, name="bspace4_8d_dec")


def collover(w, nbits, o):
    nb, nd, ns, n, lower = map(int, o)
    states = 2.0 ** (nb * nd)
    lam = (n - nd + 1) / states
    mu = states * (lam - 1 + math.exp(-lam))
    # exact for small lambda as well
    if lam < 1e-4:
        mu = states * float(lam * lam / 2 - lam ** 3 / 6 + lam ** 4 / 24)
    W(w, (8 + n) * ns)
    x = 0
    for i in range(ns):
        f = field(w[i * (8 + n):(i + 1) * (8 + n)], nbits, nb, lower)
        f = np.concatenate([np.zeros(64, dtype=np.uint64), f])     # history before the first word is zero
        u = np.zeros(n, dtype=np.uint64)
        for k in range(nd):      # k = 0: newest element, in the most significant place
            u |= f[72 - k:72 - k + n] << np.uint64((nd - 1 - k) * nb)
        _, c = np.unique(u, return_counts=True)
        x += int((c == 2).sum())
    return dict(x=x, p=poisson_p(x, mu * ns), alpha=poisson_cdf(x, mu * ns), penalty=3, nwords=(8 + n) * ns,
                name="CollisionOver", tolp=1e-4, mu=mu * ns)


# ---------------------------------------------------------------- gaps
def gap(w, nbits, o):
    shl, ngaps = int(o[0]), int(o[1])
    p = 2.0 ** -shl
    beta = 1 << (nbits - shl)
    nbins = int(math.log(10.0 / (ngaps * p)) / math.log(1 - p))
    maxlen = int((math.log(1e-15) - math.log(p)) / math.log(1 - p))
    hit = np.flatnonzero(w.astype(np.uint64) < np.uint64(beta))
    stuck = dict(x=math.nan, p=1e-15, alpha=1 - 1e-15, penalty=4, name="Gap")
    pos = np.concatenate([[-1], hit[:ngaps]])
    lens = np.diff(pos) - 1
    big = np.flatnonzero(lens >= maxlen)
    if len(big):
        g = int(big[0])
        stuck["nwords"] = int(pos[g]) + 1 + maxlen + 1
        return stuck
    if len(lens) < ngaps:
        start = int(pos[-1]) + 1
        if len(w) - start >= maxlen:
            stuck["nwords"] = start + maxlen + 1
            return stuck
        raise Short("only %d of %d gaps were closed" % (len(lens), ngaps))
    return gap_stat(np.bincount(np.minimum(lens, nbins), minlength=nbins + 1)[:nbins], ngaps, p, int(pos[-1]) + 1)


def gap_stat(O, ngaps, p, nwords):
    nbins = len(O)
    E = p * (1 - p) ** np.arange(nbins) * ngaps
    x = float(((O - E) ** 2 / E).sum())
    return dict(x=x, p=chi2_sf(x, nbins - 1), alpha=chi2_cdf(x, nbins - 1), penalty=4, nwords=nwords, name="Gap")


def _prev_same(w16):
    n = len(w16)
    order = np.argsort(w16, kind="stable")
    prev = np.full(n, -1, dtype=np.int64)
    same = w16[order[1:]] == w16[order[:-1]]
    prev[order[1:][same]] = order[:-1][same]
    return prev


def gap16(w, nbits, o):
    ngaps = int(o[0])
    nbins = gap16_nbins(ngaps)
    return gap16_stat(gap16_counts(w, nbits, ngaps, nbins), ngaps, nbits)


def gap16_nbins(ngaps):
    p = 2.0 ** -16
    emin = 100.0 if ngaps < 1e8 else 1000.0
    return int(math.log(emin / (ngaps * p)) / math.log(1 - p))


def gap16_counts(w, nbits, ngaps, nbins):
    nw = -(-ngaps // (nbits // 16))
    v = subwords(W(w, nw), nbits, 16)[:ngaps].astype(np.int64)
    pos = np.arange(ngaps, dtype=np.int64)
    prev = _prev_same(v)
    last0 = np.maximum.accumulate(np.where(v == 0, pos, -1))   # includes the current position
    ok = prev >= 0
    g = pos - prev - 1
    sel = ok & (g < nbins)
    tot = np.bincount(g[sel], minlength=nbins)
    with0 = np.bincount(g[sel & (last0 > prev)], minlength=nbins)
    # asymmetric boundaries [0 ... value]; a zero itself does not count
    g2 = pos - last0 - 1
    sel2 = (last0 >= 0) & (g2 >= 0) & (g2 < nbins)
    tot2 = np.bincount(g2[sel2], minlength=nbins)
    rb = np.bincount(g2[sel2 & (prev > last0)], minlength=nbins)
    return np.array([tot, with0, tot2, rb])


def gap16_stat(counts, ngaps, nbits):
    tot, with0, tot2, rb = counts
    p = 2.0 ** -16
    nbins = len(tot)
    nw = -(-ngaps // (nbits // 16))
    i = np.arange(nbins)
    pt = p * (1 - p) ** i
    p0 = -np.expm1(i * math.log1p(-p))
    E = ngaps * pt
    z = wh(float(((tot - E) ** 2 / E).sum()), nbins - 1)

    def zbin(k, n, q):
        a = sc.bdtr(k, n, q)
        s = sc.bdtrc(k, n, q)
        s = np.where(k >= n, 0.0, s)
        a = np.where(k >= n, 1.0, a)
        pdf = stats.binom.pmf(k, n, q)
        use = ((s < 1e-10) | (a < 1e-10)) & (pdf > 1e-10)
        s2 = np.where(use, pdf, s)
        a2 = np.where(use, 1 - pdf, a)
        with np.errstate(all="ignore"):
            zz = np.where(s2 < 0.5, -sc.ndtri(s2), sc.ndtri(a2))
        return np.clip(zz, -40, 40)

    def biggest(zz):
        j = int(np.nanargmax(np.abs(zz)))
        return float(zz[j])
    zw0 = biggest(zbin(with0[1:], tot[1:], p0[1:]))
    zrb = biggest(zbin(rb[1:], tot2[1:], p0[1:]))
    ztot = biggest(((tot - E) / np.sqrt(ngaps * pt * (1 - pt)))[1:])

    def corr(z):
        q = norm_sf(abs(z)) / p
        c = -sc.ndtri(q) if q < 0.5 else 0.0
        c = min(40.0, max(-40.0, float(c)))
        return c if z > 0 else -c
    zb = -sc.ndtri(1e-4 * p)
    x = z
    for zz in (zw0, ztot, zrb):
        if abs(zz) > zb and abs(zz) > abs(x):
            x = corr(zz)
    return dict(x=x, p=norm_sf(x), alpha=norm_cdf(x), penalty=2, nwords=nw, name="gap16_count0", tolx=1e-3,
                margin=min(abs(abs(a) - zb) for a in (zw0, ztot, zrb)))


def mod3(w, nbits, o):
    n = int(o[0])
    return mod3_stat(mod3_counts(w, nbits, n), n)


def mod3_counts(w, nbits, n):
    d = (W(w, n + 9) % (np.uint32(3) if nbits == 32 else np.uint64(3))).astype(np.int64)
    t = np.zeros(n, dtype=np.int64)
    for k in range(9):
        t += d[k:k + n] * 3 ** (8 - k)
    return np.bincount(t, minlength=19683)


def mod3_stat(O, n):
    E = n / 19683
    z = float(wh(((O - E) ** 2 / E).sum(), 19682))
    return dict(x=z, p=norm_sf(z), alpha=norm_cdf(z), penalty=2, nwords=n + 9, name="mod3")


_sc_p = {}


def sumcoll_p(g=10, nmax=49):
    """P(number of uniforms whose sum stays <= g is k): Irwin-Hall, exact rationals."""
    if (g, nmax) not in _sc_p:
        from fractions import Fraction as F

        def ih(n):   # P(U1+..+Un <= g)
            s = F(0)
            for k in range(0, min(g, n) + 1):
                s += (-1) ** k * math.comb(n, k) * F(g - k) ** n
            return s / math.factorial(n)
        c = [F(1)] + [ih(n) if n > g else F(1) for n in range(1, nmax + 2)]
        _sc_p[(g, nmax)] = [float(c[k] - c[k + 1]) for k in range(nmax + 1)]
    return _sc_p[(g, nmax)]


def sumcoll(w, nbits, o):
    n = int(o[0])
    a = (w.astype(np.uint64) >> np.uint64(0 if nbits == 32 else 32)).tolist()
    limit = 10 << 32
    O = [0] * 50
    s = y = i = 0
    try:
        for _ in range(n):
            t = s + a[i]
            i += 1
            if t <= limit:
                s = t
                y += 1
            else:
                O[min(y, 49)] += 1
                s = a[i]
                i += 1
                y = 1
    except IndexError:
        raise Short("drew only %d words" % len(a))
    return sumcoll_stat(O, i)


def sumcoll_stat(O, i):
    tot = sum(O)
    E = np.array(sumcoll_p()) * tot
    k = E >= 10
    x = float(((np.array(O)[k] - E[k]) ** 2 / E[k]).sum())
    df = int(k.sum()) - 1
    if df < 1:
        return dict(x=None, p=None, alpha=None, penalty=2, nwords=i, name="sumcollector")
    return dict(x=x, p=chi2_sf(x, df), alpha=chi2_cdf(x, df), penalty=2, nwords=i, name="sumcollector")


# ---------------------------------------------------------------- Hamming weights
CODES = {8: [0, 0, 1, 1, 2, 2, 3, 3, 0]}


def _codes(n, b):
    CODES[n] = [sum(i > t for t in b) for i in range(n + 1)]


_codes(32, (13, 15, 17))
_codes(64, (28, 31, 35))
_codes(128, (59, 64, 68))
_codes(256, (122, 127, 133))
_codes(512, (247, 255, 264))
_codes(1024, (500, 511, 523))


def reduce_table(p, c, emin):
    total = sum(c)
    pmin = emin / total
    again = True
    while again:
        again = False
        op, oc = [], []
        i, n = 0, len(p)
        while i < n:
            if p[i] >= pmin:
                op.append(p[i]); oc.append(c[i]); i += 1
            elif i != n - 1 and (not op or op[-1] > p[i + 1]):
                op.append(p[i] + p[i + 1]); oc.append(c[i] + c[i + 1]); i += 2
                again = True
            else:
                op[-1] += p[i]; oc[-1] += c[i]; i += 1
                again = True
        p, c = op, oc
    return p, c


def ot_counts(digits, ntuples, nweight):
    d = np.array(CODES[nweight])[digits]
    t = np.zeros(ntuples, dtype=np.int64)
    for k in range(9):
        t += d[k:k + ntuples] << (2 * (8 - k))
    return np.bincount(t, minlength=1 << 18)


def ot_result(digits, ntuples, nweight):
    return ot_stat(ot_counts(digits, ntuples, nweight), nweight)


def ot_stat(cnt, nweight):
    code = np.array(CODES[nweight])
    pr = stats.binom.pmf(np.arange(nweight + 1), nweight, 0.5)
    cp = np.array([pr[code == k].sum() for k in range(4)])
    idx = np.arange(1 << 18)
    p = np.ones(1 << 18)
    for j in range(9):
        p = p * cp[(idx >> (2 * j)) & 3]
    P, C = p.tolist(), cnt.tolist()
    emin = 250.0
    while True:
        P, C = reduce_table(P, C, emin)
        emin *= 2
        if len(P) <= 250000:
            break
    P, C = np.array(P), np.array(C, dtype=float)
    k = C > 0
    x = float((2 * C[k] * np.log(C[k] / (C.sum() * P[k]))).sum())
    if len(P) < 2:
        return dict(x=None, p=None, alpha=None, penalty=2, name="hamming_ot")
    z = float(wh(x, len(P) - 1))
    return dict(x=z, p=norm_sf(z), alpha=norm_cdf(z), penalty=2, name="hamming_ot", tolx=1e-5)


def hamming_ot(w, nbits, o):
    nbytes, mode = int(o[0]), int(o[1])
    if mode == 0:
        nt = nbytes * 8 // nbits
        need = nt + 10
        d = popcount(W(w, need))
        nweight = nbits
    elif mode == 1:
        nt = nbytes
        need = -(-(nt + 10) // (nbits // 8))
        d = popcount(W(w, need).view(np.uint8))[:nt + 10]
        nweight = 8
    elif mode == 2:
        nt = nbytes * 8 // nbits
        need = -(-(nt + 10) // 8) * 8
        d = popcount((W(w, need) & 255).astype(np.uint8))[:nt + 10]
        nweight = 8
    else:
        nt = nbytes // nbits
        need = -(-(nt + 10) // 8) * 64
        d = (W(w, need) & 1).astype(np.int64).reshape(-1, 8).sum(axis=1)[:nt + 10]
        nweight = 8
    r = ot_result(d, nt, nweight)
    r["nwords"] = need
    return r


def hamming_ot_long(w, nbits, o):
    nvalues, size = int(o[0]), int(o[1])
    per = size // nbits
    nt = nvalues // per
    need = (nt + 10) * per
    d = popcount(W(w, need)).reshape(-1, per).sum(axis=1)
    r = ot_result(d, nt, size)
    r["nwords"] = need
    return r


def hamming_distr(w, nbits, o):
    nvalues, nlevels = int(o[0]), int(o[1])
    bl = 1 << nlevels
    n = -(-nvalues // bl) * bl
    return hd_stat(hd_counts(w, nbits, n, nlevels), nbits, n)


def hd_counts(w, nbits, n, nlevels):
    w = W(w, n)
    out = []
    for lev in range(nlevels):
        k = 1 << lev
        nb = nbits * k
        hs = popcount(w).reshape(-1, k).sum(axis=1)
        b = w.reshape(-1, 2, k)
        hx = popcount(b[:, 0, :] ^ b[:, 1, :]).sum(axis=1)
        out.append([np.bincount(h, minlength=nb + 1)[:nb] for h in (hs, hx)])    # the all-ones bin never takes part
    return out


def hd_stat(counts, nbits, n):
    best = None
    for pair in counts:
        nb = len(pair[0])
        pr = stats.binom.pmf(np.arange(nb + 1), nb, 0.5)
        for c in pair:
            tot = c.sum()
            e = tot * pr[:nb]
            use = e > 25.0
            df = int(use.sum())
            if df == 0:
                z = math.nan
            else:
                z = float(wh(((c[use] - e[use]) ** 2 / e[use]).sum(), df)) / 1.3
            if not math.isnan(z) and (best is None or abs(z) > abs(best)):
                best = z
    if best is None:
        return dict(x=None, p=None, alpha=None, penalty=2, nwords=n, name="hamming_distr")
    return dict(x=best, p=norm_sf(best), alpha=norm_cdf(best), penalty=2, nwords=n, name="hamming_distr", tolx=1e-6)


# ---------------------------------------------------------------- GF(2)
def bm(bits):
    """Berlekamp-Massey on Python integers; s is kept reversed so that the discrepancy is one popcount."""
    C = B = 1
    L, m = 0, 1
    s = 0
    for n, b in enumerate(bits):
        s = (s << 1) | int(b)          # bit j of s = s[n-j]
        if (C & s).bit_count() & 1:
            T = C
            C ^= B << m
            if 2 * L <= n:
                L, B, m = n + 1 - L, T, 1
                # the low L+1 bits of s matter only
            else:
                m += 1
        else:
            m += 1
    return L


def lc_cdf(k):
    k = math.floor(k)
    return 1 - 2.0 ** (-2 * k + 2) / 3 if k > 0 else 2.0 ** (2 * k + 1) / 3


def linearcomp(w, nbits, o):
    n, pos = int(o[0]), int(o[1])
    if pos == -1:
        pos = nbits - 1
    elif pos == -2:
        pos = nbits // 2 - 1
    bits = ((W(w, n).astype(np.uint64) >> np.uint64(pos)) & U1).tolist()
    L = bm(bits)
    T = (n + 1) / 2 - L if n & 1 else L - n / 2
    T = int(T)
    F = 1 - 2.0 ** max(-1070, -2 * T + 2) / 3 if T > 0 else 2.0 ** max(-1070, 2 * T + 1) / 3
    Fc = 2.0 ** max(-1070, -2 * T + 2) / 3 if T > 0 else 1 - 2.0 ** max(-1070, 2 * T + 1) / 3
    return dict(x=L, p=F, alpha=Fc, penalty=0.25, nwords=n, name="linearcomp")


def rank_gf2(rows):
    """rows: list of Python ints."""
    piv = {}
    r = 0
    for v in rows:
        while v:
            h = v.bit_length()
            if h in piv:
                v ^= piv[h]
            else:
                piv[h] = v
                r += 1
                break
    return r


def matrixrank(w, nbits, o):
    n, mx = int(o[0]), int(o[1])
    per_mat = n * n // 8            # bytes
    if mx == 8:
        need = per_mat * 64
        by = (W(w, need) & 255).astype(np.uint8)
    else:
        need = per_mat * 64 * 8 // nbits
        by = W(w, need).view(np.uint8)
    O = [0, 0, 0]
    raw = by.tobytes()
    for i in range(64):
        mat = raw[i * per_mat:(i + 1) * per_mat]
        rows = [int.from_bytes(mat[j * n // 8:(j + 1) * n // 8], "little") for j in range(n)]
        r = rank_gf2(rows)
        O[max(0, r - (n - 2))] += 1
    E = [v * 64 for v in (0.1284, 0.5776, 0.2888)]
    x = sum((a - e) ** 2 / e for a, e in zip(O, E))
    return dict(x=x, p=math.exp(-x / 2), alpha=-math.expm1(-x / 2), penalty=0.25, nwords=need, name="mrank", O=O)


# ---------------------------------------------------------------- physics
def ising_run(w, nbits, o):
    alg, slen, ns = map(int, o)
    a = w.tolist()
    it = iter(a)
    used = [0]

    def draw():
        used[0] += 1
        try:
            return next(it)
        except StopIteration:
            raise Short("drew only %d words" % len(a))
    L, N = 16, 256
    s = [1] * N
    nn = [((i // L) * L + (i % L + 1) % L, (i // L) * L + (i % L - 1) % L, ((i // L + 1) % L) * L + i % L, ((i // L - 1) % L) * L + i % L) for i in range(N)]
    jc = math.log(1 + math.sqrt(2)) / 2
    # p = 1 - exp(-2 jc) = 2 - sqrt(2), in units of 2^-nbits
    import decimal
    with decimal.localcontext() as c:
        c.prec = 60
        pint = int((2 - decimal.Decimal(2).sqrt()) * (1 << nbits))
    thr = {k: math.exp(-(k - 2) * 4 * jc) * 2.0 ** nbits for k in (2, 3, 4)}
    edge = [0]

    def wolff(i, s0):
        s[i] = -s0
        for q in nn[i]:
            r = draw()
            if abs(r - pint) < (256 if nbits == 32 else 1 << 23) and s[q] == s0:
                edge[0] += 1
            if s[q] == s0 and r <= pint:
                wolff(q, s0)

    def go():
        if alg == 0:
            i = draw() % N
            wolff(i, s[i])
        else:
            for _ in range(N):
                i = draw() % N
                ns_ = sum(s[q] == s[i] for q in nn[i])
                if ns_ < 2:
                    s[i] = -s[i]
                else:
                    r = draw()
                    if abs(r - thr[ns_]) < (256 if nbits == 32 else 1 << 23):
                        edge[0] += 1
                    if r < thr[ns_]:
                        s[i] = -s[i]
    import sys
    sys.setrecursionlimit(10000)
    for _ in range(slen):
        go()
    es, cs = [], []
    for _ in range(ns):
        t1 = t2 = 0
        for _ in range(slen):
            go()
            e = sum((1 if s[i] == s[nn[i][0]] else -1) + (1 if s[i] == s[nn[i][2]] else -1) for i in range(N))
            t1 += e
            t2 += e * e
        m, m2 = t1 / slen, t2 / slen
        es.append(m / N)
        cs.append((m2 - m * m) / N * jc * jc)
    return es, cs, used[0], edge[0]


def ising(w, nbits, o):
    alg, slen, ns = map(int, o)
    es, cs, used, edge = ising_run(w, nbits, o)

    def tz(v, ref):
        mean = sum(v) / ns
        sd = math.sqrt(sum((q - mean) ** 2 for q in v) / (ns - 1))
        return (mean - ref) / (sd / math.sqrt(ns)) if sd else math.copysign(math.inf, mean - ref)
    ze, zc = tz(es, 1.4530649029), tz(cs, 1.4987048885)
    x = zc if abs(zc) > abs(ze) else ze
    f = ns - 1
    return dict(x=x, p=float(sc.stdtr(f, -x)), alpha=float(sc.stdtr(f, x)), penalty=4, nwords=used,
                name="ising2d_metropolis" if alg else "ising2d_wolff", edge=edge, tolx=1e-6, tolp=1e-4)


def usphere(w, nbits, o):
    nd, npts = int(o[0]), int(o[1])
    x = W(w, nd * npts).astype(np.float64).reshape(npts, nd) * 2.0 ** -nbits
    d = np.zeros(npts)
    for k in range(nd):
        d = d + x[:, k] * x[:, k]
    nin = int((d <= 1.0).sum())
    v = math.pi ** (nd / 2) / math.gamma(nd / 2 + 1) / 2.0 ** nd
    z = (nin - int(v * npts)) / math.sqrt(npts * v * (1 - v))
    return dict(x=z, p=norm_sf(z), alpha=norm_cdf(z), penalty=0, nwords=nd * npts, name="usphere")


REF = {f.__name__: f for f in (monobit, nbitwords, bspace, bspacedec, collover, gap, gap16, mod3, sumcoll, hamming_ot,
                               hamming_ot_long, hamming_distr, linearcomp, matrixrank, ising, usphere)}


# ---------------------------------------------------------------- comparison
# ---------------------------------------------------------------- samples of billions of words from a periodic stream
def _fold(f, n, L):
    """f(m) = counts over the first m elements of a sequence with period L (steady after the first L): f(n) for a huge n."""
    q = max(0, (n - L) // L)
    r = n - q * L
    a = f(r)
    if q == 0:
        return a
    b = f(r + L)
    if isinstance(a, list):
        return [[x + q * (y - x) for x, y in zip(p, s)] for p, s in zip(a, b)]
    return a + q * (b - a)


def big(engine, period, nbits, o):
    """reference result when the stream is `period` repeated forever; lengths of periods are powers of 2"""
    L = len(period)
    w = np.tile(period, 4)
    o = [int(v) for v in o]
    if engine == "monobit":
        return monobit_stat(int(_fold(lambda m: int(popcount(w[:m]).sum()), o[0], L)), o[0], nbits)
    if engine == "mod3":
        return mod3_stat(_fold(lambda m: mod3_counts(w, nbits, m), o[0], L), o[0])
    if engine == "hamming_ot":
        nbytes, mode = o
        if mode == 0:
            nt, d, nweight, need = nbytes * 8 // nbits, popcount(w), nbits, nbytes * 8 // nbits + 10
        elif mode == 1:
            nt, d, nweight, need = nbytes, popcount(w.view(np.uint8)), 8, -(-(nbytes + 10) // (nbits // 8))
        elif mode == 2:
            nt, d, nweight = nbytes * 8 // nbits, popcount((w & w.dtype.type(255)).astype(np.uint8)), 8
            need = -(-(nt + 10) // 8) * 8
        else:
            nt, d, nweight = nbytes // nbits, (w & w.dtype.type(1)).astype(np.int64).reshape(-1, 8).sum(axis=1), 8
            need = -(-(nt + 10) // 8) * 64
        P = len(d) // 4
        r = ot_stat(_fold(lambda m: ot_counts(np.concatenate([d, d[:16]]), m, nweight), nt, P), nweight)
        r["nwords"] = need
        return r
    if engine == "hamming_ot_long":
        per = o[1] // nbits
        nt = o[0] // per
        d = popcount(w).reshape(-1, per).sum(axis=1)
        r = ot_stat(_fold(lambda m: ot_counts(np.concatenate([d, d[:16]]), m, o[1]), nt, len(d) // 4), o[1])
        r["nwords"] = (nt + 10) * per
        return r
    if engine == "hamming_distr":
        bl = 1 << o[1]
        n = -(-o[0] // bl) * bl
        return hd_stat(_fold(lambda m: hd_counts(w, nbits, m, o[1]), n, L), nbits, n)
    if engine == "gap":
        shl, ngaps = o
        p = 2.0 ** -shl
        nbins = int(math.log(10.0 / (ngaps * p)) / math.log(1 - p))
        hit = np.flatnonzero(w.astype(np.uint64) < np.uint64(1 << (nbits - shl)))
        H = len(hit) // 4
        lens = np.minimum(np.diff(np.concatenate([[-1], hit])) - 1, nbins)
        q = max(0, (ngaps - H) // H)
        O = _fold(lambda m: np.bincount(lens[:m], minlength=nbins + 1)[:nbins], ngaps, H)
        return gap_stat(O, ngaps, p, int(hit[ngaps - q * H - 1]) + q * L + 1)
    if engine == "gap16":
        nbins = gap16_nbins(o[0])
        return gap16_stat(_fold(lambda m: gap16_counts(w, nbits, m, nbins), o[0], L * nbits // 16), o[0], nbits)
    if engine == "sumcoll":
        a = (period.astype(np.uint64) >> np.uint64(0 if nbits == 32 else 32)).tolist()
        limit, n = 10 << 32, o[0]
        O, words, done = [0] * 50, 0, 0
        # events: a sum closes; afterwards the state is the position of the word that opened the next sum
        seen, trail = {}, []
        pos, s, y = 0, 0, 0
        while True:
            steps = 0
            while True:
                steps += 1
                t = s + a[pos % L]
                pos += 1
                if t > limit or done + steps > n:
                    break
                s, y = t, y + 1
            if done + steps > n:
                words += steps - 1
                break
            O[min(y, 49)] += 1
            done += steps
            words += steps + 1
            s, y = a[pos % L], 1
            pos = pos % L + 1
            if pos in seen and seen is not None:
                d0, w0, O0 = seen[pos]
                k = (n - done) // (done - d0)
                O = [x + k * (x - z) for x, z in zip(O, O0)]
                done, words = done + k * (done - d0), words + k * (words - w0)
                seen = {}
            else:
                seen[pos] = (done, words, list(O))
        return sumcoll_stat(O, words)
    raise KeyError(engine)


def close_p(v, ref, tol=2e-6, abs_tol=1e-11):
    if v != v:
        return ref != ref
    if abs(v - ref) <= abs_tol + tol * abs(ref):
        return True
    if ref < 1e-280:
        return 0 <= v < 1e-270
    if 0 < v < 1e-9 and ref < 1e-9:       # far tail: compare the exponents
        return abs(math.log(v) - math.log(ref)) <= 1e-4 * max(1.0, abs(math.log(ref)))
    return False


def compare(got, ref):
    """list of (field, message)"""
    bad = []
    if got["name"] != ref["name"]:
        bad.append(("name", "name %r, documented %r" % (got["name"], ref["name"])))
    if abs(got["penalty"] - ref["penalty"]) > 1e-12:
        bad.append(("penalty", "penalty %r, documented %r" % (got["penalty"], ref["penalty"])))
    if got["nwords"] != ref["nwords"]:
        bad.append(("nwords", "drew %d words, documented %d" % (got["nwords"], ref["nwords"])))
    x, rx = got["x"], ref["x"]
    if rx is not None:
        if rx != rx:
            if x == x:
                bad.append(("x", "statistic %r, documented NaN" % x))
        elif not (x == rx or abs(x - rx) <= ref.get("tolx", 1e-7) * max(1.0, abs(rx))):
            bad.append(("x", "statistic %.17g, reference %.17g" % (x, rx)))
    tolp = max(ref.get("tolp", 0), 1e-5, 30 * ref.get("tolx", 0))
    for f in ("p", "alpha"):
        if ref[f] is not None and not close_p(got[f], ref[f], tolp):
            bad.append((f, "%s = %.17g, reference %.17g (x = %r)" % (f, got[f], ref[f], x)))
    return bad
