"""What the log of a test has to say: figures recomputed from the recorded words (and from the result returned).

check(engine, w, nbits, opts, res, log) -> ([(field, message)], number of figures compared)"""
import math
import re

import numpy as np
from scipy import special as sc, stats

import ref

NUM = r"([-+]?(?:nan|inf|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?))"


class G(float):
    """a figure recomputed with limited accuracy, shown with 6 significant digits by default"""
    def __new__(cls, v, rel=2e-5, ab=1e-300):
        o = float.__new__(cls, v)
        o.rel, o.ab = rel, ab
        return o

    def ok(self, text):
        v = float(text)
        if math.isnan(self) or math.isnan(v):
            return math.isnan(self) and math.isnan(v)
        if math.isinf(self) or math.isinf(v):
            return v == float(self)
        return abs(v - self) <= self.ab + self.rel * abs(self)


class X:
    """a figure of the result itself: nothing but rounding to the format is allowed"""
    def __init__(self, v, fmt="%g"):
        self.v, self.fmt = v, fmt

    def ok(self, text):
        v, e = float(text), float(self.fmt % self.v)
        return v == e or (math.isnan(v) and math.isnan(e))

    def __repr__(self):
        return self.fmt % self.v


class P(float):
    """a p-value recomputed: relative error that grows with the distance in the tail"""
    def ok(self, text):
        v = float(text)
        if math.isnan(self) or math.isnan(v):
            return math.isnan(self) and math.isnan(v)
        if self < 1e-290 or v < 1e-290:
            return self < 1e-270 and v < 1e-270
        l = abs(math.log(self))
        return abs(math.log(v) - math.log(self)) <= 1e-3 + 1e-4 * l


class N(int):
    def ok(self, text):
        return re.fullmatch(r"[-+]?\d+", text) is not None and int(text) == int(self)


def F(v, d, slack=0.0):
    """printed with d decimals"""
    return G(v, rel=1e-9 + slack, ab=0.5001 * 10.0 ** -d)


class T:
    def __init__(self, s):
        self.s = s

    def ok(self, t):
        return t == self.s

    def __repr__(self):
        return self.s


def l2(n):
    return F(math.log2(n), 2)


def l10(n):
    return F(math.log10(n), 2)


def L(pat, *vals, field=None):
    """a line: `#` stands for a number, `@` for a word, blanks for any blanks"""
    out = []
    for part in re.split(r"(\s+|#|@)", pat):
        if not part:
            continue
        if part.isspace():
            out.append(r"\s+")
        elif part == "#":
            out.append(r"\s*" + NUM)
        elif part == "@":
            out.append(r"(\S+?)")
        else:
            out.append(re.escape(part))
    return (re.compile(r"\s*" + "".join(out) + r"\s*$"), pat, vals, field)


# ---------------------------------------------------------------- expectations per engine
def monobit(w, nbits, o, res):
    n = int(o[0])
    ones = int(ref.popcount(w[:n]).sum())
    return [L("Monobit frequency test"), L("Number of bits: # (2^#)", N(n * nbits), l2(n * nbits)),
            L("sum = #; x = #; p = #", N(ones - n * nbits // 2), X(res["x"]), X(res["p"]))]


def nbitwords(w, nbits, o, res):
    b, avg, nblocks = map(int, o)
    return [L("Byte frequency test") if b == 8 else L("#-bit words frequency test", N(b)),
            L("nblocks = #; block_len = #", N(nblocks), N((1 << b) * avg // (nbits // b))),
            L("K = #, p = #", X(res["x"]), X(res["p"]))]


def bspace(w, nbits, o, res):
    nb, nd, ns, lower = map(int, o)
    out = []
    if nb == 64 and nd == 1 and nbits == 32:
        nb, nd = 32, 2
        out = [L("Birthday spacings test: 1D 64-bit test for 32-bit PRNG"), L("Switching to the 2D 32-bit test")]
    nbt = nb * nd
    ln = len(w) // (nd * ns)
    return out + [L("Birthday spacings test"), L("ndims = #; nbits_per_dim = #; get_lower = #", N(nd), N(nb), N(lower)),
                  L("nsamples = #; len = #, lambda = #", N(ns), N(ln), G(ln ** 3 / (4 * 2.0 ** nbt))),
                  L("x = #; p = #", X(res["x"], "%.0f"), X(res["p"]))]


def bspacedec(w, nbits, o, res):
    step = int(o[0])
    ln = len(w) // (8 * step)
    lam = ln ** 3 / (4 * 2.0 ** 32)
    f = w[:ln * 8 * step:step].astype(np.uint64).reshape(ln, 8)
    lo, hi = f & np.uint64(15), f >> np.uint64(nbits - 4)
    rev = np.array([int(format(i, "04b")[::-1], 2) for i in range(16)], dtype=np.uint64)
    rows = []
    for name, a in (("Lower bits:", lo), ("Higher bits (reversed):", rev[hi.astype(np.int64)]), ("Higher bits (no reverse):", hi)):
        u = np.zeros(ln, dtype=np.uint64)
        for k in range(8):
            u = (u << np.uint64(4)) | a[:, k]
        x = ref.dups(u)
        rows.append(L(name + " x = #; p = #", N(x), P(ref.poisson_p(x, lam))))
    return [L("Birthday spacings test with decimation"), L("ndims = 8; nbits_per_dim = 4; step = #", N(step)),
            L("nsamples = 1; len = #, lambda = #", N(ln), G(lam))] + rows + [
            L("Final result: x = #; p = #", X(res["x"], "%.0f"), X(res["p"]))]


def collover(w, nbits, o, res):
    nb, nd, ns, n, lower = map(int, o)
    states = 2.0 ** (nb * nd)
    lam = (n - nd + 1) / states
    mu = states * (math.expm1(-lam) + lam) if lam > 1e-4 else states * (lam * lam / 2 - lam ** 3 / 6 + lam ** 4 / 24)
    O = [0, 0, 0, 0]
    for i in range(ns):
        f = ref.field(w[i * (8 + n):(i + 1) * (8 + n)], nbits, nb, lower)
        f = np.concatenate([np.zeros(64, dtype=np.uint64), f])
        u = np.zeros(n, dtype=np.uint64)
        for k in range(nd):
            u |= f[72 - k:72 - k + n] << np.uint64((nd - 1 - k) * nb)
        c = np.unique(u, return_counts=True)[1]
        O[0] += int(states) - len(c)
        for k in (1, 2):
            O[k] += int((c == k).sum())
        O[3] += int((c > 2).sum())
    rows = []
    e = math.exp(-lam) * states
    for i in range(4):
        rows.append(L("%d # #" % i, F(O[i] / ns, 0, 1e-12) if ns > 1 else N(O[i]), F(e, 1, 1e-7), field="row %d" % i))
        if ns > 1:
            rows[-1][2][0].ab = 1.001                  # truncated average
        e *= lam / (i + 1)
    return [L("CollisionOver test"), L("ndims = #; nbits_per_dim = #; n = #, get_lower = #", N(nd), N(nb), N(n), N(lower)),
            L("nsamples = #; len = #, mu = # * #", N(ns), N(n), G(mu), N(ns)),
            L("Frequencies table (average per sample)")] + rows + [
            L("lambda = #, mu = # * #", G(lam), G(mu), N(ns)), L("x = #; p = #", X(res["x"]), X(res["p"]))]


def gap(w, nbits, o, res):
    shl, ngaps = int(o[0]), int(o[1])
    p = 2.0 ** -shl
    nbins = int(math.log(10.0 / (ngaps * p)) / math.log(1 - p))
    maxlen = int((math.log(1e-15) - math.log(p)) / math.log(1 - p))
    head = [L("Gap test"), L("alpha = 0.0; beta = #; shl = #;", G(p), N(shl)),
            L("ngaps = # (2^# or 10^#); nbins = #", N(ngaps), l2(ngaps), l10(ngaps), N(nbins)), L("max_gap_len = #", N(maxlen))]
    if math.isnan(res["x"]):
        return head + [L("Generator output doesn't hit the gap! p <= #", X(res["p"]))]
    return head + [L("Values processed: # (2^#)", N(len(w)), F(math.log2(len(w)), 1)), L("x = #; p = #", X(res["x"]), X(res["p"]))]


def gap16(w, nbits, o, res):
    ngaps = int(o[0])
    nbins = ref.gap16_nbins(ngaps)
    tot, with0, tot2, rb = ref.gap16_counts(w, nbits, ngaps, nbins)
    p = 2.0 ** -16
    i = np.arange(nbins)
    pt = p * (1 - p) ** i
    p0 = -np.expm1(i * math.log1p(-p))
    E = ngaps * pt
    z = ref.wh(float(((tot - E) ** 2 / E).sum()), nbins - 1)

    def zbin(k, n, q):
        a = sc.bdtr(k, n, q)
        s = np.where(k >= n, 0.0, sc.bdtrc(k, n, q))
        a = np.where(k >= n, 1.0, a)
        pdf = stats.binom.pmf(k, n, q)
        use = ((s < 1e-10) | (a < 1e-10)) & (pdf > 1e-10)
        s2, a2 = np.where(use, pdf, s), np.where(use, 1 - pdf, a)
        with np.errstate(all="ignore"):
            zz = np.where(s2 < 0.5, -sc.ndtri(s2), sc.ndtri(a2))
        return np.clip(zz, -40, 40)

    def block(zz, k, n, q):
        """the line has to describe one of the gap lengths whose deviation is the largest one (up to rounding errors)"""
        best = float(np.nanmax(np.abs(zz[1:])))
        c = [j for j in range(1, nbins) if abs(zz[j]) >= best - 1e-3 * max(1, best)]
        return [dict(z=G(zz[j], 2e-3, 2e-3), p=P2(ref.norm_sf(zz[j])), alpha=P2(ref.norm_cdf(zz[j])), index=N(j),
                     n=None if n is None else N(n[j]), k=None if k is None else N(k[j]), pt=G(pt[j]), q=None if q is None else G(q[j])) for j in c]
    zt = (tot - E) / np.sqrt(ngaps * pt * (1 - pt))
    B = [("[value ... value] gaps with '0' inside", block(zbin(with0, tot, p0), with0, tot, p0)),
         ("all [value ... value] gaps", block(zt, None, None, None)),
         ("[0 ... value] gaps with 'value' inside", block(zbin(rb, tot2, p0), rb, tot2, p0))]
    out = [L("gap16_count0 test"), L("p = #; ngaps = # (2^# or 10^#); nbins = #", G(p), N(ngaps), l2(ngaps), l10(ngaps), N(nbins)),
           L("z from chi2emp: #; p = #", G(z, 1e-3, 1e-3), P2(ref.norm_sf(z)))]
    for name, alts in B:
        out += [L("Frequency analysis for " + name + ":"), ("alt", name, alts)]
    return out + [L("x = #; p = #", X(res["x"]), X(res["p"]))]


class P2(P):
    """p-value of a deviation known to about 1e-3"""
    def ok(self, text):
        v = float(text)
        if math.isnan(self) or math.isnan(v):
            return math.isnan(self) and math.isnan(v)
        if self < 1e-290 or v < 1e-290:
            return self < 1e-270 and v < 1e-270
        return abs(math.log(v) - math.log(self)) <= 0.02 + 0.01 * abs(math.log(self))


def mod3(w, nbits, o, res):
    n = int(o[0])
    return [L("mod3 test"), L("Sample size: # (2^#) values", N(n), l2(n)), L("z = #; p = #", X(res["x"]), X(res["p"]))]


def sumcoll(w, nbits, o, res):
    n = int(o[0])
    a = (w.astype(np.uint64) >> np.uint64(0 if nbits == 32 else 32)).tolist()
    O = [0] * 50
    s = y = i = 0
    for _ in range(n):
        t = s + a[i]
        i += 1
        if t <= 10 << 32:
            s, y = t, y + 1
        else:
            O[min(y, 49)] += 1
            s, y = a[i], 1
            i += 1
    tot = sum(O)
    df = sum(1 for q in ref.sumcoll_p() if q * tot >= 10.0) - 1
    out = [L("SumCollector test"), L("Number of values: # (2^#)", N(n), G(math.log2(n)))]
    if tot > 0:
        out.append(L("Number of sums: # (2^#)", N(tot), G(math.log2(tot))))
    if df >= 1:
        out.append(L("x = #; p = #; df = #", X(res["x"]), X(res["p"]), N(df)))
    return out


def _codeprobs(nweight):
    pr = stats.binom.pmf(np.arange(nweight + 1), nweight, 0.5)
    code = np.array(ref.CODES[nweight])
    return [float(pr[code == k].sum()) for k in range(4)]


def _ot(digits, nt, nweight, res):
    cp = _codeprobs(nweight)
    cnt = ref.ot_counts(digits, nt, nweight)
    idx = np.arange(1 << 18)
    p = np.ones(1 << 18)
    for j in range(9):
        p = p * np.array(cp)[(idx >> (2 * j)) & 3]
    Pv, C = p.tolist(), cnt.tolist()
    emin = 250.0
    while True:
        Pv, C = ref.reduce_table(Pv, C, emin)
        emin *= 2
        if len(Pv) <= 250000:
            break
    out = [L("Used probabilities for codes:")] + [L("p(%d) = #" % k, F(cp[k], 8)) for k in range(4)]
    return out + [L("Number of tuples types: #", N(1 << 18)), L("Number of bins after reduction: #", N(len(Pv))),
                  L("zemp = #, p = #", X(res["x"]), X(res["p"]))]


def hamming_ot(w, nbits, o, res):
    nbytes, mode = int(o[0]), int(o[1])
    if mode == 0:
        nt, d, nweight = nbytes * 8 // nbits, ref.popcount(w), nbits
    elif mode == 1:
        nt, d, nweight = nbytes, ref.popcount(w.view(np.uint8)), 8
    elif mode == 2:
        nt, d, nweight = nbytes * 8 // nbits, ref.popcount((w & 255).astype(np.uint8)), 8
    else:
        nt = nbytes // nbits
        d, nweight = (w[:len(w) // 8 * 8] & 1).astype(np.int64).reshape(-1, 8).sum(axis=1), 8
    text = [L("Mode: process #-bit words of PRNG output directly", N(nbits)), L("Mode: process PRNG output as a stream of bytes"),
            L("Mode: byte stream made of 8 lower bits (bit 7..0) of PRNG values"), L("Mode: byte stream made of lower bits (bit 0) of PRNG values")]
    return [L("Hamming weights based tests (overlapping tuples)"),
            L("Sample size, bytes: # (2^# or 10^#)", N(nbytes), l2(nbytes), l10(nbytes)),
            L("Tuples to be generated: # (2^# or 10^#)", N(nt), l2(nt), l10(nt)), text[mode]] + _ot(d[:nt + 10], nt, nweight, res)


def hamming_ot_long(w, nbits, o, res):
    nvalues, size = int(o[0]), int(o[1])
    per = size // nbits
    nt = nvalues // per
    d = ref.popcount(w[:(nt + 10) * per]).reshape(-1, per).sum(axis=1)
    return [L("Hamming weights based test (overlapping tuples), long version"),
            L("Sample size, values: # (2^# or 10^#)", N(nvalues), l2(nvalues), l10(nvalues)),
            L("Word size, bits: #", N(size))] + _ot(d, nt, size, res)


def hamming_distr(w, nbits, o, res):
    nvalues, nlevels = int(o[0]), int(o[1])
    bl = 1 << nlevels
    n = -(-nvalues // bl) * bl
    rows = []
    for pair in ref.hd_counts(w, nbits, n, nlevels):
        nb = len(pair[0])
        pr = stats.binom.pmf(np.arange(nb + 1), nb, 0.5)
        v = [N(nb)]
        for c in pair:
            e = c.sum() * pr[:nb]
            use = e > 25.0
            df = int(use.sum())
            z = float(ref.wh(((c[use] - e[use]) ** 2 / e[use]).sum(), df)) / 1.3 if df else math.nan
            v += [F(z, 3, 1e-6), P3(ref.norm_sf(z))]
        rows.append(L("# | # # | # #", *v, field="row of %d bits" % nb))
    return [L("Hamming weights distribution test (histogram)"),
            L("Sample size, values: # (2^# or 10^#)", N(nvalues), l2(nvalues), l10(nvalues)),
            L("Blocks analysis results")] + rows + [L("Final: z = #, p = #", X(res["x"], "%.3f"), X(res["p"], "%.3g"))]


class P3(P):
    """printed with 3 significant digits"""
    def ok(self, text):
        v = float(text)
        if math.isnan(self) or math.isnan(v):
            return math.isnan(self) and math.isnan(v)
        if self < 1e-290 or v < 1e-290:
            return self < 1e-270 and v < 1e-270
        return abs(math.log(v) - math.log(self)) <= 6e-3 + 1e-4 * abs(math.log(self))


def linearcomp(w, nbits, o, res):
    n, pos = int(o[0]), int(o[1])
    pos = nbits - 1 if pos == -1 else nbits // 2 - 1 if pos == -2 else pos
    bits = ((w[:n].astype(np.uint64) >> np.uint64(pos)) & np.uint64(1)).tolist()
    lc = ref.bm(bits)
    t = (n + 1) / 2 - lc if n & 1 else lc - n / 2
    return [L("Linear complexity test"), L("nbits: #; bitpos: #", N(n), N(pos)), L("L = #; T = #; p = #", G(lc, 6e-6), G(t, 6e-6, 1e-9), X(res["p"]))]


def matrixrank(w, nbits, o, res):
    n, mx = int(o[0]), int(o[1])
    per_mat = n * n // 8
    raw = ((w & 255).astype(np.uint8) if mx == 8 else w.view(np.uint8)).tobytes()
    O = [0, 0, 0]
    mn = n + 1
    for i in range(64):
        mat = raw[i * per_mat:(i + 1) * per_mat]
        r = ref.rank_gf2([int.from_bytes(mat[j * n // 8:(j + 1) * n // 8], "little") for j in range(n)])
        O[max(0, r - (n - 2))] += 1
        mn = min(mn, r)
    rows = [L("# # #", N(n - 2 + i), N(O[i]), G(64 * (0.1284, 0.5776, 0.2888)[i], 6e-4), field="row %d" % i) for i in range(3)]
    return [L("Matrix rank test"), L("n = #. Number of matrices: #; max_nbits: #", N(n), N(64), N(mx))] + rows + [
            L("Minimal observed rank: #", N(mn)), L("x = #; p = #; 1-p = #", X(res["x"]), X(res["p"]), X(res["alpha"]))]


def ising(w, nbits, o, res):
    alg, slen, ns = map(int, o)
    es, cs, _, edge = ref.ising_run(w, nbits, o)
    if edge:
        return []                    # a draw too close to a threshold: the path is not known

    def line(name, v, r):
        mean = sum(v) / ns
        sd = math.sqrt(sum((q - mean) ** 2 for q in v) / (ns - 1))
        if sd < 1e-9:
            return []
        z = (mean - r) / (sd / math.sqrt(ns))
        return [L(name + "_mean = #; " + name + "_std = #; z = #; p = #", G(mean, 1e-6, 1e-9), G(sd, 1e-6, 1e-9), G(z, 1e-5, 1e-7), P3(float(sc.stdtr(ns - 1, -z))))]
    return ([L("Ising 2D model test"), L("L = #, algorithm = @, sample_len = #, nsamples = #", N(16), T("ising2d_metropolis" if alg else "ising2d_wolff"), N(slen), N(ns))] +
            [L("# of #: e = #, cv = #", N(i + 1), N(ns), F(es[i], 8), F(cs[i], 8, 1e-7)) for i in range(ns)] +
            line("e", es, 1.4530649029) + line("cv", cs, 1.4987048885))


def usphere(w, nbits, o, res):
    nd, npts = int(o[0]), int(o[1])
    x = w[:nd * npts].astype(np.float64).reshape(npts, nd) * 2.0 ** -nbits
    d = np.zeros(npts)
    for k in range(nd):
        d = d + x[:, k] * x[:, k]
    nin = int((d <= 1.0).sum())
    v = math.pi ** (nd / 2) / math.gamma(nd / 2 + 1) / 2.0 ** nd
    return [L("UnitSphereVolume test"), L("ndims = #; nvalues = # (10^# or 2^#)", N(nd), N(npts), l10(npts), l2(npts)),
            L("v_num = #, v_theor = #", G(nin / npts, 1e-9, 1e-15), G(v, 1e-9)), L("z = #, p = #", X(res["x"]), X(res["p"]))]


def birthday(w, nbits, o, res):
    n, e = int(o[0]), int(o[1])
    raw = n << e
    return [L("Sample size: 2^# values (2^# bytes)", l2(n), l2(8.0 * n)), L("Shift: # bits", N(e)),
            L("Raw sample size: 2^# values (2^# bytes)", l2(raw), l2(8.0 * raw)), L("lambda = #", G(n * n / 2.0 ** (65 - e))), L("x = # (ndups); p = #; 1-p=#", X(res["x"]), X(res["p"]), X(res["alpha"]))]


LOG = {f.__name__: f for f in (monobit, nbitwords, bspace, bspacedec, collover, gap, gap16, mod3, sumcoll, hamming_ot,
                               hamming_ot_long, hamming_distr, linearcomp, matrixrank, ising, usphere, birthday)}


def check(engine, w, nbits, opts, res, log):
    lines = [l for l in log if l.strip()]
    return match(LOG[engine](w, nbits, opts, res), lines)


def match(exp, lines):
    bad, n, pos = [], 0, 0
    for e in exp:
        if e[0] == "alt":
            _, name, alts = e
            b, k, pos = alt(name, alts, lines, pos)
            bad += b
            n += k
            continue
        rx, pat, vals, field = e
        for j in range(pos, len(lines)):
            m = rx.match(lines[j])
            if m:
                break
        else:
            bad.append((field or pat, "no line `%s` in the log" % pat))
            continue
        pos = j + 1
        n += max(1, len(vals))
        for t, v in zip(m.groups(), vals):
            if not v.ok(t):
                bad.append((field or pat, "the log says `%s`, the value is %r" % (lines[j].strip(), v if isinstance(v, (X, T)) else (int(v) if isinstance(v, N) else float(v)))))
    return bad, n


A1 = L("z_max = #; p = #; alpha = #; index = #")[0]
A2 = L("ngaps_total = #; ngaps_with0 = #")[0]
A3 = L("p_total = #; p_with0 = #")[0]


def alt(name, alts, lines, pos):
    """a group of lines that has to describe one of the candidates"""
    if pos >= len(lines) or not A1.match(lines[pos]):
        return [(name, "no line with z_max")], 0, pos
    z = A1.match(lines[pos]).groups()
    text = [lines[pos].strip()]
    pos += 1
    more = []
    if alts[0]["n"] is not None:
        for rx in (A2, A3):
            if pos >= len(lines) or not rx.match(lines[pos]):
                return [(name, "no line with the frequencies")], 4, pos
            more += rx.match(lines[pos]).groups()
            text.append(lines[pos].strip())
            pos += 1
    for a in alts:
        if all(v.ok(t) for v, t in zip((a["z"], a["p"], a["alpha"], a["index"]), z)) and \
                (not more or all(v.ok(t) for v, t in zip((a["n"], a["k"], a["pt"], a["q"]), more))):
            return [], 4 + len(more), pos
    return [(name, "the log says `%s`, the largest deviation is %s" % ("; ".join(text), {k: (int(v) if isinstance(v, N) else float(v)) for k, v in alts[0].items() if v is not None}))], 4 + len(more), pos


# ---------------------------------------------------------------- logs of whole runs
def _f(pat):
    return L(pat)[0]


# kind of test in battery files -> (title line, last line(s) with the statistic and the p-value)
BLOCK = {
    "monobit_freq": (_f("Monobit frequency test"), [_f("sum = #; x = #; p = #")], 1),
    "nbit_words_freq": (re.compile(r"\s*(Byte frequency test|\d+-bit words frequency test)$"), [_f("K = #, p = #")], 0),
    "bspace_nd": (_f("Birthday spacings test"), [_f("x = #; p = #")], 0),
    "bspace4_8d_decimated": (_f("Birthday spacings test with decimation"), [_f("Final result: x = #; p = #")], 0),
    "collisionover": (_f("CollisionOver test"), [_f("x = #; p = #")], 0),
    "gap": (_f("Gap test"), [_f("x = #; p = #")], 0),
    "mod3": (_f("mod3 test"), [_f("z = #; p = #")], 0),
    "sumcollector": (_f("SumCollector test"), [_f("x = #; p = #; df = #")], 0),
    "hamming_distr": (_f("Hamming weights distribution test (histogram)"), [_f("Final: z = #, p = #")], 0),
    "hamming_ot": (_f("Hamming weights based tests (overlapping tuples)"), [_f("zemp = #, p = #")], 0),
    "hamming_ot_long": (_f("Hamming weights based test (overlapping tuples), long version"), [_f("zemp = #, p = #")], 0),
    "linearcomp": (_f("Linear complexity test"), [re.compile(r"\s*L = " + NUM + r"; T = \S+; p = " + NUM + "$")], 0),
    "matrixrank": (_f("Matrix rank test"), [_f("x = #; p = #; 1-p = #")], 0),
    "ising2d": (_f("Ising 2D model test"), [re.compile(r"\s*e_mean .* z = +" + NUM + "; p = +" + NUM + "$"), re.compile(r"\s*cv_mean .* z = +" + NUM + "; p = +" + NUM + "$")], 0),
    "usphere": (_f("UnitSphereVolume test"), [_f("z = #, p = #")], 0),
}
TITLES = [v[0] for v in BLOCK.values()]


def block(kind, lines):
    """the statistics and p-values with which the log of one test ends: ([(x, p)], None) or (None, message)"""
    title, finals, i0 = BLOCK[kind]
    seen = [k for k, v in BLOCK.items() for l in lines if v[0].match(l)]
    if not lines or not title.match(lines[0]) or seen != [kind]:
        return None, "the log of a %s test has the titles %r and starts with %r" % (kind, seen, lines[:1])
    out = []
    for f in finals:
        m = [f.match(l) for l in lines]
        m = [q for q in m if q]
        if len(m) != 1:
            return None, "%d lines with the result of a %s test" % (len(m), kind)
        out.append((m[0].group(1 + i0), m[0].group(2 + i0)))
    return out, None
