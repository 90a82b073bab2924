"""Documented contents of the built-in batteries (docs/tests.md, shipped batscripts), as (name, engine, options) where
the option string is the one the recorded engines of harness/vh_mock.c log."""
N50 = 50000000


def _bs(name, bits, dims, ns, lower=1):
    return (name, "bspace", "%d,%d,%d,%d" % (bits, dims, ns, lower))


def _co(name, bits, dims, ns, lower=1):
    return (name, "collover", "%d,%d,%d,%d,%d" % (bits, dims, ns, N50, lower))


BITPOS = {"high": -1, "low": -2, "mid": -3}
HMODE = {"bytes": 0, "bytes_low1": 1, "bytes_low8": 2, "values": 3}


def _freq():
    return [("monobit_freq", "monobit", str(1 << 28)), ("byte_freq", "nbitwords", "8,1024,4096")]


W16 = ("word16_freq", "nbitwords", "16,32,4096")


def _lc(nbits, which):
    return [("linearcomp_" + w, "linearcomp", "%d,%s" % (nbits, w)) for w in which]


def _long(nv):
    return [("hamming_ot_u%d" % w, "hamming_ot_long", "%d,%d" % (nv, w)) for w in (128, 256, 512)]


def _hw(nb):
    return [("hamming_distr", "hamming_distr", "%d,10" % nb), ("hamming_ot", "hamming_ot", "%d,bytes" % nb),
            ("hamming_ot_low1", "hamming_ot", "%d,bytes_low1" % nb), ("hamming_ot_low8", "hamming_ot", "%d,bytes_low8" % nb),
            ("hamming_ot_values", "hamming_ot", "%d,values" % nb)] + _long(nb)


def _big(ns64, nsN, ns_nd, step, nco, g8, g16, extra_gap):
    t = _freq() + [W16, _bs("bspace64_1d", 64, 1, ns64), _bs("bspace32_1d", 32, 1, 8192), _bs("bspace32_1d_high", 32, 1, 8192, 0),
                   _bs("bspace32_2d", 32, 2, nsN), _bs("bspace32_2d_high", 32, 2, nsN, 0)]
    for b, d in ((21, 3), (16, 4), (8, 8)):
        t += [_bs("bspace%d_%dd" % (b, d), b, d, ns_nd), _bs("bspace%d_%dd_high" % (b, d), b, d, ns_nd, 0)]
    t += [("bspace4_8d_dec", "bspacedec", str(step)), _bs("bspace4_16d", 4, 16, ns_nd), _bs("bspace4_16d_high", 4, 16, ns_nd, 0)]
    for b, d in ((20, 2), (13, 3), (8, 5), (5, 8)):
        t += [_co("collover%d_%dd" % (b, d), b, d, nco), _co("collover%d_%dd_high" % (b, d), b, d, nco, 0)]
    t += [("gap_inv8", "gap", "3,%d" % g8), ("gap_inv512", "gap", "9,10000000")] + extra_gap + [("gap16_count0", "gap16", str(g16))]
    return t


EXPRESS = [("byte_freq", "nbitwords", "8,256,256"), _bs("bspace32_1d", 32, 1, 1024), _bs("bspace8_4d", 8, 4, 256),
           _bs("bspace4_8d", 4, 8, 128), ("bspace4_8d_dec", "bspacedec", "128")] + _lc(10000, ("high", "low"))
BRIEF = (_freq() + [_bs("bspace64_1d", 64, 1, 40), _bs("bspace32_1d", 32, 1, 4096), _bs("bspace32_1d_high", 32, 1, 4096, 0),
                    _bs("bspace32_2d", 32, 2, 5), _bs("bspace21_3d", 21, 3, 5), _bs("bspace16_4d", 16, 4, 5), _bs("bspace8_8d", 8, 8, 5),
                    ("bspace4_8d_dec", "bspacedec", "4096"), _co("collover20_2d", 20, 2, 3), _co("collover13_3d", 13, 3, 3),
                    _co("collover8_5d", 8, 5, 3), _co("collover5_8d", 5, 8, 3), ("gap_inv8", "gap", "3,200000000"),
                    ("gap_inv512", "gap", "9,10000000"), ("gap16_count0", "gap16", "100000000"),
                    ("hamming_distr", "hamming_distr", "%d,10" % (1 << 28)), ("hamming_ot_low1", "hamming_ot", "%d,bytes_low1" % (1 << 30)),
                    ("hamming_ot_values", "hamming_ot", "%d,values" % (1 << 28)), ("hamming_ot_u128", "hamming_ot_long", "%d,128" % (1 << 28))]
         + _lc(50000, ("high", "mid", "low")) + [("mod3", "mod3", str(1 << 26))])
DEFAULT = (_big(100, 10, 10, 1 << 18, 5, 500000000, 500000000, []) + _hw(1 << 30) + _lc(100000, ("high", "mid", "low"))
           + [("matrixrank_4096", "matrixrank", "4096,64"), ("matrixrank_4096_low8", "matrixrank", "4096,8"), ("mod3", "mod3", str(1 << 28))])
FULL = (_big(250, 250, 200, 1 << 18, 50, 1000000000, 1000000000, [("gap_inv1024", "gap", "10,100000000")]) + _hw(1 << 33)
        + _lc(1000000, ("high", "mid", "low"))
        + [("matrixrank_%d%s" % (n, s), "matrixrank", "%d,%d" % (n, b)) for n in (4096, 8192) for s, b in (("", 64), ("_low8", 8))]
        + [("mod3", "mod3", str(1 << 30)), ("sumcollector", "sumcoll", "20000000000")])
ALL = {"express": EXPRESS, "brief": BRIEF, "default": DEFAULT, "full": FULL}
