"""Model of the battery file format: which keys a test has, the accepted ranges, and the options an engine must receive."""
import re
P50, P40, P30 = 1 << 50, 1 << 40, 1 << 30
# test -> (engine of the recorder, [(key, lo, hi) | (key, (words...))], option string)
SPEC = {
    "bspace_nd": ("bspace", [("nbits_per_dim", 1, 64), ("ndims", 1, 64), ("nsamples", 1, P30), ("get_lower", 0, 1)], "%(nbits_per_dim)s,%(ndims)s,%(nsamples)s,%(get_lower)s"),
    "bspace4_8d_decimated": ("bspacedec", [("step", 1, P30)], "%(step)s"),
    "collisionover": ("collover", [("nbits_per_dim", 1, 64), ("ndims", 1, 64), ("nsamples", 1, P30), ("get_lower", 0, 1), ("n", 1000, P30)],
                      "%(nbits_per_dim)s,%(ndims)s,%(nsamples)s,%(n)s,%(get_lower)s"),
    "gap": ("gap", [("shl", 1, 32), ("ngaps", 10000, P40)], "%(shl)s,%(ngaps)s"),
    "gap16_count0": ("gap16", [("ngaps", 10000000, P40)], "%(ngaps)s"),
    "hamming_distr": ("hamming_distr", [("nvalues", 65536, P50), ("nlevels", 1, 20)], "%(nvalues)s,%(nlevels)s"),
    "hamming_ot": ("hamming_ot", [("nbytes", 65536, P50), ("mode", ("values", "bytes", "bytes_low8", "bytes_low1"))], "%(nbytes)s,%(mode)s"),
    "hamming_ot_long": ("hamming_ot_long", [("nvalues", 65536, P50), ("wordsize", ("w128", "w256", "w512", "w1024"))], "%(nvalues)s,%(wordsize)s"),
    "ising2d": ("ising", [("sample_len", 100, 10 ** 10), ("nsamples", 3, 100000), ("algorithm", ("wolff", "metropolis"))], "%(algorithm)s,%(sample_len)s,%(nsamples)s"),
    "linearcomp": ("linearcomp", [("nbits", 8, P30), ("bitpos", None)], "%(nbits)s,%(bitpos)s"),
    "matrixrank": ("matrixrank", [("max_nbits", 8, 64), ("n", 256, 65536)], "%(n)s,%(max_nbits)s"),
    "mod3": ("mod3", [("nvalues", 100000, P50)], "%(nvalues)s"),
    "monobit_freq": ("monobit", [("nvalues", 1024, P50)], "%(nvalues)s"),
    "nbit_words_freq": ("nbitwords", [("bits_per_word", 1, 16), ("average_freq", 8, 1 << 20), ("nblocks", 16, P30)], "%(bits_per_word)s,%(average_freq)s,%(nblocks)s"),
    "sumcollector": ("sumcoll", [("nvalues", 100000, P50)], "%(nvalues)s"),
    "usphere": ("usphere", [("ndims", 2, 20), ("npoints", 1000, P40)], "%(ndims)s,%(npoints)s"),
}
BITPOS = ("low", "mid", "high")


def combo_ok(test, v):
    """combinations the format refuses although every value is in its own range"""
    if test == "bspace_nd":
        return v["nbits_per_dim"] * v["ndims"] <= 64
    if test == "collisionover":
        return v["nbits_per_dim"] * v["ndims"] <= 63
    if test == "gap":
        return (v["ngaps"] >> v["shl"]) >= 16
    if test == "matrixrank":
        return v["n"] % 256 == 0
    if test == "nbit_words_freq":
        return (v["average_freq"] << v["bits_per_word"]) >= 64 // v["bits_per_word"]
    return True


def intval(t):
    """(value, certain): the accepted notation is an optional sign, digits and '_' separators"""
    if re.match(r"^[+-]?[0-9][0-9_]*$", t):
        v = int(t.replace("_", ""))
        return (v if abs(v) < (1 << 63) - 1 else None), True
    if re.match(r"^[+-]?_*[0-9]", t.strip("_")) or re.match(r"^[_+-]*[0-9]", t):
        return None, False          # e.g. 12abc, _1: not specified
    return None, True


def options(test, kv):
    """(engine, option string) | None when the description is invalid | 'unsure'"""
    eng, keys, fmt = SPEC[test]
    v, unsure, bad = {}, False, False
    for k in keys:
        t = kv.get(k[0])
        if t is None:
            bad = True
            continue
        if k[0] == "bitpos":
            if t in BITPOS:
                v["bitpos"] = t
                continue
            lo, hi = 0, 63
        elif len(k) == 2:
            if t not in k[1]:
                bad = True
            v[k[0]] = t
            continue
        else:
            lo, hi = k[1:]
        x, certain = intval(t)
        if not certain:
            unsure = True
        elif x is None or not lo <= x <= hi:
            bad = True
        else:
            v[k[0]] = x
    if bad:
        return None
    if unsure:
        return "unsure"
    if not combo_ok(test, v):
        return None
    if test == "hamming_ot_long":
        v["wordsize"] = v["wordsize"][1:]
    if v.get("bitpos") == 0:
        v["bitpos"] = "low"
    return eng, fmt % v


def in_range(eng, opts):
    """does an engine call carry values inside the ranges of the format?"""
    for test, (e, keys, fmt) in SPEC.items():
        if e != eng:
            continue
        names = re.findall(r"%\((\w+)\)s", fmt)
        vals = dict(zip(names, opts.split(",")))
        if test == "hamming_ot_long":
            vals["wordsize"] = "w" + vals["wordsize"]
        return options(test, vals) not in (None, "unsure")
    return False


def parse(data):
    """Reference reading of a file. Returns ('ok', battery, [(name, eng, opts)]) | ('bad', why) | ('unsure', why)."""
    if b"\0" in data:
        return "unsure", "NUL byte"
    toks = []
    unsure = None
    for ln in data.split(b"\n"):
        if len(ln) >= 505:
            if len(ln) > 520 and b"#" not in ln:
                return "bad", "long line"
            return "unsure", "long line"
        ln = ln.split(b"#", 1)[0]
        if any(c >= 128 for c in ln):
            unsure = "non-ASCII byte"
        if any(c < 32 and c not in (9, 13) for c in ln):
            unsure = "control byte"
        toks += ln.decode("latin-1").replace("\r", " ").replace("\t", " ").split()
    if unsure:
        return "unsure", unsure
    bat, tests, i = "CUSTOM", [], 0
    bad = None
    cur = None
    for t in toks:
        if any(len(q) > 63 for q in t.split("=", 1)):
            return "unsure", "long token"
        if cur is None:
            if t == "end":
                bad = "end without entry"
                break
            if "=" in t:
                unsure = "entry name with ="
            cur = (t, {})
        elif t == "end":
            if cur[0] == "battery":
                if "name" not in cur[1]:
                    bad = "battery without name"
                    break
                bat = cur[1]["name"]
                if not bat:
                    unsure = "empty battery name"
            else:
                tests.append(cur)
            cur = None
        elif "=" not in t:
            bad = "token without ="
            break
        else:
            k, x = t.split("=", 1)
            if k in cur[1] and cur[1][k] != x:
                unsure = "duplicate key"
            cur[1].setdefault(k, x)
    if bad:
        return ("unsure", unsure) if unsure else ("bad", bad)
    if cur is not None:
        return ("unsure", unsure) if unsure else ("bad", "unclosed entry")
    if not tests:
        return ("unsure", unsure) if unsure else ("bad", "no tests")
    res = []
    for name, kv in tests:
        if kv.get("test") not in SPEC:
            bad = "unknown or missing test"
            break
        o = options(kv["test"], kv)
        if o is None:
            bad = "bad parameter"
            break
        if o == "unsure":
            unsure = "number notation"
            continue
        if any(k not in [q[0] for q in SPEC[kv["test"]][1]] + ["test"] for k in kv):
            unsure = unsure or "unknown key"
        res.append((name,) + o)
    if unsure:
        return "unsure", unsure
    if bad:
        return "bad", bad
    return "ok", bat, res


# ------------------------------------------------------------------ generation
def rnd_value(R, lo, hi):
    import math
    c = R.random()
    if c < 0.12:
        return lo
    if c < 0.24:
        return hi
    if c < 0.3:
        return min(hi, lo + 1)
    if c < 0.36:
        return max(lo, hi - 1)
    return max(lo, min(hi, int(math.exp(R.uniform(math.log(lo + 1), math.log(hi + 1))))))


def rnd_test(R):
    """(test, {key: text}) with values in range"""
    while True:
        t = R.choice(list(SPEC))
        v, txt = {}, {}
        for k in SPEC[t][1]:
            if k[0] == "bitpos":
                v[k[0]] = R.choice(list(BITPOS) + [0, 63, R.randint(0, 63)])
            elif len(k) == 2:
                v[k[0]] = R.choice(k[1])
            else:
                v[k[0]] = rnd_value(R, k[1], k[2])
        if t == "matrixrank":
            v["n"] = 256 * R.randint(1, 256)
        if t in ("bspace_nd", "collisionover") and R.random() < 0.9:
            m = 64 if t == "bspace_nd" else 63
            v["ndims"] = R.randint(1, max(1, m // v["nbits_per_dim"]))
            if v["nbits_per_dim"] * v["ndims"] > m:
                v["nbits_per_dim"] = R.randint(1, m)
                v["ndims"] = R.randint(1, m // v["nbits_per_dim"])
        if not combo_ok(t, v):
            continue
        for k, x in v.items():
            s = str(x)
            if isinstance(x, int) and R.random() < 0.3:
                s = "{:_}".format(x)
            elif isinstance(x, int) and x > 9 and R.random() < 0.05:
                s = s[0] + "__" + s[1:] + "_"
            txt[k] = s
        return t, txt


NAMECH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.+:/%,;()[]{}<>*&^$@!?|~'"


def rnd_name(R, maxlen=63):
    while True:
        n = R.choice([R.randint(1, 12), R.randint(1, 20), R.randint(20, maxlen), maxlen])
        s = "".join(R.choice(NAMECH) for _ in range(n)).replace("%", "p")
        if s not in ("end", "battery"):
            return s


def rnd_file(R, ntests=None):
    """(bytes, battery name, [(name, eng, opts)])"""
    n = ntests or R.choice([1, 1, 2, 3, 5, 8, R.randint(1, 60)])
    eol = R.choice(["\n", "\n", "\r\n"])
    bat = "CUSTOM"
    ents = []
    for _ in range(n):
        t, kv = rnd_test(R)
        nm = rnd_name(R)
        ents.append((nm, [("test", t)] + list(kv.items()), options(t, kv)))
    out, exp = [], []
    pos = R.choice([0, 0, 0, None, R.randint(0, n)])
    for i in range(n + 1):
        if pos == i:
            bat = rnd_name(R, 60)
            out.append((["battery", "name=" + bat, "end"]))
        if i < n:
            nm, kvs, o = ents[i]
            if R.random() < 0.5:
                R.shuffle(kvs)
            out.append([nm] + ["%s=%s" % q for q in kvs] + ["end"])
            exp.append((nm,) + o)
    txt = ""
    style = R.randrange(4)
    cm = lambda: "#" + R.choice(["", " comment", " end", "=x end battery name=q end", "\xc3\xa9\xff", "###", " tab\there"])
    for e in out:
        ln = ""
        for k, tk in enumerate(e):
            ln += ("" if k == 0 and style != 1 else R.choice([" ", " ", "\t", "   ", " \t "]) if style else " ") + tk
            if style == 2 and R.random() < 0.4 or style == 3 or len(ln) > 380:
                txt += ln + (R.choice(["", " ", "\t", " " + cm(), cm() if False else ""]) if style else "") + eol
                ln = ""
                if R.random() < 0.1:
                    txt += R.choice([cm(), "", "   ", "\t"]) + eol
        if style == 1 and R.random() < 0.2 and len(ln) < 250:
            txt += ln + " "
            if len(txt.split(eol)[-1]) > 150:
                txt += eol
            continue
        txt += ln + (R.choice(["", " ", " " + cm()]) if style else "") + eol
        if R.random() < 0.2:
            txt += R.choice([cm(), "", "   ", "\t"]) + eol
    if R.random() < 0.3:
        txt = cm() + eol + eol + txt
    if R.random() < 0.3 and txt.endswith(eol):
        txt = txt[:-len(eol)]
    return txt.encode("latin-1"), bat, exp
