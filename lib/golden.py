"""Digests of generator streams: many seeds (random, degenerate), several lengths, bulk sums."""
import random

import host
import vf
SKIP = {"rdrand"}
LONG = 1 << 22


def seedsets():
    Q = random.Random(20250712)
    s = []

    def L(v):
        s.append("L " + " ".join("%x" % x for x in v))
    L([0] * 400)
    L([2 ** 64 - 1] * 400)
    L([1 << 63] * 400)
    L([1] * 400)
    L([0x5555555555555555, 0xAAAAAAAAAAAAAAAA] * 200)
    L(range(400))
    L([(i << 32) for i in range(400)])
    for i in range(10):       # one degenerate seed among random ones
        v = [Q.getrandbits(64) for _ in range(16)]
        v[i] = Q.choice([0, 0, 2 ** 64 - 1])
        L(v)
    for i in range(6):        # only halves / few bits are set
        L([Q.getrandbits(32) << Q.choice([0, 32]) for _ in range(40)])
        L([1 << Q.randrange(64) for _ in range(40)])
    for i in range(6):
        L([Q.choice([0, 0, 1, 2 ** 64 - 1, Q.getrandbits(64), 0xFFFFFFFF, 0xFFFFFFFF00000000]) for _ in range(40)])
    return s


SETS = seedsets()


def commands(param):
    c = ["P " + param, "I"]
    for k in (1, 2, 3):
        c += ["K %d" % k, "N 0", "G 0 1000", "G 0 9000", "G 0 60000", "F 0"]
    for s in SETS:
        c += [s, "N 0", "G 0 1500", "F 0"]
    c += ["K 4", "N 0", "U 0 %d" % LONG, "G 0 100", "F 0"]
    return c


def run(h, plugin, param):
    a = host.session(h, plugin, commands(param), timeout=300)
    if a.rc != 0:
        return "exit %s %s" % (a.rc, a.lines[-1:])
    if "null" in a.lines[3]:
        return "null"
    gs = [host.kv(q)["hash"] for q in a.lines if q.startswith("G ")]
    return {"nbits": int(a.lines[1].split("|")[1]), "K": gs[:9], "S": [x[-8:] for x in gs[9:-1]], "U": next(q[2:] for q in a.lines if q.startswith("U ")), "E": gs[-1]}


def deep_n(name, param):
    """words for the long sum: over the wrap of 32-bit counters where that is quick"""
    return 1 << 32


def deep(h, plugin, name, param):
    n = deep_n(name, param)
    c = ["P " + param, "I", "K 9", "N 0", "U 0 %d" % n, "G 0 70000"]
    a = host.session(h, plugin, c, timeout=3000)
    if a.rc != 0:
        return None
    return [n, a.lines[4][2:], host.kv(a.lines[5])["hash"]]


CTRSETS = [[0x11, 0x2222222222222222, 0x33333333deadbeef, 0x4444444444444444, 5, 6, 7, 8, 9], [0x9E3779B97F4A7C15 * (i + 1) & (2 ** 64 - 1) for i in range(40)]]


def ctr_build():
    return vf.build("vh_ctr", "fast", [vf.HARN + "/vh_ctr.c"])


def overflow(exe, plugin, param, seeds):
    """[(B32 | B64, position, outputs)] around the overflow of the block counter; [] when no counter is seen in the state"""
    rc, out, err = vf.run([exe, plugin, param], input=" ".join("%x" % x for x in seeds).encode(), timeout=100)
    if rc != 0:
        return []
    r = []
    for l in out.decode().split("\n"):
        q = l.split()
        if q and q[0] in ("B32", "B64"):
            r.append((q[0], int(q[1], 16), [int(x, 16) for x in q[2:]]))
    return r


def overflow_digests(exe, plugin, param):
    d = {}
    for i, s in enumerate(CTRSETS):
        for kind, x, w in overflow(exe, plugin, param, s):
            if kind == "B64" and "ctr32" in param:
                continue                                   # a 32-bit counter by design: such a state is not reachable
            d["%d:%s:%x:%d" % (i, kind, x, len(w))] = "%x" % host.ghash(w)
    return d
