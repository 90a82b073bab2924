"""C28: wide-arithmetic and bit helpers are exact on every platform path."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf

M64, M32 = (1 << 64) - 1, (1 << 32) - 1
M128 = (1 << 128) - 1


def check(ctx):
    ctx.rule = "distinct by (helper, operands); every request runs on the native, the sanitized and the portable path"
    R = ctx.rng

    def word():
        k = R.randrange(9)
        if k == 0:
            return R.choice([0, 1, M64, M64 - 1, 1 << 63, (1 << 63) - 1, M32, M32 + 1, M32 << 32])
        if k == 1:
            return 1 << R.randrange(64)
        if k == 2:
            return M64 ^ (1 << R.randrange(64))
        if k == 3:
            return (1 << R.randint(1, 64)) - 1
        if k == 4:
            return M64 & (M64 << R.randrange(64))
        if k == 5:
            return R.getrandbits(32)
        if k == 6:
            return R.choice([M32, 0, R.getrandbits(32)]) << 32 | R.choice([M32, 0, 1, M32 - 1, R.getrandbits(32)])
        return R.getrandbits(64)
    reqs, exps = [], []

    def add(line, exp):
        reqs.append(line)
        exps.append(exp)

    def h128(v):
        return "%032x" % (v & M128)
    N = ctx.scale(1500, 60000)
    for _ in range(N):
        a, b, c = word(), word(), word()
        add("mul %x %x" % (a, b), h128(a * b))
        for o in ("muladd", "muladd99"):
            add("%s %x %x %x" % (o, a, b, c), h128(a * b + c))
        for o in ("add", "add99"):
            add("%s %x %x %x" % (o, a, b, c), h128((a << 64 | b) + c))
        d, e = word(), word()
        for o in ("mul128", "mul12899"):
            add("%s %x %x %x %x %x" % (o, a, b, c, d, e), h128((a << 64 | b) * (c << 64 | d) + e))
        r = R.randrange(64)

        def rot(x, k, w):
            x &= (1 << w) - 1
            k %= w
            return (x << k | x >> (w - k)) & ((1 << w) - 1)
        rev = lambda x, w: int(bin(x & ((1 << w) - 1) | 1 << w)[3:][::-1], 2)
        add("bits %x %d" % (a, r), "%02x %02x %04x %08x %08x %016x %016x %x %02x %08x %016x %d %d %d" % (
            rot(a, r & 7, 8), rot(a, -(r & 7), 8), rot(a, r & 15, 16), rot(a, r & 31, 32), rot(a, -(r & 31), 32), rot(a, r, 64), rot(a, -r, 64),
            rev(a, 4), rev(a, 8), rev(a, 32), rev(a, 64), 64 - a.bit_length(), bin(a).count("1"), bin(a & 255).count("1")))
    for x in list(range(256)) + [1 << i for i in range(64)] + [(1 << i) - 1 for i in range(1, 65)]:
        r = x % 64
        add("bits %x %d" % (x, r), None)
        a = x
        exps[-1] = "%02x %02x %04x %08x %08x %016x %016x %x %02x %08x %016x %d %d %d" % (
            rot(a, r & 7, 8), rot(a, -(r & 7), 8), rot(a, r & 15, 16), rot(a, r & 31, 32), rot(a, -(r & 31), 32), rot(a, r, 64), rot(a, -r, 64),
            rev(a, 4), rev(a, 8), rev(a, 32), rev(a, 64), 64 - a.bit_length(), bin(a).count("1"), bin(a & 255).count("1"))
    for _ in range(ctx.scale(150, 4000)):
        hi, lo, a, c, n = word(), word(), word(), word(), R.choice([1, 2, 3, 100])
        x = hi << 64 | lo
        for _i in range(n):
            x = (x * a + c) & M128
        add("lcg64 %x %x %x %x %d" % (hi, lo, a, c, n), h128(x) + " 1")
        ah = word()
        x = hi << 64 | lo
        for _i in range(n):
            x = (x * (ah << 64 | a) + c) & M128
        add("lcg128 %x %x %x %x %x %d" % (hi, lo, ah, a, c, n), h128(x) + " 1")
        s = word()
        o = []
        t = s
        for _i in range(n):
            w = ((t >> ((t >> 59) + 5)) ^ t) * 12605985483714917081 & M64
            t = (t * 6364136223846793005 + 1442695040888963407) & M64
            o.append("%016x" % ((w >> 43) ^ w))
        add("pcg %x %d" % (s, n), " ".join(o + ["%016x" % t]))
    builds = [("asan", ()), ("plain", ()), ("asan", ("-DVH_PORTABLE",)), ("plain", ("-DVH_PORTABLE",)), ("generic", ())]
    for fl, ex in builds:
        exe = vf.build("vh_prims", fl, vf.CORE + [vf.HARN + "/vh_prims.c"], extra_flags=list(ex))
        rc, out, err = vf.run([exe], timeout=300, input=("\n".join(reqs) + "\n").encode())
        outs = out.decode().split("\n")
        tag = fl + ("-portable" if ex else "")
        if rc != 0:
            n = min(len(outs) - 1, len(reqs) - 1)
            ctx.violation("abort:%s:%s" % (tag, vf.san_key(err)), "%s rc=%r near %r: %s" % (tag, rc, reqs[n][:200], err[-1500:].decode()), reqs[n])
            continue
        for q, e, o in zip(reqs, exps, outs):
            ctx.case(q)
            ctx.count("ops_" + tag)
            if o.strip() != e:
                ctx.violation("%s:%s" % (tag, q.split()[0]), "%s: %s -> %s, exact %s" % (tag, q, o, e), q)
    for t in ("asan", "plain", "asan-portable", "plain-portable", "generic"):
        ctx.require("ops_" + t, 5000)
    ctx.assumptions = ["Python integers", "the portable path is selected by hiding __SIZEOF_INT128__ and __GNUC__ from the project headers; MSVC/Watcom intrinsics cannot run here"]


if __name__ == "__main__":
    vf.main("C28", check)
