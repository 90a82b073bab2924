"""Reference models of generator algorithms, written from the publications with plain Python integers.
A model takes the source of seeds and yields the output words."""
M64, M32, M16, M8 = (1 << 64) - 1, (1 << 32) - 1, 0xFFFF, 0xFF
MODELS = {}


class Seeds:
    def __init__(self, values):
        self.v, self.i = values, 0
        self.start = 0          # counter based algorithms: position in the stream where the model begins

    def u64(self):
        if self.i >= len(self.v):
            self.i += 1
            return split((0xD1342543DE82EF95 + self.i * GOLD64) & M64)
        self.i += 1
        return self.v[self.i - 1]

    def u32(self):
        return self.u64() >> 32


def m(name, *pars):
    def deco(f):
        for p in pars or ("",):
            if isinstance(p, tuple):
                MODELS[name, p[0]] = lambda s, f=f, a=p[1:]: f(s, *a)
            else:
                MODELS[name, p] = f
        return f
    return deco


def rl(x, r, b=64):
    r %= b
    return (x << r | x >> (b - r)) & ((1 << b) - 1)


def rr(x, r, b=64):
    return rl(x, -r, b)


# ------------------------------------------------------------------ linear congruential and derived
def lcg(bits, a, c, x, out):
    k = (1 << bits) - 1
    while True:
        x = (a * x + c) & k
        yield out(x)


m("lcg69069")(lambda s: lcg(32, 69069, 12345, s.u32(), int))
m("randu")(lambda s: lcg(32, 65539, 12345, s.u32(), int))
m("weyl")(lambda s: lcg(64, 1, 0x9E3779B97F4A7C15, s.u64(), lambda x: x >> 32))
m("lcg42")(lambda s: lcg(42, 5 ** 17, 0, s.u64() & (2 ** 42 - 1) | 1, lambda x: x >> 10))
m("drand48")(lambda s: lcg(48, 25214903917, 11, s.u64(), lambda x: x >> 16))
m("pcg32_xsl_rr")(lambda s: lcg(64, 6906969069, 1, s.u64(), lambda x: rr((x >> 32 ^ x) & M32, x >> 59, 32)))


def dxsm32(x):
    hi, lo = x >> 32, x & M32 | 1
    hi ^= hi >> 16
    hi = hi * 69069 & M32
    hi ^= hi >> 24
    return hi * lo & M32


m("pcg32_dxsm")(lambda s: lcg(64, 6906969069, 1, s.u64(), dxsm32))


def s128(s):
    hi = s.u64()
    return hi << 64 | s.u64() | 1


def dxsm64(x, a=0xda942042e4dd58b5):
    hi, lo = x >> 64, x & M64 | 1
    hi ^= hi >> 32
    hi = hi * a & M64
    hi ^= hi >> 48
    return hi * lo & M64


m("pcg64_dxsm")(lambda s: lcg(128, 0xda942042e4dd58b5, 1, s128(s), dxsm64))
m("pcg64_xsl_rr")(lambda s: lcg(128, 47026247687942121848144207491837523525, 1, s128(s), lambda x: rr(x >> 64 ^ x & M64, x >> 122)))


@m("loop_7fff_w64")
def loop7(s):
    while True:
        yield 2 ** 63 - 1


@m("loop_antigap_w64")
def antigap(s):
    for _ in range(1000):
        yield 0
    while True:
        yield 2 ** 63 - 1


@m("coveyou64")
def coveyou(s):
    x = s.u64()
    while True:
        x = x * (x + 1) & M64
        yield x >> 32


@m("lcg64sc")
def lcg64sc(s):
    x = s.u64()
    while True:
        o = (x ^ x >> 32) * 6906969069 & M64
        yield o ^ rl(o, 17) ^ rl(o, 53)
        x = (6906969069 * x + 12345) & M64


@m("lcg64sc2")
def lcg64sc2(s):
    x = s.u64()
    while True:
        o = x >> 32
        o = (o ^ o >> 16) * 69069 & M32
        yield o ^ rl(o, 7, 32) ^ rl(o, 23, 32)
        x = (6906969069 * x + 12345) & M64


# ------------------------------------------------------------------ multiply with carry
def mwc(b, a, x, c, out):
    while True:
        t = a * x + c
        x, c = t & ((1 << b) - 1), t >> b
        yield out(x, c)


m("mwc128")(lambda s: mwc(64, 0xffebb71d94fcdaf9, s.u64(), 1, lambda x, c: x))
m("mwc128x")(lambda s: mwc(64, 0xffebb71d94fcdaf9, s.u64(), 1, lambda x, c: x ^ c))
m("mwc16_32")(lambda s: mwc(16, 63885, s.u32() & M16, 1, lambda x, c: c << 16 | x))


def mwc64(s, out):
    d = 0
    while d == 0:
        d = s.u64() << 1 & M64
    while True:
        c, x = d >> 32, d & M32
        d = 0xff676488 * x + c & M64
        yield out(x, c)


m("mwc64")(lambda s: mwc64(s, lambda x, c: x))
m("mwc64x")(lambda s: mwc64(s, lambda x, c: x ^ c))


def nz(s, f):
    while True:
        x = f()
        if x:
            return x




def kissmwc(x, c):
    """the multiply-with-carry part of KISS64 as published: the carry of the first addition is dropped"""
    t = (x << 58) + c & M64
    n = x + t & M64
    return n, (x >> 6) + (n < t)


@m("mwc64_2p58")
def mwc64_2p58(s):
    x, c = nz(s, s.u64), s.u64() >> 16
    while True:
        x, c = kissmwc(x, c)
        yield x



# ------------------------------------------------------------------ counters with mixing functions
def ctr(bits, step, x, f):
    while True:
        x = (x + step) & ((1 << bits) - 1)
        yield f(x)


def split(z):
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
    return z ^ z >> 31


def murmur32(s):
    s ^= s >> 16
    s = s * 0x85ebca6b & M32
    s ^= s >> 13
    s = s * 0xc2b2ae35 & M32
    return s ^ s >> 16


def fold(a, b, n):
    p = a * b
    return (p ^ p >> n) & ((1 << n) - 1)


def mulberry(w):
    z = (w ^ w >> 15) * (w | 1) & M32
    z ^= (z + (z ^ z >> 7) * (z | 61)) & M32
    return z ^ z >> 14


GOLD64, GOLD32 = 0x9E3779B97F4A7C15, 0x9E3779B9
m("splitmix")(lambda s: ctr(64, GOLD64, s.u64(), split))
m("splitmix_g1")(lambda s: ctr(64, 1, a64(s.u64(), s.start), split))
m("splitmix32")(lambda s: ctr(32, GOLD32, s.u32(), murmur32))
m("mulberry32")(lambda s: ctr(32, 0x6D2B79F5, s.u32(), mulberry))
m("wyrand")(lambda s: ctr(64, 0xa0761d6478bd642f, s.u64(), lambda x: fold(x, x ^ 0xe7037ed1a0b428db, 64)))
m("sqxor")(lambda s: ctr(64, GOLD64, s.u64(), lambda w: (lambda x: fold(x, x, 64))(fold(w, w, 64))))
m("sqxor32")(lambda s: ctr(32, GOLD32, s.u32(), lambda w: fold(fold(w, w, 32), w, 32)))


# ------------------------------------------------------------------ middle square Weyl
@m("msws")
def msws(s):
    x, w = s.u64(), s.u64()
    while True:
        w = (w + 0xb5ad4eceda1ce2a9) & M64
        x = rl((x * x + w) & M64, 32)
        yield x & M32


@m("msws64")
def msws64(s):
    x, g = s.u64(), s.u64() | 1
    while True:
        g = g * 0xe9acc0f334e93bd5 & M64
        x = rl((x * x + g) & M64, 32)
        yield x ^ g


@m("msws64x")
def msws64x(s):
    x, w = s.u64(), s.u64()
    while True:
        w = (w + GOLD64) & M64
        x = (x + w) & M64
        x = fold(x, x, 64)
        yield x


# ------------------------------------------------------------------ shift registers
def xs(x, bits, shifts):
    k = (1 << bits) - 1
    for q in shifts:
        x ^= (x << q & k) if q > 0 else x >> -q
    return x


def xorshift(bits, x, shifts, out=int):
    while True:
        x = xs(x, bits, shifts)
        yield out(x)


def drop(n, g):
    for _ in range(n):
        next(g)
    return g


m("shr3")(lambda s: xorshift(32, s.u32() | 1, (13, -17, 5)))
m("xsh")(lambda s: xorshift(64, s.u64() or 0x12345678, (13, -17, 43)))
STAR = 2685821657736338717
m("xorshift64")(lambda s: drop(1, xorshift(64, nz(s, s.u64), (-12, 25, -27))))
m("xorshift64st")(lambda s: drop(1, xorshift(64, nz(s, s.u64), (-12, 25, -27), lambda x: x * STAR & M64)))


@m("ranq1")
def ranq1(s):
    v, x = 4101842887655102017, s.u64()
    if x != v:
        v ^= x
    return drop(1, xorshift(64, v, (-21, 35, -4), lambda x: x * STAR & M64))


@m("xorrot32")
def xorrot32(s):
    x = s.u32() or 0xDEADBEEF
    while True:
        x ^= x << 1 & M32
        x ^= rl(x, 9, 32) ^ rl(x, 27, 32)
        yield x


@m("xoroshiro128")
def xoroshiro128(s):
    a, b = s.u64(), s.u64() | 1
    while True:
        yield a
        b ^= a
        a, b = rl(a, 24) ^ b ^ (b << 16 & M64), rl(b, 37)


# ------------------------------------------------------------------ others
@m("zibri128")
def zibri128(s):
    a, b = GOLD64, s.u64()
    while True:
        a, b = rl((a + b) & M64, 56), a
        yield a


@m("ranrot_bi")
def ranrot_bi(s):
    lo = s.u64()
    hi = lo ^ M64
    while True:
        hi = ((hi << 19) + (hi >> 23)) & M64
        lo = ((lo << 29) + (lo >> 31)) & M64
        hi = (hi + lo) & M64
        lo = (lo + hi) & M64
        yield hi


@m("ara32")
def ara32(s):
    a, b, c = s.u32(), s.u32(), s.u32() | 1
    while True:
        a = (a + rl((b + c) & M32, 7, 32)) & M32
        b = (b + rl((c + a) & M32, 11, 32)) & M32
        c = (c + rl((a + b) & M32, 15, 32)) & M32
        yield a


def loop(n, f):
    """state tuple -> (new state, output)"""
    def g(st):
        while True:
            st, o = f(*st)
            yield o
    return g if not n else lambda st: drop(n, g(st))


def upd(name, init, f, warm=0):
    m(name)(lambda s: loop(warm, f)(init(s)))


def k64(n):
    return lambda s: tuple(s.u64() for _ in range(n))


def k32(n):
    return lambda s: tuple(s.u32() for _ in range(n))


def split32(n):
    def f(s):
        o = []
        for _ in range(n // 2):
            x = s.u64()
            o += [x & M32, x >> 32]
        return tuple(o)
    return f


def a32(*x):
    return sum(x) & M32


def a64(*x):
    return sum(x) & M64


def mtc(b, mul, r):
    k = (1 << b) - 1

    def f(a, v, c):
        c = c + 1 & k
        a, v = (v * mul & k) ^ c, rl(a + v & k, r, b)
        return (a, v, c), a
    return f


upd("mtc32", k32(3), mtc(32, 1566083941, 13))
upd("mtc64", k64(3), mtc(64, GOLD64, 23))


def mtc64hi(a, b, c):
    p, c = a * GOLD64, a64(c, 1)
    return (p >> 64 ^ b, a64(p, c), c), p >> 64 ^ b


upd("mtc64hi", k64(3), mtc64hi)


def zibri192(a, b, c):
    n = rl(a64(a, b, c), 48)
    return (n, a, b), n


upd("zibri192", lambda s: (GOLD64, s.u64(), s.u64()), zibri192)
upd("zibri64ex", k32(3), lambda a, b, c: ((rl(a32(a, b), 23, 32), a32(rl(a, 7, 32), c, GOLD32), a32(c, GOLD32)), a ^ b))
upd("zibri128ex", k64(3), lambda a, b, c: ((rl(a64(a, b), 57), a64(rl(a, 23), c, GOLD64), a64(c, GOLD64)), a ^ b))


def rrmxmx(v):
    v ^= rr(v, 49) ^ rr(v, 24)
    v = v * 0x9fb21c651e98df25 & M64
    v ^= v >> 28
    v = v * 0x9fb21c651e98df25 & M64
    return v ^ v >> 28


m("rrmxmx")(lambda s: ctr(64, GOLD64, s.u64(), rrmxmx))


def flea(a, b, c, d):
    e, a = a, rl(b, 15, 32)
    b = a32(c, rl(d, 27, 32))
    c = a32(d, a)
    d = a32(e, c)
    return (a, b, c, d), c


upd("flea32x1", split32(4), flea)


def mwclag(name, a, lag):
    def g(s):
        x = [s.u64() for _ in range(lag)]
        c = 1
        while True:
            yield x[-1]
            t = a * x[0] + c
            x, c = x[1:] + [t & M64], t >> 64
    m(name)(g)


mwclag("mwc192", 0xffa04e67b3c95d86, 2)
mwclag("mwc256", 0xfff62cf2ccc0cdaf, 3)
PCGM = 6364136223846793005


@m("pcg32")
def pcg32(s):
    x, inc = s.u64(), s.u64() | 1
    while True:
        yield rr((x >> 18 ^ x) >> 27 & M32, x >> 59, 32)
        x = x * PCGM + inc & M64


@m("pcg64_64")
def pcg64_64(s):
    x, inc = s.u64(), s.u64() | 1
    while True:
        w = (x >> (x >> 59) + 5 ^ x) * 12605985483714917081 & M64
        yield w >> 43 ^ w
        x = x * PCGM + inc & M64


def xoro(a, b, r=(24, 16, 37)):
    b ^= a
    return rl(a, r[0]) ^ b ^ (b << r[1] & M64), rl(b, r[2])


upd("xoroshiro128p", lambda s: (s.u64(), s.u64() | 1), lambda a, b: (xoro(a, b), a64(a, b)))
upd("xoroshiro128aox", lambda s: (s.u64(), s.u64() | 1), lambda a, b: (xoro(a, b), a ^ b ^ (rl(a & b, 1) | rl(a & b, 2))))


def xs128p(a, b, out):
    r = a64(a, b)
    a ^= a << 23 & M64
    n = a ^ b ^ a >> 18 ^ b >> 5
    return (b, n), r


def two_nz(s):
    a, b = s.u64(), s.u64()
    return (a, b) if a or b else (0, GOLD64)


upd("xorshift128p", two_nz, lambda a, b: xs128p(a, b, None))


def xs128rp(x, y):
    x ^= x << 23 & M64
    x ^= x >> 17 ^ y
    return (y, a64(x, y)), x


upd("xorshift128rp", two_nz, xs128rp)


def xs128(x, y, z, w):
    t = x ^ x << 11 & M32
    w2 = w ^ w >> 19 ^ t ^ t >> 8
    return (y, z, w, w2), w2


upd("xorshift128", lambda s: (s.u32(), s.u32(), s.u32(), s.u32() | 1), xs128)


def mrc(b, mul, r):
    k = (1 << b) - 1

    def f(x, y, c):
        o = x * mul & k
        x, y = y + c & k, rl(y, r, b) ^ o
        return (x, y, c + 1 & k), o + x & k
    return f


upd("mrc32", k32(3), mrc(32, 0x7f4a7c15, 19), 16)
upd("mrc64", k64(3), mrc(64, GOLD64, 21), 16)


def cwg64(x, a, w):
    w, a = a64(w, GOLD64), a64(a, x)
    x = (x >> 1) * (x | 1) & M64 ^ w
    return (x, a, w), a >> 48 ^ x


upd("cwg64", k64(3), cwg64, 48)


@m("splitmix32cbc")
def splitmix32cbc(s):
    w, p = s.u32(), s.u32()
    while True:
        w = a32(w, GOLD32)
        p = murmur32(w ^ p)
        yield p


@m("icg64_p2")
def icg64_p2(s):
    x = s.u64() | 1
    while True:
        x = (6906969069 * pow(x, -1, 2 ** 64) + 1234513250) & M64
        yield x >> 32


@m("ranq2")
def ranq2(s):
    v = s.u64() or 4101842887655102017
    w = s.u32() | 1 << 32
    while True:
        v = xs(v, 64, (-17, 31, -8))
        w = 4294957665 * (w & M32) + (w >> 32) & M64
        yield v ^ w


def xabc(b, g, r):
    k = (1 << b) - 1

    def f(x, a, v, c):
        x = x + g & k
        a ^= c ^ x
        v = v + a & k
        c = (c + rr(v, r, b) & k) ^ a
        return (x, a, v, c), c ^ v
    return f


def order(f, perm):
    return lambda s: (lambda t: tuple(t[i] for i in perm))(f(s))


upd("xabc32", order(split32(4), (3, 0, 1, 2)), xabc(32, GOLD32, 9), 32)
upd("xabc64", order(k64(4), (3, 0, 1, 2)), xabc(64, GOLD64, 12), 32)


@m("mwc1616")
def mwc1616(s):
    q = s.u64()
    z, w = q & M16 | 65536, q >> 16 & M16 | 65536
    while True:
        z, w = 36969 * (z & M16) + (z >> 16), 18000 * (w & M16) + (w >> 16)
        yield (z << 16) + w & M32


@m("superduper73")
def superduper73(s):
    q = s.u64()
    a, x = q & M32 | 1, q >> 32 or 0xDEADBEEF
    while True:
        a = a * 69069 & M32
        x = xs(x, 32, (-15, 17))
        yield a ^ x


@m("superduper96")
def superduper96(s):
    q = s.u64()
    a, x = q & M32, q >> 32 or 0xDEADBEEF
    while True:
        a = a * 69069 + 12345 & M32
        x = xs(x, 32, (-13, 17, -5))
        yield a + x & M32


def a5(b, i1, i2):
    k = (1 << b) - 1

    def f(x, y):
        p = (x + i1 & k) * (y + i2 & k)
        return (p & k, p >> b), (p ^ p >> b) & k
    return f


def same2(f):
    return lambda s: (lambda x: (x, x))(f(s)[0])


FIVE, TEN = 0x5555555555555555, 0xaaaaaaaaaaaaaaaa
upd("a5rand", same2(k64(1)), a5(64, FIVE, TEN), 8)
upd("a5rand32", same2(k32(1)), a5(32, FIVE & M32, TEN & M32), 8)


def a5w(x, y, w):
    w = a64(w, GOLD64)
    p = a64(x, FIVE) * a64(y, w)
    return (p & M64, p >> 64, w), (p ^ p >> 64) & M64


upd("a5randw", k64(3), a5w, 8)


def komi(x, y):
    p = x * y
    y = a64(y, p >> 64, TEN)
    return ((p & M64) ^ y, y), (p & M64) ^ y


upd("komirand", same2(k64(1)), komi, 8)
upd("romutrio", lambda s: (s.u64(), s.u64(), nz(s, s.u64)), lambda x, y, z: ((15241094284759029579 * z & M64, rl(y - x & M64, 12), rl(z - y & M64, 44)), x))


@m("combo")
def combo(s):
    q = s.u32()
    x, y, z = q * 8 + 3 & M32, q * 2 + 1 & M32, q | 1
    while True:
        x, y = y, x * y & M32
        z = (z & M16) * 30903 + (z >> 16)
        yield y + z & M32


def kiss93(a, x, y):
    a = 69069 * a + 23606797 & M32
    x = xs(x, 32, (17, -15))
    y = (y << 18 ^ y) & 0x7fffffff
    y ^= y >> 13
    return (a, x, y), a32(a, x, y)


upd("kiss93", lambda s: split32(2)(s) + (111213,), kiss93)


def ranrot32tiny(p, q, r, w):
    w = a32(w, GOLD32)
    u = a32(rl(p, 11, 32), rl(r, 7, 32), rl(w ^ w >> 16, q & 31, 32))
    return (u, p, q, w), u


upd("ranrot32tiny", split32(4), ranrot32tiny)


def two_alt(s):
    a, b = s.u64(), s.u64()
    return (a, b) if a or b else (0x12345678, 0x87654321)


upd("seiran128", two_alt, lambda a, b: ((a ^ rl(b, 29), a ^ b << 9 & M64), a64(rl(a64(a, b) * 9 & M64, 29), a)))
upd("shioi128", two_alt, lambda a, b: ((b, a << 2 & M64 ^ ((a - ((a >> 63) << 64)) >> 19 & M64) ^ b), a64(rl(a * 0xD2B74407B1CE6E93 & M64, 29), b)))


def sq(x, y):
    return rl(x * x + y & M64, 32)


def squares64(c, key=0xb5ad4eceda1ce2a9):
    y = c * key & M64
    z = y + key & M64
    x = sq(sq(sq(y, y), z), y)
    t = x * x + z & M64
    x = rl(t, 32)
    return t ^ (x * x + y & M64) >> 32


upd("msws_ctr", k64(1), lambda c: ((a64(c, 1),), squares64(c)))


@m("mwc32x")
def mwc32x(s):
    d = nz(s, lambda: s.u32() << 1 & M32)
    while True:
        h = d >> 16 ^ d & M16
        d = 63885 * (d & M16) + (d >> 16)
        l = d >> 16 ^ d & M16
        d = 63885 * (d & M16) + (d >> 16)
        yield h << 16 | l


def mularx128(x, y, c):
    p = 0xB3F67E79490FFABB * x
    v, c = y ^ p >> 64, a64(c, GOLD64)
    u = a64(p, rl(v, 25), c)
    return (v, u, c), a64(u, v)


upd("mularx128_str", lambda s: (0, s.u64(), 0), mularx128)


def ranval(b, r):
    k = (1 << b) - 1

    def f(a, v, c, d):
        e = a - rl(v, r[0], b) & k
        a = v ^ rl(c, r[1], b)
        v = c + (rl(d, r[2], b) if r[2] else d) & k
        c = d + e & k
        d = e + a & k
        return (a, v, c, d), d
    return f


upd("ranval64", lambda s: (0xf1ea5eed,) + (s.u64(),) * 3, ranval(64, (7, 13, 37)), 20)


def smwc192(x, x2, c):
    t = 0x621 * x2 + c
    return (t & M64, x, t >> 64), 18000690696906969069 * x & M64 ^ rl(x2, 11)


upd("smwc192", lambda s: (s.u64(), s.u64(), 1), smwc192)


def pcgbits(s, n):
    """the filler used for large states: PCG RXS-M-XS 64"""
    x, o = s.u64(), []
    for _ in range(n):
        w = (x >> (x >> 59) + 5 ^ x) * 12605985483714917081 & M64
        x = x * PCGM + 1442695040888963407 & M64
        o.append(w >> 43 ^ w)
    return o


def gfsr(name, a, b):
    @m(name)
    def g(s):
        h = [x & M32 for x in pcgbits(s, a)][::-1]      # output order: the highest index first
        # x[i] ^= x[j], j starts b places before the end
        i, j = 0, a - b
        while True:
            h[i] ^= h[j]
            yield h[i]
            i, j = (i + 1) % a, (j + 1) % a


gfsr("r250", 250, 103)
gfsr("r1279", 1279, 1063)


@m("lfib4_u64")
def lfib4(s):
    t, c = pcgbits(s, 256), 0
    while True:
        c = c + 1 & 255
        t[c] = a64(t[c], t[c + 58 & 255], t[c + 119 & 255], t[c + 178 & 255])
        yield t[c] >> 32


@m("macmarsa")
def macmarsa(s):
    x, y = s.u32(), s.u32() & M16 | 65536
    u = []
    for _ in range(257):
        x = 69069 * x + 12345 & M32
        u.append(x)
    while True:
        y = 63885 * (y & M16) + (y >> 16)
        o = u[y % 257]
        x = 69069 * x + 12345 & M32
        u[y % 257] = x
        yield o


def arxfw(b, r):
    k = (1 << b) - 1

    def f(a, v, w):
        o = a ^ v
        v = v + w & k
        a = a + (rl(v, r[0], b) ^ rl(v, r[1], b) ^ v) & k
        v ^= rl(a, r[2], b) + rl(a, r[3], b) + a & k
        return (v, a, w + 1 & k), o
    return f


upd("arxfw32", k32(3), arxfw(32, (7, 16, 13, 16)), 8)


@m("kiss64")
def kiss64(s):
    x = nz(s, s.u64)
    c = nz(s, lambda: s.u64() & (1 << 58) - 1)
    y = nz(s, s.u64)
    z = s.u64()
    while True:
        x, c = kissmwc(x, c)
        y = xs(y, 64, (13, -17, 43))
        z = 6906969069 * z + 1234567 & M64
        yield a64(x, y, z)


@m("kiss99")
def kiss99(s):
    p, q = s.u64(), s.u64()
    z, w, j, c = p & M16 | 65536, p >> 16 & M16 | 65536, q >> 32 | 1, q & M32
    while True:
        c = 69069 * c + 1234567 & M32
        z, w = 36969 * (z & M16) + (z >> 16), 18000 * (w & M16) + (w >> 16)
        j = xs(j, 32, (17, -13, 5))
        yield ((((z << 16) + w & M32) ^ c) + j) & M32


def philox(b, words, muls, keys, nkey):
    k = (1 << b) - 1

    def blocks(key, start=0):
        n = start // words
        while True:
            n += 1
            x = [n >> (b * i) & k for i in range(words)]
            q = list(key)
            for r in range(10):
                if words == 2:
                    p = x[0] * muls[0]
                    x = [p >> b ^ q[0] ^ x[1], p & k]
                else:
                    p0, p1 = x[0] * muls[0], x[2] * muls[1]
                    x = [p1 >> b ^ x[1] ^ q[0], p1 & k, p0 >> b ^ x[3] ^ q[1], p0 & k]
                q = [u + v & k for u, v in zip(q, keys)]
            yield from x
    return blocks


m("philox")(lambda s: philox(64, 4, (0xD2E7470EE14C6C93, 0xCA5A826395121157), (GOLD64, 0xBB67AE8584CAA73B), 2)((s.u64(), s.u64()), s.start))
m("philox2x32")(lambda s: philox(32, 2, (0xD256D193,), (GOLD32,), 1)((s.u32(),), s.start))


def lxm(l, a, b):
    z = a64(l, a)
    for _ in range(2):
        z = (z ^ z >> 32) * 0xdaba0b6eb09322e3 & M64
    return (l * 0xd1342543de82ef95 + 12345 & M64,) + xoro(a, b), z ^ z >> 32


def lxminit(s):
    l, a, b = s.u64(), s.u64(), s.u64()
    return l, a, b if a or b else 0xDEADBEEFDEADBEEF


upd("lxm_64x128", lxminit, lxm)


def mtwist(x, n, mm, r, b, mat, temper):
    x, i = list(x), 0
    lo = (1 << r) - 1
    while True:
        y = x[i] & ~lo | x[(i + 1) % n] & lo
        x[i] = x[(i + mm) % n] ^ y >> 1 ^ (mat if y & 1 else 0)
        yield temper(x[i])
        i = (i + 1) % n


def mtinit(seed, n, b, f):
    x = [seed]
    for i in range(1, n):
        x.append((f * (x[-1] ^ x[-1] >> b - 2) + i) & ((1 << b) - 1))
    return x


def temper32(y):
    y ^= y >> 11
    y ^= y << 7 & 0x9D2C5680
    y ^= y << 15 & 0xEFC60000
    return y ^ y >> 18


m("mt19937")(lambda s: mtwist(mtinit(s.u32(), 624, 32, 1812433253), 624, 397, 31, 32, 0x9908B0DF, temper32))


def sfc(b, rs, ls, bar):
    k = (1 << b) - 1

    def f(x, y, z, n):
        t = x + y + n & k
        return (y ^ y >> rs, z + (z << ls) & k, rl(z, bar, b) + t & k, n + 1 & k), t
    return f


def sfcinit(b):
    def f(s):
        q = s.u64()
        return 0, q & ((1 << b) - 1), q >> 32 & ((1 << b) - 1), 1
    return f


def glue(b, f):
    """32-bit words of smaller outputs, the first one is the highest"""
    def g(*st):
        o = 0
        for _ in range(32 // b):
            st, x = f(*st)
            o = o << b | x
        return st, o
    return g


upd("sfc64", lambda s: (s.u64(),) + (s.v[s.i - 1],) * 2 + (1,), sfc(64, 11, 3, 24), 16)
upd("sfc32", sfcinit(32), sfc(32, 9, 3, 21), 12)
upd("sfc16", sfcinit(16), glue(16, sfc(16, 5, 3, 6)), 12)
upd("sfc8", sfcinit(8), glue(8, sfc(8, 2, 1, 3)), 12)


@m("minstd", "", "mul32", "mul64")
def minstd(s):
    x = s.u64() >> 33
    while True:
        x = x * 16807 % 2147483647
        yield (x << 1 | x >> 30) & M32


def ranlux(s, lux):
    x = [s.u32() & 0xFFFFFF for _ in range(24)]
    x[0] |= 1
    x[1] &= ~1
    x = x[::-1]                      # in order of age: the oldest first
    c, skip = 1, (0, 24, 73, 199, 365)[lux]

    def step():
        nonlocal c
        t = x[14] - x[0] - c
        c = int(t < 0)
        x.append(t & 0xFFFFFF)
        return x.pop(0) * 0 + (t & 0xFFFFFF)

    def lucky():
        n = 0
        while True:
            n += 1
            if n == 24:
                n = 0
                for _ in range(skip):
                    step()
            yield step()
    g = lucky()
    while True:
        h = next(g) >> 16
        yield (next(g) << 8 | h) & M32


m("ranlux48", ("", 1), ("0", 0), ("1", 1), ("2", 2), ("3", 3), ("4", 4))(ranlux)


@m("mrg32k3a")
def mrg32k3a(s):
    m1, m2 = 2 ** 32 - 209, 2 ** 32 - 22853

    def sd(mm):
        while True:
            x = s.u32()
            if x and x < mm:
                return x
    a, b = [sd(m1) for _ in range(3)], [sd(m2) for _ in range(3)]
    while True:
        p, q = (1403580 * a[1] - 810728 * a[0]) % m1, (527612 * b[2] - 1370589 * b[0]) % m2
        a, b = a[1:] + [p], b[1:] + [q]
        yield (p - q) % m1 if p != q else m1


def tausw(y, b, s1, sh, mask, s2):
    k = (1 << b) - 1
    return (y & mask & k) << s2 & k ^ ((y << s1 & k) ^ y) >> sh


@m("taus88")
def taus88(s):
    x, y = s.u32(), []
    while len(y) < 3:
        if x & ~15:
            y.append(x)
        x = 1664525 * x + 1 & M32
    while True:
        y = [tausw(y[0], 32, 13, 19, ~1, 12), tausw(y[1], 32, 2, 25, ~7, 4), tausw(y[2], 32, 3, 11, ~15, 17)]
        yield y[0] ^ y[1] ^ y[2]


def lfsr(b, pars, lows):
    def g(s):
        y = []
        for lo in lows:
            while True:
                x = s.u32() if b == 32 else s.u64()
                if x > lo:
                    break
            y.append(x)
        while True:
            y = [tausw(v, b, *p) for v, p in zip(y, pars)]
            o = 0
            for v in y:
                o ^= v
            yield o
    return g


m("lfsr113")(lfsr(32, ((6, 13, ~1, 18), (2, 27, ~7, 2), (13, 21, ~15, 7), (3, 12, ~127, 13)), (1, 7, 15, 127)))
m("lfsr258")(lfsr(64, ((1, 53, ~1, 10), (24, 50, ~511, 5), (3, 23, ~4095, 29), (5, 24, ~0x1FFFF, 23), (3, 33, ~0x7FFFFF, 8)), (1, 511, 4095, 0x1FFFF, 0x7FFFFF)))


@m("well1024a")
def well1024a(s):
    x, i = [s.u32() for _ in range(32)], 0
    if not any(x):
        x[0] = GOLD32
    while True:
        v = lambda d: x[(i + d) % 32]
        z0 = v(31)
        z1 = v(0) ^ v(3) ^ v(3) >> 8
        z2 = v(24) ^ (v(24) << 19 & M32) ^ v(10) ^ (v(10) << 14 & M32)
        x[i] = z1 ^ z2
        i = (i - 1) % 32
        x[i] = z0 ^ (z0 << 11 & M32) ^ z1 ^ (z1 << 7 & M32) ^ z2 ^ (z2 << 13 & M32)
        yield x[i]


def xoshiro(b, sh, rot, out):
    k = (1 << b) - 1

    def f(a, v, c, d):
        o = out(a, v, c, d)
        c ^= a
        d ^= v
        t = v << sh & k
        v ^= c
        a ^= d
        return (a, v, c ^ t, rl(d, rot, b)), o
    return f


def k64nz(n, alt):
    def f(s):
        x = k64(n)(s)
        return x if any(x) else (alt,) + x[1:]
    return f


upd("xoshiro256pp", k64nz(4, 0x12345678), xoshiro(64, 17, 45, lambda a, b, c, d: a64(rl(a64(a, d), 23), a)))
upd("xoshiro256p", k64nz(4, 0x12345678), xoshiro(64, 17, 45, lambda a, b, c, d: a64(a, d)))
upd("xoshiro256stst", k64nz(4, 0x12345678), xoshiro(64, 17, 45, lambda a, b, c, d: rl(b * 5 & M64, 7) * 9 & M64))


@m("xoroshiro1024st")
def xoroshiro1024(s):
    x, p = [s.u64() | 1 for _ in range(16)], 0
    while True:
        q, p = p, (p + 1) % 16
        a, b = x[p], x[q]
        yield a * 0x9e3779b97f4a7c13 & M64
        b ^= a
        x[q] = rl(a, 25) ^ b ^ (b << 27 & M64)
        x[p] = rl(b, 36)


def xorwow(x, y, z, w, v, d):
    t = x ^ x >> 2
    n = v ^ (v << 4 & M32) ^ t ^ (t << 1 & M32)
    d = a32(d, 362437)
    return (y, z, w, v, n, d), a32(n, d)


upd("xorwow", lambda s: (lambda t: t[:4] + (t[4] or 0x12345678, t[5]))(split32(6)(s)), xorwow)


# ------------------------------------------------------------------ ciphers in the counter mode
def words32(s, n):
    return split32(n)(s)


def chacha_block(key, ctrv, rounds):
    x0 = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(key) + [ctrv & M32, ctrv >> 32 & M32, 0, 0]
    x = list(x0)

    def q(a, b, c, d):
        x[a] = x[a] + x[b] & M32; x[d] = rl(x[d] ^ x[a], 16, 32)
        x[c] = x[c] + x[d] & M32; x[b] = rl(x[b] ^ x[c], 12, 32)
        x[a] = x[a] + x[b] & M32; x[d] = rl(x[d] ^ x[a], 8, 32)
        x[c] = x[c] + x[d] & M32; x[b] = rl(x[b] ^ x[c], 7, 32)
    for _ in range(rounds // 2):
        for i in range(4):
            q(i, 4 + i, 8 + i, 12 + i)
        for i in range(4):
            q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return [a + b & M32 for a, b in zip(x, x0)]


def chacha(s, rounds, mask=M64):
    key, n = words32(s, 8), s.start // 16
    while True:
        yield from chacha_block(key, n & mask, rounds)
        n += 1


m("chacha", *[(p, r) for v in ("c99", "avx", "avx2") for p, r in ((v, 12), (v + "-8", 8), (v + "-12", 12), (v + "-20", 20))] + [("", 12), ("c99-ctr32", 12, M32), ("avx-ctr32", 12, M32)])(chacha)


def aes_sbox():
    # the inverse in GF(2^8) and the affine map, from the definition
    p = q = 1
    sb = [0] * 256
    while True:
        p ^= p << 1 & 255 ^ (0x1B if p & 128 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 255
        if q & 128:
            q ^= 9
        sb[p] = q ^ rl(q, 1, 8) ^ rl(q, 2, 8) ^ rl(q, 3, 8) ^ rl(q, 4, 8) ^ 0x63
        if p == 1:
            break
    sb[0] = 0x63
    return sb


SBOX = aes_sbox()


def aes128(s):
    k = s.u64().to_bytes(8, "little") + s.u64().to_bytes(8, "little")
    w = [list(k[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[-1])
        if i % 4 == 0:
            t = [SBOX[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = rc << 1 ^ (0x11B if rc & 128 else 0)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])

    def x2(a):
        return a << 1 & 255 ^ (0x1B if a & 128 else 0)
    n = s.start // 2
    while True:
        st = list((n & M64).to_bytes(8, "little") + (n >> 64).to_bytes(8, "little"))
        rk = lambda r: [b for c in w[4 * r:4 * r + 4] for b in c]
        st = [a ^ b for a, b in zip(st, rk(0))]
        for r in range(1, 11):
            st = [SBOX[x] for x in st]
            st = [st[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r < 10:
                o = []
                for c in range(4):
                    a = st[4 * c:4 * c + 4]
                    o += [x2(a[i]) ^ x2(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] for i in range(4)]
                st = o
            st = [a ^ b for a, b in zip(st, rk(r))]
        b = bytes(st)
        yield int.from_bytes(b[:8], "little")
        yield int.from_bytes(b[8:], "little")
        n += 1


m("aes128", "", "aesni", "c99")(aes128)


def xtea_enc(k, y, z):
    t = 0
    for _ in range(32):
        y = y + (((z << 4 ^ z >> 5) + z) ^ (t + k[t & 3])) & M32
        t = t + GOLD32 & M32
        z = z + (((y << 4 ^ y >> 5) + y) ^ (t + k[t >> 11 & 3])) & M32
    return y, z


@m("xtea", ("", 0), ("scalar-ctr", 0), ("vector-ctr", 0), ("vector-cbc", 1))
def xtea(s, cbc):
    k, n = words32(s, 4), s.start
    prev = [(0, 0)] * 16
    while True:
        for i in range(16):
            a, b = prev[i] if cbc else (0, 0)
            y, z = xtea_enc(k, n & M32 ^ a, n >> 32 & M32 ^ b)
            prev[i] = y, z
            yield z << 32 | y
            n += 1


def speck_keys(a, b):
    ks = [a]
    for i in range(31):
        b = (rr(b, 8) + a & M64) ^ i
        a = rl(a, 3) ^ b
        ks.append(a)
    return ks


def speck_enc(ks, y, x):
    for k in ks:
        x = (rr(x, 8) + y & M64) ^ k
        y = rl(y, 3) ^ x
    return y, x


@m("speck128", "", "full")
def speck128(s):
    ks, n = speck_keys(s.u64(), s.u64()), s.start // 2
    while True:
        yield from speck_enc(ks, n & M64, n >> 64)
        n += 1


@m("speck128", ("vector-full", 32), ("vector-r16", 16))
def speckvec(s, rounds):
    ks, n = speck_keys(s.u64(), s.u64())[:rounds], s.start // 16
    while True:
        for g in (0, 1):
            c = [speck_enc(ks, 4 * g + i + n & M64, (0, 1, 2, 4, 8, 16, 32, 64)[4 * g + i]) for i in range(4)]
            yield from (x[0] for x in c)
            yield from (x[1] for x in c)
        n += 1


LEADELTA = (0xc3efe9db, 0x44626b02, 0x79e27c8a, 0x78df30ec)


def lea(s, copies):
    t = []
    for _ in range(2):       # the plugin takes 28 bits of the lower half of a seed
        x = s.u64()
        t += [x & 0xFFFFFFF, x >> 32]
    ks = []
    for i in range(24):
        d = LEADELTA[i % 4]
        t = [rl(t[j] + rl(d, i + j, 32) & M32, (1, 3, 6, 11)[j], 32) for j in range(4)]
        ks.append((t[0], t[1], t[2], t[1], t[3], t[1]))

    def enc(x):
        for k in ks:
            x = [rl((x[0] ^ k[0]) + (x[1] ^ k[1]) & M32, 9, 32), rr((x[1] ^ k[2]) + (x[2] ^ k[3]) & M32, 5, 32), rr((x[2] ^ k[4]) + (x[3] ^ k[5]) & M32, 3, 32), x[0]]
        return x
    n = s.start // 4
    while True:
        c = [enc([n + i & M32, n + i >> 32 & M32, 0, 0]) for i in range(copies)]
        n += copies
        for j in range(4):
            for i in range(copies):
                yield c[i][j]


m("lea", ("", 1), ("scalar", 1), ("avx2", 16))(lea)


def threefry_enc(k, x0, x1):
    ks = [k[0], k[1], 0x1BD11BDAA9FC1A22 ^ k[0] ^ k[1]]
    x0, x1 = a64(x0, ks[0]), a64(x1, ks[1])
    for r in range(20):
        x0 = a64(x0, x1)
        x1 = rl(x1, (16, 42, 12, 31, 16, 32, 24, 21)[r % 8]) ^ x0
        if r % 4 == 3:
            j = r // 4 + 1
            x0, x1 = a64(x0, ks[j % 3]), a64(x1, ks[(j + 1) % 3], j)
    return x0, x1


@m("threefry2x64", ("", 1), ("scalar", 1), ("avx2", 8))
def threefry2(s, copies):
    k, n = (s.u64(), s.u64()), s.start // (2 * copies)
    while True:
        n += 1
        c = [threefry_enc(k, n & M64, i) for i in range(copies)]
        for j in (0, 1):
            for i in range(copies):
                yield c[i][j]


@m("rc4")
def rc4(s):
    key = (GOLD64 ^ s.u64()).to_bytes(8, "big")
    x, j = list(range(256)), 0
    kk = key[:1] + key[:0:-1]          # the word is rotated right by a byte: last byte of it comes next
    for i in range(256):
        j = (j + x[i] + kk[i % 8]) & 255
        x[i], x[j] = x[j], x[i]
    i = j = 0

    def word():
        nonlocal i, j
        v = 0
        for _ in range(4):
            i = i + 1 & 255
            j = j + x[i] & 255
            x[i], x[j] = x[j], x[i]
            v = v << 8 | x[x[i] + x[j] & 255]
        return v
    for _ in range(32):
        word()
    while True:
        yield word()


# ------------------------------------------------------------------ arithmetic modulo primes, inversive generators
def lcgmod(x, a, c, mod):
    while True:
        x = (a * x + c) % mod
        yield x


P31, P31B, P63, P64, P32 = 2 ** 31 - 1, 2 ** 31 - 19, 2 ** 63 - 25, 2 ** 64 - 59, 2 ** 32 - 5
m("lcg64prime")(lambda s: lcgmod(s.u64() | 1, 13891176665706064842, 0, P64))
m("lcg32prime")(lambda s: lcgmod(s.u32(), 1588635695, 123, P32))


@m("sezgin63")
def sezgin(s):
    for x in lcgmod(nz(s, lambda: s.u64() & (1 << 63) - 1), 3163036175, 0, P63):
        yield x >> 31


def inv(x, mod):
    return pow(x, mod - 2, mod)


@m("icg31x2")
def icg31x2(s):
    x, y = s.u32() % P31, s.u32() % P31B
    while True:
        x, y = (inv(x, P31) + 1) % P31, (inv(y, P31B) + 1) % P31B
        yield x ^ y << 1


@m("icg64")
def icg64(s):
    x = s.u64() % P63
    while True:
        x = (inv(x, P63) + 1) % P63
        yield x >> 31


@m("icg64_p2")
def icg64_p2(s):
    x = s.u64() | 1
    while True:
        x = 6906969069 * pow(x, -1, 1 << 64) + 1234513250 & M64
        yield x >> 32


@m("hicg64")
def hicg64(s):
    x, y = s.u64() | 1, s.u64() | 1
    while True:
        x, y = 1886906 * pow(x, -1, 1 << 64) + 706715 * y + 807782 & M64, x
        yield x


@m("ncombo")
def ncombo(s):
    v = s.u64()
    x, y = [8 * v + 3 & M32, 2 * v + 1 & M32], [v >> 32, 0xCAFEBABE, 0xDEADBEEF]
    while True:
        x = [x[1], x[0] * x[1] & M32]
        d = y[0] - y[2]
        y = y[1:] + [d & M32 if d >= 0 else d - 5 & M32]
        yield x[1] - y[2] & M32


@m("swblarge")
def swblarge(s):
    st, x = s.u64(), []
    for _ in range(921):
        w = (st >> (st >> 59) + 5 ^ st) * 12605985483714917081 & M64
        x.append((w ^ w >> 43) & M32)
        st = st * 6364136223846793005 + 1442695040888963407 & M64
    x[1] |= 1
    x[2] &= ~1
    x = x[:0:-1]                        # the oldest first
    c = 1
    while True:
        t = x[64] - x[0] - c
        c = int(t < 0)
        x.pop(0)
        x.append(t & M32)
        yield t & M32


@m("cswb4288")
def cswb(s):
    v = s.u64()
    g, x, q, c = v & M32, v >> 32 or 0x12345678, [], 0
    for _ in range(4288):
        g = 69069 * g + 123 & M32
        x = xs(x, 32, (13, -17, 5))
        q.append(g + x & M32)
    yield q[4287]
    while True:
        for i in range(4288):
            h = q[(i + 128) % 4288] + c & M32
            c = int(q[i] < h)
            q[i] = h - q[i] - 1 & M32
        yield from q


@m("mwc8222")
def mwc8222(s):
    q, c = [x >> 32 for x in pcgbits(s, 256)], 362436
    while True:
        for i in range(256):
            t = 809430660 * q[i] + c
            q[i], c = t & M32, t >> 32
        yield from q


@m("gmwc128")
def gmwc128(s):
    x, c, a0 = s.u64(), 1, -0x7d084a4d80885f
    while True:
        t = 0xff002aae7d81a646 * x + c
        x = t * pow(a0, -1, 1 << 64) & M64
        c = t - a0 * x >> 64
        yield x


@m("cmwc4096")
def cmwc4096(s):
    v = s.u64()
    q, j, c = [v & M32], v >> 32, 123
    for _ in range(4095):
        j = 69069 * j + 1 & M32
        q.append(j)
    while True:
        for i in range(4096):
            t = 18782 * q[i] + c
            c = t >> 32                 # t = c * (2^32 - 1) + x
            x = (t & M32) + c
            if x > M32:
                x, c = x - M32, c + 1
            q[i] = 0xFFFFFFFE - x & M32
            yield q[i]


@m("mwc4691")
def mwc4691(s):
    v = s.u64()
    g, x, q, c = v >> 32, v & M32 | 1, [], 0
    for _ in range(4691):
        g = 69069 * g + 123 & M32
        x = xs(x, 32, (13, -17, 5))
        q.append(g + x & M32)
    while True:
        for i in range(4691):
            t = (q[i] << 13) + c + q[i] & M32
            c = (q[i] >> 19) + (t < q[i])
            q[i] = t
        yield from q


@m("cmwc4827")
def cmwc4827(s):
    v = s.u64()
    g, x, q, c = v >> 32, v & M32 or 0x12345678, [], 1271
    for _ in range(4827):
        g = 69069 * g + 13579 & M32
        x = xs(x, 32, (13, -17, 5))
        q.append(g + x & M32)
    while True:
        for i in range(4827):
            t = (q[i] << 12) + c & M32
            c = (q[i] >> 20) - (t < q[i]) & M32
            q[i] = ~(t - q[i]) & M32
        yield from q


# seeds made for rare branches: the list of seeds is a function of a random source
EDGE = {
    ("lcg64prime", ""): lambda Q: [pow(13891176665706064842, -Q.choice([1, 1, 2, 3]), P64) * Q.choice([Q.randrange(1, 4000), P64 - Q.randrange(1, 4000), (1 << 63) + Q.randrange(-100, 100), Q.randrange(1, 60)]) % P64],
    ("lcg32prime", ""): lambda Q: [(Q.choice([Q.randrange(0, 300), P32 - Q.randrange(1, 300)]) - 123) * pow(1588635695, -1, P32) % P32 << 32],
    ("sezgin63", ""): lambda Q: [pow(3163036175, -Q.choice([1, 2]), P63) * Q.choice([Q.randrange(1, 4000), P63 - Q.randrange(1, 4000), Q.randrange(1, 2915986895) * 2915986895]) % P63],
    ("icg31x2", ""): lambda Q: [Q.choice([0, 1, 2, P31 - 1, P31 - 2, inv(P31 - 1, P31), inv(Q.randrange(1, 50), P31)]) << 32, Q.choice([0, 1, 2, P31B - 1, inv(P31B - 1, P31B), inv(Q.randrange(1, 50), P31B)]) << 32],
    ("icg64", ""): lambda Q: [Q.choice([0, 1, 2, P63, P63 - 1, inv(P63 - 1, P63), inv(Q.randrange(1, 50), P63), Q.randrange(1 << 31)])],
    ("minstd", ""): lambda Q: [pow(16807, -Q.choice([1, 2]), P31) * Q.choice([1, 2, P31 - 1, P31 - 2, Q.randrange(1, 100000)]) % P31 << 33],
    ("ncombo", ""): lambda Q: [Q.choice([0xDEADBEEF, 0xDEADBEEE, 0xDEADBEF0, 0xDEADBEEF + 0xCAFEBABE & M32, Q.getrandbits(32)]) << 32 | Q.getrandbits(32)],
    ("cmwc4096", ""): lambda Q: [Q.getrandbits(32) << 32 | ((1 << 32) - 2 * Q.randrange(1, 9000) >> 1) * pow(9391, -1, 1 << 31) % (1 << 31) | Q.getrandbits(1) << 31],
    ("swblarge", ""): lambda Q: [Q.choice([146741, 1131656, 2138412, 7878607, 8293172, 9437321])],       # found by a search: a zero difference occurs
    ("cswb4288", ""): lambda Q: [Q.choice([0xf182bfd100111021, 0xbf354e7000146170, 0xefbada7200200c12, 0x21b5ecbe0030ca1e, 0x8460d961003896b1])],
}
EDGE["minstd", "mul32"] = EDGE["minstd", "mul64"] = EDGE["minstd", ""]


@(lambda f: EDGE.setdefault(("mrg32k3a", ""), f))
def mrg_edge(Q):
    m1, m2 = 2 ** 32 - 209, 2 ** 32 - 22853
    a, b = [Q.randrange(1, m1) for _ in range(3)], [Q.randrange(1, m2) for _ in range(3)]
    k = Q.randrange(4)
    p = Q.choice([0, 0, 1, m1 - 1, Q.randrange(m2)])
    a[1] = (p + 810728 * a[0]) * pow(1403580, -1, m1) % m1 or 1             # the first component gives p
    if k:
        q = {1: 0, 2: p % m2, 3: (p + 1) % m2}[k]                           # and the second one q
        b[2] = (q + 1370589 * b[0]) * pow(527612, -1, m2) % m2 or 1
    return [x << 32 for x in a + b]


# models that may begin anywhere in the stream (Seeds.start)
JUMP = {k for k in MODELS if k[0] in ("philox", "philox2x32", "chacha", "aes128", "speck128", "lea", "threefry2x64", "splitmix_g1") or k[0] == "xtea" and "cbc" not in k[1]}
