"""C23: Base64, BLAKE2s and ChaCha20 primitives match their specifications."""
import base64
import hashlib
import struct
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
M = 0xFFFFFFFF


def chacha_block(key, ctr, nonce):
    """RFC 8439 quarter rounds with the original 64-bit counter / 64-bit nonce layout"""
    st = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(key) + [ctr & M, (ctr >> 32) & M, nonce & M, nonce >> 32]
    x = st[:]

    def q(a, b, c, d):
        for p, s, r in ((a, b, 16), (c, d, 12), (a, b, 8), (c, d, 7)):
            x[p] = (x[p] + x[s]) & M
            t = {a: d, c: b}[p]
            v = x[t] ^ x[p]
            x[t] = ((v << r) | (v >> (32 - r))) & M
    for _ in range(10):
        q(0, 4, 8, 12), q(1, 5, 9, 13), q(2, 6, 10, 14), q(3, 7, 11, 15)
        q(0, 5, 10, 15), q(1, 6, 11, 12), q(2, 7, 8, 13), q(3, 4, 9, 14)
    return [(a + b) & M for a, b in zip(x, st)]


def blake2s_model(msg, outlen, base=0):
    """RFC 7693, unkeyed, with `base` bytes already counted (state still at its initial value)"""
    iv = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
    sig = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
           [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
           [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
           [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
           [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]
    h = iv[:]
    h[0] ^= 0x01010000 ^ outlen
    blocks = [msg[i:i + 64] for i in range(0, len(msg), 64)] or [b""]
    t = base
    for i, b in enumerate(blocks):
        t += len(b)
        m = struct.unpack("<16I", b.ljust(64, b"\0"))
        v = h + iv[:]
        v[12] ^= t & M
        v[13] ^= (t >> 32) & M
        if i == len(blocks) - 1:
            v[14] ^= M

        def g(a, b_, c, d, x, y):
            rr = lambda z, r: ((z >> r) | (z << (32 - r))) & M
            v[a] = (v[a] + v[b_] + x) & M
            v[d] = rr(v[d] ^ v[a], 16)
            v[c] = (v[c] + v[d]) & M
            v[b_] = rr(v[b_] ^ v[c], 12)
            v[a] = (v[a] + v[b_] + y) & M
            v[d] = rr(v[d] ^ v[a], 8)
            v[c] = (v[c] + v[d]) & M
            v[b_] = rr(v[b_] ^ v[c], 7)
        for s in sig:
            for k, (a, b_, c, d) in enumerate(((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))):
                g(a, b_, c, d, m[s[2 * k]], m[s[2 * k + 1]])
        h = [p ^ q ^ r for p, q, r in zip(h, v[:8], v[8:])]
    return struct.pack("<8I", *h)[:outlen]


def cxx_engine(ctx):
    """the C++ engine of apps/chacha.h: word k of the stream is word k % 16 of block 1 + k / 16"""
    R = ctx.rng

    def words(key, nonce, a, n, first=1):
        blocks = [chacha_block(key, (first + b) & (2 ** 64 - 1), nonce) for b in range(a // 16, (a + n - 1) // 16 + 1)]
        return [w for b in blocks for w in b][a % 16: a % 16 + n]
    kn = lambda: ([R.choice([0, M, R.getrandbits(32), R.getrandbits(32)]) for _ in range(8)], R.choice([0, 2 ** 64 - 1, 1 << 32, R.getrandbits(64), R.getrandbits(64), R.getrandbits(32)]))
    tx = lambda k, n: " ".join("%x" % v for v in k) + " %x" % n
    req = []
    for j in range(ctx.scale(120, 1200)):
        (k, n), (k2, n2) = kn(), kn()
        a, b = R.choice([0, 0, 1, 15, 16, 17, R.randrange(400), 100000 if j % 40 == 0 else 31]), R.choice([1, 15, 16, 17, 33, 64, 130])
        kind = R.choice(["run", "run", "copy", "two", "std", "ctr"])
        if kind == "two":
            w1, w2 = words(k, n, 0, b), words(k2, n2, 0, b)
            req.append((kind, "two %s %s %d" % (tx(k, n), tx(k2, n2), b), [v for p in zip(w1, w2) for v in p]))
        elif kind == "std":
            req.append((kind, "std %s %d" % (tx(k, n), b), words(k, n, 0, b)))
        elif kind == "ctr":
            lo = R.choice([M, M - 1, M - 2, 0, 0x7FFFFFFF, R.getrandbits(32)])
            hi = R.choice([0, 0, 1, M, R.getrandbits(32)])
            req.append((kind, "ctr %s %x %x %d" % (tx(k, n), lo, hi, b), words(k, n, 0, b, ((hi << 32) | lo) + 1)))
        else:
            req.append((kind, "%s %s %d %d" % (kind, tx(k, n), a, b), words(k, n, a, b)))
    for fl, defs in (("asan", []), ("plain", ["-DNDEBUG"]), ("plain", [])):
        def exe(ctr):
            return vf.build("vh_chacha", fl, [vf.HARN + "/vh_chacha.cpp"], extra_flags=["-std=c++11", "-w", "-I%s/apps" % vf.REPO] + defs + ctr, cc="g++")
        try:
            e, can = exe(["-DVH_CTR"]), True
        except vf.HarnessError:
            e, can = exe([]), False       # the counter is not reachable from a derived class
        use = [q for q in req if can or q[0] != "ctr"]
        rc, out, err = vf.run([e], input=("\n".join(q[1] for q in use) + "\n").encode(), timeout=300)
        lines = out.decode().split("\n")
        if rc != 0:
            i = min(len(lines) - 1, len(use) - 1)
            ctx.violation("cxx-abort", "C++ engine (%s %s): exit %r on %r: %s" % (fl, defs, rc, use[i][1], err[-600:].decode("latin-1")), use[i][1])
            continue
        for (kind, q, exp), o in zip(use, lines):
            ctx.case(("cxx", q, fl, tuple(defs)))
            ctx.count("cxx_engine_words", len(exp))
            if o.split() != ["%08x" % w for w in exp]:
                ctx.violation("cxx-" + kind, "C++ ChaCha20 engine (%s %s): %s -> %s, expected %s" % (fl, defs, q, o[:80], ["%08x" % w for w in exp[:4]]), q)


def check(ctx):
    ctx.rule = "distinct by (primitive, message / key / chunking / encoding text)"
    R = ctx.rng
    req, chk = [], []

    def add(line, f, key):
        req.append(line)
        chk.append((f, key))

    def hx(b):
        return b.hex() or "-"
    # ---- ChaCha20: model sanity first (RFC 8439 2.3.2 as used by the generator's layout)
    k = [int.from_bytes(bytes(range(4 * i, 4 * i + 4)), "little") for i in range(8)]
    if chacha_block(k, 1 | (0x09000000 << 32), 0x4a000000)[:2] != [0xe4e7f110, 0x15593bd1]:
        raise vf.HarnessError("ChaCha20 model is wrong")
    for j in range(ctx.scale(250, 4000)):
        key = [R.choice([0, M, R.getrandbits(32), R.getrandbits(32)]) for _ in range(8)]
        nonce = R.choice([0, 0x90ABCDEF12345678, (1 << 64) - 1, R.getrandbits(64)])
        ctr = R.choice([0, 0, 0, R.getrandbits(10), 0xFFFFFFFF - R.randint(0, 3), 0x1FFFFFFFF - R.randint(0, 2), (1 << 63) - 1 + R.randint(-2, 2), R.getrandbits(64) >> 1])
        skip = R.choice([0, 0, 1, 15, 16, 17, R.randint(0, 3000)])
        ops = "".join(R.choice("366") for _ in range(R.choice([1, 5, 40, 90])))

        def f(out, key=key, nonce=nonce, ctr=ctr, skip=skip, ops=ops):
            need = skip + sum(1 if c == "3" else 2 for c in ops)
            words = []
            b = skip // 16
            pos = skip - b * 16
            while len(words) < need - b * 16:
                words += chacha_block(key, ctr + 1 + b + len(words) // 16, nonce)
            exp = []
            for c in ops:
                if c == "3":
                    exp.append("%08x" % words[pos])
                    pos += 1
                else:
                    exp.append("%016x" % (words[pos] | words[pos + 1] << 32))
                    pos += 2
            ctx.count("chacha_words", need)
            return out.split() == exp, exp[:3]
        add("cc %s %x %x %d %s" % (" ".join("%08x" % w for w in key), nonce, ctr, skip, ops), f, ("chacha", j))
    # ---- BLAKE2s: every length around block boundaries x chunking x digest length x key length
    lens = sorted(set(list(range(0, ctx.scale(140, 300))) + [191, 192, 193, 255, 256, 257, 319, 320, 1023, 1024, 1025, 4096, 5000]))
    for ln in lens:
        for rep in range(ctx.scale(2, 12)):
            msg = R.choice([bytes(ln), b"\xff" * ln, R.randbytes(ln), R.randbytes(ln)])
            key = b"" if R.random() < 0.5 else R.randbytes(R.choice([1, 31, 32, R.randint(1, 32)]))
            ol = R.choice([32, 32, 16, 1, 31, R.randint(1, 32)])
            chunks = R.choice([[], [1], [64], [63, 1], [65], [64, 64, 0, 1], [R.randint(1, 200) for _ in range(5)], [0, 3, 0, 64]])

            def f(out, msg=msg, key=key, ol=ol):
                e = hashlib.blake2s(msg, key=key, digest_size=ol).hexdigest()
                w = out.split()
                ctx.count("blake_digests")
                ctx.count("blake_bytes", len(msg))
                return bool(w) and w[0] == e and all(v == "same" for v in w[1:]), e
            add("b2 %d %s %s %s" % (ol, hx(key), hx(msg), " ".join(map(str, chunks))), f, ("blake", ln, len(key), ol, tuple(chunks), rep))
    for q in (b"", b"abc", R.randbytes(64), R.randbytes(200)):
        if blake2s_model(q, 32) != hashlib.blake2s(q).digest():
            raise vf.HarnessError("BLAKE2s model is wrong")
    # messages beyond 4 GiB: the byte counter is preset instead of hashing gigabytes
    for j in range(ctx.scale(40, 300)):
        base = R.choice([(1 << 32) - 64 * R.randint(1, 5), (1 << 33) - 64 * R.randint(1, 4), 64 * R.randint(0, 1 << 20), (5 << 32)])
        msg = R.randbytes(R.choice([1, 63, 64, 65, 128, 129, 256, 320, 500]))
        ol = R.choice([32, 16, 20])
        e = blake2s_model(msg, ol, base).hex()

        def f(out, e=e):
            ctx.count("blake_long_messages")
            return out.strip() == e, e
        add("b2ctr %x %d %s" % (base, ol, hx(msg)), f, ("blake-long", base, msg))
    for ol, kl in ((0, 0), (33, 0), (64, 0), (32, 33), (16, 64), (0, 33), (1 << 20, 0)):
        add("b2one %d %s %s" % (ol, hx(R.randbytes(kl)), hx(R.randbytes(20))), lambda out: (out.split() == ["FAIL", "clean"], "FAIL clean"), ("blake-invalid", ol, kl))
    add("entself", lambda out: (out.split()[:2] == ["1", "0"], "1 0"), ("selftest",))
    # ---- Base64
    for ln in list(range(0, 40)) + [8] * ctx.scale(150, 3000):
        w = [R.choice([0, M, 1, 1 << 31, R.getrandbits(32), R.getrandbits(32)]) for _ in range(ln)]
        raw = b"".join(struct.pack(">I", v) for v in w)
        enc = base64.b64encode(raw)

        def f(out, enc=enc):
            ctx.count("base64_encodings")
            return out.strip().encode() == enc, enc.decode()
        add("b64e " + " ".join("%x" % v for v in w), f, ("b64e", tuple(w)))

        def dec(out, w=w):
            ctx.count("base64_decodings")
            e = ["%08x" % v for v in w] or ["NULL"]
            return out.split() == e, e[:4]
        add("b64d " + hx(enc), dec, ("b64d", tuple(w)))

    def bad(out):
        ctx.count("base64_malformed")
        return out.strip() == "NULL", "NULL"

    def ok_or_null(text):
        """what the decoder must answer: symbols outside of the alphabet (padding, blanks) are skipped"""
        syms = [ALPHA.index(c) for c in text if c in ALPHA]
        nb = len(syms) * 6
        n = nb // 32
        if n == 0:
            return None
        need = -(-n * 32 // 6)
        if len(syms) != need:
            return None
        v = 0
        for s in syms:
            v = v << 6 | s
        if v & ((1 << (nb - 32 * n)) - 1):
            return None
        v >>= nb - 32 * n
        return ["%08x" % (v >> 32 * (n - 1 - i) & M) for i in range(n)]
    for j in range(ctx.scale(800, 20000)):
        ln = R.choice([1, 2, 3, 4, 7, 8, 8, 8, 9])
        enc = bytearray(base64.b64encode(R.randbytes(4 * ln)))
        op = R.randrange(7)
        if op == 0:
            del enc[R.randrange(len(enc)):]
        elif op == 1:
            enc = enc.rstrip(b"=") + bytes([R.choice(ALPHA)])
        elif op == 2:
            e = enc.rstrip(b"=")
            e[-1] = R.choice(ALPHA)
            enc = e
        elif op == 3:
            del enc[R.randrange(len(enc))]
        elif op == 4:
            k = R.randrange(len(enc))
            enc[k] = R.choice([R.choice(b"-_ !\x80\xff\x7f=\t@[`{/:"), R.randint(1, 255), enc[k] | 128])
        elif op == 5:
            enc = bytearray(R.choice(ALPHA + b"=") for _ in range(R.randint(0, 60)))
        else:
            enc.insert(R.randrange(len(enc) + 1), R.choice([R.choice(ALPHA + b"=\n "), R.randint(1, 255)]))
        enc = bytes(enc).replace(b"\0", b"")
        exp = ok_or_null(enc)

        def f(out, exp=exp):
            ctx.count("base64_rejected" if exp is None else "base64_mutants_valid")
            return out.split() == (exp if exp is not None else ["NULL"]), exp
        add("b64d " + hx(enc), f, ("b64m", enc))
    for fl in (("asan",) if ctx.quick else ("asan", "plain", "generic")):
        exe = vf.build("vh_prims", fl, vf.CORE + [vf.HARN + "/vh_prims.c"])
        step = 400
        parts = [(i, req[i:i + step]) for i in range(0, len(req), step)]

        def go(p):
            return p, vf.run([exe], timeout=300, input=("\n".join(p[1]) + "\n").encode())
        for (i0, lines), (rc, out, err) in vf.pmap(go, parts):
            outs = out.decode("latin-1").split("\n")
            if rc != 0:
                n = len(outs) - 1
                ctx.violation("abort:" + chk[i0 + n][1][0], "%s: rc=%r on request %r: %s" % (fl, rc, req[min(i0 + n, len(req) - 1)][:300], err[-1200:].decode("latin-1")), req[min(i0 + n, len(req) - 1)][:4000])
                continue
            for j, o in enumerate(outs[:len(lines)]):
                f, key = chk[i0 + j]
                good, exp = f(o)
                ctx.case(repr(key) + fl)
                if not good:
                    ctx.violation(key[0], "%s: %s -> %s, expected %s" % (fl, req[i0 + j][:300], o[:300], exp), req[i0 + j][:4000])
    cxx_engine(ctx)
    for n, m in (("cxx_engine_words", 2000), ("chacha_words", 10000), ("blake_digests", 250), ("base64_encodings", 150), ("base64_rejected", 300), ("base64_mutants_valid", 50)):
        ctx.require(n, m)
    ctx.assumptions = ["Python's hashlib (BLAKE2s) and base64 are right; ChaCha20 model is validated on the RFC 8439 block"]


if __name__ == "__main__":
    vf.main("C23", check)
