"""Model of the spy plugin's stream (harness/vh_spy.c) and of the documented output transformations."""
import numpy as np

M = (1 << 64) - 1


def mixh(h, v):
    h = ((h ^ v) * 0xff51afd7ed558ccd) & M
    h ^= h >> 33
    h = (h * 0xc4ceb9fe1a85ec53) & M
    return h ^ (h >> 29)


def state(create, default=99):
    """stream identity of an instance from its creation record"""
    s, any_ = 1, False
    for tok in create["seeds"].split(","):
        if tok:
            s, any_ = mixh(s, int(tok.split(":")[1], 16)), True
    if not any_:
        s = default
    for ch in create.get("param", "").encode():
        s = mixh(s, ch)
    return s


def _mix(h, v):
    h = (h ^ v) * np.uint64(0xff51afd7ed558ccd)
    h ^= h >> np.uint64(33)
    h = h * np.uint64(0xc4ceb9fe1a85ec53)
    return h ^ (h >> np.uint64(29))


def words(s, nbits, n, start=0):
    """the first n output words of an instance with identity s"""
    with np.errstate(over="ignore"):
        i = np.arange(start, start + n, dtype=np.uint64)
        u = _mix(np.uint64(s), i) + np.uint64((0x1234567 * s) & M)
        u = _mix(u, np.uint64(77))
    return u >> np.uint64(32) if nbits == 32 else u


def reverse(w, nbits):
    w = w.astype(np.uint64)
    out = np.zeros_like(w)
    for b in range(nbits):
        out |= ((w >> np.uint64(b)) & np.uint64(1)) << np.uint64(nbits - 1 - b)
    return out


def transform(w, nbits, flt):
    """documented filters: (words, new word size)"""
    w = np.asarray(w, dtype=np.uint64)
    if flt in (None, "none", ""):
        return w, nbits
    if flt == "reverse-bits":
        return reverse(w, nbits), nbits
    assert nbits == 64
    hi, lo = w >> np.uint64(32), w & np.uint64(0xFFFFFFFF)
    if flt == "high32":
        return hi, 32
    if flt == "low32":
        return lo, 32
    if flt == "interleaved32":
        out = np.empty(2 * len(w), dtype=np.uint64)
        out[0::2], out[1::2] = lo, hi
        return out, 32
    raise ValueError(flt)


def tobytes(w, nbits):
    return np.asarray(w, dtype=np.uint64).astype("<u4" if nbits == 32 else "<u8").tobytes()


def frombytes(b, nbits):
    return np.frombuffer(b, dtype="<u4" if nbits == 32 else "<u8").astype(np.uint64)


def hard_words(R, n, nbits):
    """words that tell apart bit orders, halves, sign extension and lost carries"""
    m = (1 << nbits) - 1
    out = []
    for _ in range(n):
        k = R.randrange(9)
        if k == 0:
            v = R.choice([0, m, 1, 1 << (nbits - 1), 0xFFFFFFFF, 0xFFFFFFFF00000000, 0x80000000, 0x7FFFFFFF, 0x8000000000000000, 0x7FFFFFFFFFFFFFFF, 0x100000000])
        elif k == 1:
            v = 1 << R.randrange(nbits)
        elif k == 2:
            v = m ^ (1 << R.randrange(nbits))
        elif k == 3:
            v = (1 << R.randint(0, nbits)) - 1
        elif k == 4:
            v = m & (m << R.randrange(nbits))
        elif k == 5:
            v = R.getrandbits(32)
        elif k == 6:
            v = R.getrandbits(32) << 32
        else:
            v = R.getrandbits(nbits)
        out.append(v & m)
    return np.array(out, dtype=np.uint64)
