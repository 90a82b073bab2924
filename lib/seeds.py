"""Model of the seed source: text/base64 seed -> 256-bit key -> ChaCha20 stream of 64-bit seeds (independent of the code under test)."""
import base64
import hashlib

import numpy as np
NONCE = 0x90ABCDEF12345678
SIGMA = [0x61707865, 0x3320646E, 0x79622D32, 0x6B206574]


def key_from_text(text):
    b = text if isinstance(text, bytes) else text.encode("utf-8")
    h = hashlib.blake2s(b).digest()
    return [int.from_bytes(h[4 * i:4 * i + 4], "big") for i in range(8)]


def key_from_b64(s):
    h = base64.b64decode(s)
    assert len(h) == 32
    return [int.from_bytes(h[4 * i:4 * i + 4], "big") for i in range(8)]


def b64(key):
    return base64.b64encode(b"".join(int(k).to_bytes(4, "big") for k in key)).decode()


def stream(key, n, skip=4):
    """first n 64-bit seeds handed out (the first four outputs of the generator are shown at start and dropped)"""
    nblk = (2 * (n + skip) + 15) // 16
    ctr = np.arange(1, nblk + 1, dtype=np.uint64)
    st = [np.full(nblk, c, np.uint32) for c in SIGMA] + [np.full(nblk, k, np.uint32) for k in key]
    st += [(ctr & np.uint64(0xFFFFFFFF)).astype(np.uint32), (ctr >> np.uint64(32)).astype(np.uint32),
           np.full(nblk, NONCE & 0xFFFFFFFF, np.uint32), np.full(nblk, NONCE >> 32, np.uint32)]
    x = [s.copy() for s in st]

    def rot(v, r):
        return (v << np.uint32(r)) | (v >> np.uint32(32 - r))

    def q(a, b, c, d):
        x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 16)
        x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 12)
        x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 8)
        x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 7)
    for _ in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    w = np.stack([a + b for a, b in zip(x, st)], axis=1).astype(np.uint64).reshape(-1)
    r = w[0::2] | (w[1::2] << np.uint64(32))
    return [int(v) for v in r[skip:skip + n]]


def seed_key(arg):
    """key of a --seed= value, or None when it is refused; also the thread count it carries"""
    if len(arg) > 5 and arg[0] == "_":
        return key_from_b64(arg[4:]), int(arg[1:3], 16)
    return key_from_text(arg), None
