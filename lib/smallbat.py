"""A custom battery file that runs every kind of real engine at a small size (fractions of a second each)."""
SMALL = [("mono", "monobit_freq nvalues=20000"), ("byte", "nbit_words_freq bits_per_word=8 average_freq=16 nblocks=64"),
         ("w16", "nbit_words_freq bits_per_word=16 average_freq=8 nblocks=16"), ("w4", "nbit_words_freq bits_per_word=4 average_freq=64 nblocks=64"),
         ("bs2", "bspace_nd nbits_per_dim=16 ndims=2 nsamples=4 get_lower=1"), ("bs1", "bspace_nd nbits_per_dim=32 ndims=1 nsamples=4 get_lower=0"),
         ("bs8", "bspace_nd nbits_per_dim=4 ndims=8 nsamples=3 get_lower=1"), ("dec", "bspace4_8d_decimated step=1"),
         ("co", "collisionover nbits_per_dim=5 ndims=4 nsamples=2 n=20000 get_lower=1"), ("co2", "collisionover nbits_per_dim=20 ndims=1 nsamples=2 n=20000 get_lower=0"),
         ("gap", "gap shl=4 ngaps=20000"), ("mod3", "mod3 nvalues=100000"), ("sumc", "sumcollector nvalues=200000"),
         ("hd", "hamming_distr nvalues=65536 nlevels=5"), ("hov", "hamming_ot nbytes=262144 mode=values"), ("hob", "hamming_ot nbytes=262144 mode=bytes"),
         ("ho8", "hamming_ot nbytes=131072 mode=bytes_low8"), ("ho1", "hamming_ot nbytes=131072 mode=bytes_low1"),
         ("hl128", "hamming_ot_long nvalues=65536 wordsize=w128"), ("hl256", "hamming_ot_long nvalues=65536 wordsize=w256"), ("hl1024", "hamming_ot_long nvalues=65536 wordsize=w1024"),
         ("lch", "linearcomp nbits=4000 bitpos=high"), ("lcl", "linearcomp nbits=4000 bitpos=low"), ("mr", "matrixrank n=256 max_nbits=8"), ("mr64", "matrixrank n=512 max_nbits=64"),
         ("isw", "ising2d sample_len=500 nsamples=3 algorithm=wolff"), ("ism", "ising2d sample_len=500 nsamples=3 algorithm=metropolis"), ("us", "usphere ndims=5 npoints=20000")]


def text(rng=None, n=None, skip=(), name="small"):
    t = [q for q in SMALL if q[0] not in skip]
    if rng:
        rng.shuffle(t)
        t = [t[rng.randrange(len(t))] for _ in range(n)] if n and n > len(t) else t[:n]
    t = [("%s_%d" % (a, i), b) for i, (a, b) in enumerate(t)]
    return "battery name=%s end\n" % name + "".join("%s test=%s end\n" % q for q in t), [q[0] for q in t]
