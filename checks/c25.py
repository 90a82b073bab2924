"""C25: plugins give the sequences of the published algorithms (reference models, digests of the pinned release, all build variants)."""
import json
import os
import random
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import algos
import golden
import host
import vf

# parameters that need vector instructions: a portable build may refuse them (and only them)
NEEDS_VEC = set("""aes128| aes128|aesni""".split())


def needs_vec(n, p):
    return n + "|" + p in NEEDS_VEC or "avx" in p or p.startswith("vector")


VARIANTS = {"native": ("fast", ()), "portable": ("generic", ()), "no-int128": ("generic", ("-U__SIZEOF_INT128__",)), "unoptimized": ("plain", ("-O0",))}


def main(ctx):
    ctx.rule = "one evaluation = one stream (plugin, parameter, seeds, build variant); distinct by these"
    ctx.assumptions = ["where no reference model exists the pinned release (with its repairs) is taken to be right", "rdrand gives hardware random numbers and is left out"]
    R = ctx.rng
    gold = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "golden.json")))
    names = [n for n in vf.gen_names() if n not in golden.SKIP]
    combos = [k.split("|", 1) for k in gold if k.split("|", 1)[0] in set(names)]
    hx = host.build("fast")
    flags = open("/proc/cpuinfo").read()
    native = " avx2 " in flags and " aes " in flags
    built = {v: vf.build_gens(names, f, x) for v, (f, x) in VARIANTS.items()}

    def viol(kind, n, p, msg, rp=None):
        ctx.violation("%s:%s:%s" % (kind, n, p), "%s --param='%s': %s" % (n, p, msg), dict(plugin=n, param=p, **(rp or {})))

    def digests(j):
        n, p, v = j
        d = gold[n + "|" + p]
        r = golden.run(hx, built[v][n], p)
        if isinstance(r, str):
            if v in ("portable", "no-int128") and needs_vec(n, p) and (r == "null" or r.startswith("exit 5")):
                ctx.count("refused_by_portable_build")     # needs vector instructions and says so
                return
            if v in ("native", "unoptimized") and not native and needs_vec(n, p) and (r == "null" or r.startswith("exit 5")):
                ctx.count("refused_here")
                return
            viol("refused:" + v, n, p, "%s build: %s" % (v, r))
            return
        ctx.count("digests_compared", len(r["K"]) + len(r["S"]) + 2)
        ctx.count("streams_" + v)
        for i in range(3 + len(r["S"]) + 1):
            ctx.case((n, p, v, i))
        ctx.count("words_hashed", 210000 + 1500 * len(r["S"]) + golden.LONG)
        if r["nbits"] != d["nbits"]:
            viol("nbits", n, p, "%s build announces %d-bit words, expected %d" % (v, r["nbits"], d["nbits"]))
        for i, (a, b) in enumerate(zip(r["K"], d["K"])):
            if a != b:
                viol("stream", n, p, "%s build: outputs %s with random seeds (key %d) differ from the recorded stream of the algorithm" % (v, ("0..999", "1000..9999", "10000..69999")[i % 3], i // 3 + 1))
                return
        for i, (a, b) in enumerate(zip(r["S"], d["S"])):
            if a != b:
                viol("seeds", n, p, "%s build: outputs with the seeds %s... differ from the recorded stream" % (v, golden.SETS[i][:60]), {"seeds": golden.SETS[i]})
                return
        if (r["U"], r["E"]) != (d["U"], d["E"]):
            viol("sum", n, p, "%s build: the sum of %d outputs or the outputs after it differ from the record (%s, %s)" % (v, golden.LONG, r["U"], d["U"]))
    vf.pmap(digests, [(n, p, v) for v in VARIANTS for n, p in combos])

    # --- independent models, fresh seeds every run
    def model(j):
        n, p, v, seed = j
        Q = random.Random(seed)
        f = algos.MODELS[n, p]
        for rep in range(ctx.scale(30, 300) if (n, p) in algos.EDGE else ctx.scale(6, 60)):
            k = Q.randrange(5)
            if k == 0:
                sd = [Q.choice([0, 1, 2 ** 64 - 1, 1 << 63, 0xFFFFFFFF, 0xFFFFFFFF00000000, Q.getrandbits(64)]) for _ in range(700)]
            elif k == 1:
                sd = [Q.getrandbits(64) & Q.getrandbits(64) & Q.getrandbits(64) & Q.getrandbits(64) for _ in range(700)]
            else:
                sd = [Q.getrandbits(64) for _ in range(700)]
            if (n, p) in algos.EDGE and rep >= 2:
                sd = algos.EDGE[n, p](Q) + [Q.getrandbits(64) for _ in range(20)]
                ctx.count("edge_seeds")
            w = 5000 if n in ("swblarge", "cswb4288", "cmwc4096", "cmwc4827", "mwc4691") and rep in (2, 3, 4) else ctx.scale(300, 3000) if rep else ctx.scale(3000, 60000)
            a = host.session(hx, built[v][n], ["P " + p, "L " + " ".join("%x" % x for x in sd), "M %02X" % Q.randrange(256), "N 0", "W 0 %d" % w])
            if a.rc == 5 or (len(a.lines) > 3 and "null" in a.lines[3]):
                if needs_vec(n, p) and (v != "native" or not native):
                    return
            if a.rc != 0:
                viol("run", n, p, "exit %r %s" % (a.rc, a.err[-300:]))
                return
            got = [int(x, 16) for x in a.lines[4].split()[1:]]
            src = algos.Seeds(sd)
            it = f(src)
            ctx.case((n, p, "model", v, rep))
            ctx.count("model_words", w)
            for i in range(w):
                e = next(it)
                if got[i] != e:
                    viol("model", n, p, "%s build: output %d is %x, the algorithm gives %x" % (v, i, got[i], e), {"seeds": ["%x" % x for x in sd[:40]], "word": i})
                    return
        ctx.count("models")
    todo = [(n, p, v, R.getrandbits(50)) for n, p in algos.MODELS for v in ("native", "portable")]
    vf.pmap(model, todo)

    # --- overflow of block counters: the counter is found in the state by observation (harness/vh_ctr.c) and moved forward
    cx = golden.ctr_build()
    ctx.assumptions.append("a word of the state is moved only when moving it is seen to move the stream; where no such word is found (another representation) nothing is judged")

    def overflow(j):
        n, p, v = j
        rec, seen = gold[n + "|" + p]["ctr"], False
        for k, dg in golden.overflow_digests(cx, built[v][n], p).items():
            if k not in rec:
                continue                 # blocks of another size
            seen = True
            ctx.count("overflow_streams")
            ctx.case((n, p, v, "ctr", k))
            if rec[k] != dg:
                viol("carry", n, p, "%s build: the outputs around the overflow of the %s-bit block counter (position 0x%s) differ from the recorded stream" % ((v, k.split(":")[1][1:], k.split(":")[2])))
                return
        if (n, p) in algos.JUMP:
            Q = random.Random("%s|%s|%d" % (n, p, ctx.seed))
            for rep in range(ctx.scale(3, 30)):
                sd = [Q.getrandbits(64) for _ in range(40)]
                for kind, x, w in golden.overflow(cx, built[v][n], p, sd):
                    if kind == "B64" and "ctr32" in p:
                        continue
                    src = algos.Seeds(sd * 10)
                    src.start = x
                    it = algos.MODELS[n, p](src)
                    ctx.case((n, p, v, "ctrmodel", kind, rep))
                    ctx.count("overflow_model_words", len(w))
                    for i, g in enumerate(w):
                        e = next(it)
                        if e != g:
                            viol("carry", n, p, "%s build: output 0x%x (around the overflow of the %s-bit block counter) is %x, the algorithm gives %x" % (v, x + i, kind[1:], g, e), {"seeds": ["%x" % x for x in sd]})
                            return
        ctx.count("counter_found" if seen else "counter_not_found")
    vf.pmap(overflow, [(n, p, v) for n, p in combos if "ctr" in gold[n + "|" + p] for v in ("native", "portable")])

    if not ctx.quick:
        t0 = time.time()
        order = [(n, p) for n, p in combos if "deep" in gold[n + "|" + p] and gold[n + "|" + p]["deep"]]
        R.shuffle(order)

        def deep(j):
            n, p = j
            if time.time() - t0 > 1500:
                return
            r = golden.deep(hx, built["native"][n], n, p)
            ctx.case((n, p, "deep"))
            ctx.count("deep_streams")
            if r != gold[n + "|" + p]["deep"]:
                viol("deep", n, p, "the sum of 2^32 outputs or the outputs after it differ from the record")
        vf.pmap(deep, order)
    for k, m in (("digests_compared", 40000), ("model_words", 100000), ("streams_portable", 300), ("streams_no-int128", 300), ("streams_native", 300)):
        ctx.require(k, m)


vf.main("C25", main)
