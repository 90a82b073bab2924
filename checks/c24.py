"""C24: generator plugins are deterministic, isolated, honest about the word size and clean in memory."""
import json
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import host
import vf

NONDET = {"seed", "rdrand"}   # by design: give out the seeds themselves / hardware random numbers
SAMESTREAM = set()
NQ = 3000


def params():
    d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "params.json")))
    return d


def main(ctx):
    ctx.rule = "one evaluation = one (plugin, parameter, kind of session); distinct by these and the seeds"
    ctx.assumptions = ["seed and rdrand are non-repeatable by design (only memory and width are judged)", "the CPU has AVX2 (vector versions run natively)"]
    R = ctx.rng
    names = vf.gen_names()
    pars = params()
    combos = [(n, p) for n in names for p in pars.get(n, [""])]
    flags = open("/proc/cpuinfo").read()
    avx2 = " avx2 " in flags and " aes " in flags
    NW = ctx.scale(6000, 60000)
    g, hx = vf.build_gens(names, "fast"), host.build("fast")

    def viol(kind, n, p, msg, cmds=None):
        ctx.violation("%s:%s:%s" % (kind, n, p), "%s --param='%s': %s" % (n, p, msg), {"plugin": n, "param": p, "commands": cmds})

    def bad(a, n, p, what, cmds):
        """common treatment of sessions that end abnormally"""
        if a.rc == 0:
            return False
        if a.rc == 5 and not avx2:
            ctx.count("not_supported_here")
            return True
        key = vf.san_key(a.err) if a.rc in (99, 1) or "Sanitizer" in a.err else "exit%s" % a.rc
        viol(what + ":" + key, n, p, "%s session ends with %r: %s" % (what, a.rc, (a.lines[-1:], a.err[-900:])), cmds)
        return True

    def widths(a, n, p):
        nb = int(a.lines[1].split("|")[1])
        if nb not in (32, 64):
            viol("nbits", n, p, "announces %d bits" % nb)
        return nb

    def behaviour(j):
        n, p, seed = j
        Q = random.Random(seed)
        keys = [Q.randrange(1, 1 << 60) for _ in range(3)]
        pre = "%s/%x" % (ctx.tmp, seed)
        ref, hq, nb = [], [], 64
        heavy = n == "lfib_par"
        try:
            for i, k in enumerate(keys):      # a process per stream: nothing else has ever run there
                cm = ["P " + p, "I", "M %02X" % Q.choice([0, 1, 0xFF, 0xCD, 0x80]), "K %d" % k, "N 0", "D 0 %d %s.%d" % (NW, pre, i), "F 0",
                      "M %02X" % Q.choice([0, 0x5A, 0xFF]), "K %d" % k, "N 1", "G 1 %d" % NQ, "F 1"]
                a = host.session(hx, g[n], cm)
                if bad(a, n, p, "solo", cm):
                    return
                nb = widths(a, n, p)
                if "ok" not in a.lines[4]:
                    viol("create", n, p, "the generator cannot be created: " + a.lines[4])
                    return
                for q in (6, 11):
                    if a.lines[q] != "F live=0":
                        viol("leak", n, p, "memory blocks left after the instance is destroyed: " + a.lines[q], cm)
                        return
                ref.append(np.fromfile("%s.%d" % (pre, i), dtype="<u8"))
                if nb == 32 and ref[i].max() >> np.uint64(32):
                    viol("width", n, p, "announces 32 bits but returned %x" % ref[i].max(), cm)
                if n not in NONDET:
                    if a.lines[5] != "D seeds=" + host.kv(a.lines[4])["seeds"]:
                        viol("lateseed", n, p, "asks for seeds after its creation: %s %s" % (a.lines[4], a.lines[5]), cm)
                    hq.append(host.kv(a.lines[10])["hash"])
                    if host.kv(a.lines[4]) != dict(host.kv(a.lines[9])):
                        viol("create2", n, p, "two creations with the same seeds differ: %s / %s" % (a.lines[4], a.lines[9]), cm)
                    w = ref[i][:NQ]
                    if int(host.kv(a.lines[10])["or"], 16) != int(np.bitwise_or.reduce(w)) or int(host.kv(a.lines[10])["first"], 16) != int(w[0]) or int(host.kv(a.lines[10])["last"], 16) != int(w[-1]):
                        viol("repeat", n, p, "the same seeds give another stream the second time", cm)
                        return
            for i in range(3):
                ctx.case(("solo", n, p, i))
            ctx.count("words_compared", 3 * NQ)
            if n in NONDET:
                return
            if np.array_equal(ref[0], ref[1]) or np.array_equal(ref[0], ref[2]):
                ctx.count("same_stream_for_all_seeds")
                ctx.count("same:" + n)
            # several live instances, self-tests, bulk sums, destruction of others
            for rep in range(ctx.scale(1, 4)):
                cm, chk = ["P " + p, "I"], []
                where, live, nf = {}, [], 0
                if Q.random() < .3:
                    cm.append("T")
                    chk.append((len(cm) - 1, "T"))
                for step in range(ctx.scale(26, 60)):
                    op = Q.random()
                    if len(live) < 2 or (op < .12 and len(live) < 6):
                        i = next(x for x in range(64) if x not in live)
                        k = Q.randrange(3)
                        cm += ["M %02X" % Q.choice([0, 1, 0xFF, 0xCD]), "K %d" % keys[k], "N %d" % i]
                        live.append(i)
                        where[i] = [k, 0]
                    elif op < .2 and len(live) > 2:
                        i = Q.choice(live)
                        live.remove(i)
                        cm.append("F %d" % i)
                    elif op < .24 and not heavy:
                        cm.append("T")
                        chk.append((len(cm) - 1, "T"))
                    else:
                        i = Q.choice(live)
                        k, pos = where[i]
                        c = Q.choice([1, 1, 2, 3, 7, 31, 64, 257, NW // 20])
                        if pos + c > NW:
                            continue
                        where[i][1] += c
                        if Q.random() < .35:
                            cm.append("U %d %d" % (i, c))
                            chk.append((len(cm) - 1, "U", k, pos, c))
                        else:
                            cm.append("D %d %d %s.c%d" % (i, c, pre, nf))
                            chk.append((len(cm) - 1, "D", k, pos, c, "%s.c%d" % (pre, nf)))
                            nf += 1
                cm += ["F %d" % i for i in live]
                a = host.session(hx, g[n], cm)
                if bad(a, n, p, "mixed", cm):
                    return
                ctx.case(("mixed", n, p, rep), sample="%s '%s': %d commands over %d instances agree with the separate streams" % (n, p, len(cm), len(where)) if Q.random() < .02 else None)
                if a.lines[-1] != "F live=0":
                    viol("leak", n, p, "memory blocks left after all instances are destroyed: " + a.lines[-1], cm)
                for c in chk:
                    ln = a.lines[c[0]]
                    if c[1] == "T":
                        if ln != "T none":
                            ctx.count("self_tests")
                            if host.kv(ln)["result"] != "1":
                                viol("selftest", n, p, "the self-test fails: " + ln, cm)
                        continue
                    w = ref[c[2]][c[3]:c[3] + c[4]]
                    if c[1] == "U":
                        if ln == "U none":
                            ctx.count("no_bulk_sum")
                            continue
                        ctx.count("bulk_sums")
                        if int(ln[2:], 16) != int(np.add.reduce(w, dtype=np.uint64)):
                            viol("sum", n, p, "sum of %d outputs at %d is %s, the single outputs give %x" % (c[4], c[3], ln[2:], int(np.add.reduce(w, dtype=np.uint64))), cm)
                            return
                    else:
                        got = np.fromfile(c[5], dtype="<u8")
                        os.unlink(c[5])
                        ctx.count("words_compared", c[4])
                        if not np.array_equal(got, w):
                            viol("isolation", n, p, "outputs %d..%d of an instance differ from its stream when it is alone" % (c[3], c[3] + c[4]), cm)
                            return
            # threads
            cm = ["P " + p, "I"]
            for i in range(6):
                cm += ["K %d" % keys[i % 3], "N %d" % i]
            cm += ["Q 6 %d" % NQ] + ["F %d" % i for i in range(6)]
            a = host.session(hx, g[n], cm)
            if not bad(a, n, p, "threads", cm):
                ctx.case(("threads", n, p))
                got = next(q for q in a.lines if q.startswith("Q")).split()[1:]
                ctx.count("concurrent_streams", 6)
                if got != [hq[i % 3] for i in range(6)]:
                    viol("threads", n, p, "streams of instances in different threads differ from the separate streams", cm)
        finally:
            for i in range(3):
                try:
                    os.unlink("%s.%d" % (pre, i))
                except OSError:
                    pass
    vf.pmap(behaviour, [(n, p, R.getrandbits(50)) for n, p in combos])

    # --- sanitizers on hostile seeds
    def sanit(fl):
        gs, h = vf.build_gens(names, fl), host.build(fl)

        def one(j):
            n, p, seed = j
            Q = random.Random(seed)
            m = ctx.scale(3000, 40000)
            cm = ["P " + p, "I"]
            sets = ["L " + "0 " * 300, "L " + "ffffffffffffffff " * 300, "K %d" % Q.randrange(1 << 40), Q.choice(["L " + "8000000000000000 " * 200, "L 0", "L 0 ffffffffffffffff 1 7fffffffffffffff"])]
            for i, s in enumerate(sets):
                cm += [s, "N %d" % i, "G %d %d" % (i, m), "U %d %d" % (i, m // 3), "G %d 11" % i]
                if i == 1:
                    cm.append("F 0")
            cm += ["G 2 5"] + ["T"] + ["F %d" % i for i in (2, 3, 1)]
            a = host.session(h, gs[n], cm, timeout=300)
            if bad(a, n, p, fl, cm):
                return
            ctx.case((fl, n, p))
            ctx.count(fl + "_sessions")
            ctx.count(fl + "_words", 4 * m + m // 3 * 4)
            nb = widths(a, n, p)
            for q in a.lines:
                if q.startswith("G ") and nb == 32 and int(host.kv(q)["or"], 16) >> 32:
                    viol("width", n, p, "announces 32 bits but returned more: " + q, cm)
                if q.startswith("T r") and host.kv(q)["result"] != "1":
                    viol("selftest", n, p, "the self-test fails: " + q, cm)
                if q.startswith("N null"):
                    viol("create", n, p, "the generator cannot be created: " + q, cm)
            if a.lines[-1] != "F live=0":
                viol("leak", n, p, "memory blocks left: " + a.lines[-1], cm)
        vf.pmap(one, [(n, p, R.getrandbits(50)) for n, p in combos])
    sanit("asan")
    sanit("msan")

    # --- data races
    gs, h = vf.build_gens(names, "tsan"), host.build("tsan")

    def race(j):
        n, p = j
        cm = ["P " + p, "I"] + [q for i in range(4) for q in ("K %d" % i, "N %d" % i)] + ["Q 4 %d" % ctx.scale(1500, 20000)] + ["F %d" % i for i in range(4)]
        a = host.session(h, gs[n], cm, timeout=300)
        if not bad(a, n, p, "tsan", cm):
            ctx.case(("tsan", n, p))
            ctx.count("tsan_sessions")
    vf.pmap(race, [(n, p) for n, p in combos if n not in NONDET])

    for k, m in (("words_compared", 3000000), ("bulk_sums", 1500), ("self_tests", 60), ("concurrent_streams", 1500), ("asan_sessions", 250), ("msan_sessions", 250), ("tsan_sessions", 250)):
        ctx.require(k, m)


vf.main("C24", main)
