"""C22: the output modes write exactly the generator's words / their documented conversion, and nothing else."""
import os
import random
import signal
import subprocess
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import host
import seeds
import spy
import vf


def lzc(u):
    return 64 - int(u).bit_length()


def accurate(ws, nbits):
    """generator of (value, words used) for stdoutflx; ws: list of ints"""
    pos = [0]

    def u64():
        if nbits == 64:
            pos[0] += 1
            return ws[pos[0] - 1]
        pos[0] += 2
        return ws[pos[0] - 2] | ws[pos[0] - 1] << 32
    while True:
        out = u64()
        lz = lzc(out)
        if lz > 11:
            l2 = lzc(u64())
            if l2 == 64:
                l2 += lzc(u64())
            lz = l2 + 12
        yield (2.0 ** (-lz - 53)) * ((1 << 52) | (out & ((1 << 52) - 1))), pos[0]


def zeros_words(R, n, nbits):
    """words that often have many leading zeros, also as 64-bit pairs"""
    m = (1 << nbits) - 1
    out = []
    while len(out) < n:
        k = R.randrange(7)
        if k == 0:
            out.append(0)
        elif k == 1:
            out.append(R.getrandbits(nbits) >> R.randrange(nbits))
        elif k == 2:
            out.append((1 << (nbits - 1 - R.choice([10, 11, 12, 13, 31]))) | R.getrandbits(8))
        elif k == 3:
            out += [0] * R.randint(2, 6)
        elif k == 4:
            out.append(m >> R.choice([0, 1, 10, 11, 12, 13]))
        else:
            out.append(R.getrandbits(nbits))
    out = out[:n]
    out[-1] = m
    return np.array(out, dtype=np.uint64)


def main(ctx):
    ctx.rule = "one evaluation = one run of an output mode; distinct = (mode, generator, word size, length, words, threads, reader)"
    ctx.assumptions = ["binary output is in native byte order (little endian here)", "libc's %.20g formatting"]
    R = ctx.rng
    exe, aexe, sp, asp = vf.build_cli("fast"), vf.build_cli("asan"), vf.build_spy(), vf.build_spy("asan")

    jobs = []
    for mode in ("stdout", "stdoutfl", "stdoutflx"):
        for nb in ("64", "32"):
            for src in ("hash", "hard", "zeros"):
                for m in ([12, 13, 14, 16, R.choice([15, 17, 18])] if ctx.quick else list(range(12, 21)) + [22, 24]) if mode == "stdout" else ctx.scale([12, 13], [12, 13, 14, 16]):
                    jobs.append((mode, nb, src, m, R.choice([1, 1, 2, 7]), R.getrandbits(40)))
    for mode in ("stdoutfl", "stdoutflx"):
        jobs.append((mode, "64", "hash", 0, 1, R.getrandbits(40) | 1))

    def one(j):
        mode, nb, src, m, nth, seed = j
        nbits, Q = int(nb), random.Random(seed)
        asan = seed % 4 == 0
        env = {"VH_SPY_NBITS": nb}
        if seed % 3 == 1:
            env["VH_SPY_PRINT"] = "1"
        if src != "hash":
            w = (spy.hard_words if src == "hard" else zeros_words)(Q, 4999, nbits)
            env["VH_SPY_WORDS"] = "%s/w%x" % (ctx.tmp, seed)
            open(env["VH_SPY_WORDS"], "wb").write(spy.tobytes(w, nbits))
        args = [mode, asp if asan else sp, "--seed=o%x" % seed] + (["--maxlen_log2=%d" % m] if m else []) + (["--nthreads=%d" % nth] if nth > 1 else [])
        rc, out, err, lg = vf.cli(ctx, aexe if asan else exe, args, env, raw=True, timeout=120)
        ctx.case((mode, nb, src, m, nth), sample="%s %s-bit %s 2^%d: %d bytes compared" % (mode, nb, src, m, len(out)) if m == 13 else None)

        def v(key, msg):
            ctx.violation("%s:%s" % (mode, key), "%s, %s-bit, %s words, maxlen_log2=%d, %d threads: %s" % (mode, nb, src, m, nth, msg), {"args": args, "env": env})
        if rc != 0 or len(lg.creates) != 1 or len(lg.frees) != 1:
            v(vf.san_key(err) if rc == 99 else "run", "exit %r, %d created, %d destroyed: %s" % (rc, len(lg.creates), len(lg.frees), err[-500:]))
            return
        if "SpyGen" not in err:
            v("header", "the header is not on the standard error stream")
        if "VH_SPY_PRINT" in env and "hello" not in err:
            v("message", "the plugin's message is lost")
        if mode == "stdout":
            n = (1 << m) * 8 // nbits
            exp = np.resize(w, n) if src != "hash" else spy.words(spy.state(lg.creates[0]), nbits, n)
            ctx.count("bytes_compared", len(out))
            if out != spy.tobytes(exp, nbits):
                g = spy.frombytes(out[:len(out) // (nbits // 8) * (nbits // 8)], nbits)
                k = min(len(g), n)
                b = np.nonzero(g[:k] != exp[:k])[0]
                v("value", "%d bytes, expected %d; first difference at word %s" % (len(out), 1 << m, b[:1]))
            used = n
        else:
            n = 1 << (m or 20)
            need = n if mode == "stdoutfl" else 8 * n
            ws = [int(q) for q in (np.resize(w, need) if src != "hash" else spy.words(spy.state(lg.creates[0]), nbits, need))]
            if mode == "stdoutfl":
                exp = [float(u) * 2.0 ** -nbits for u in ws[:n]]
                used = n
            else:
                it, exp = accurate(ws, nbits), []
                for _ in range(n):
                    x, used = next(it)
                    exp.append(x)
            lines = out.split(b"\n")
            ctx.count("floats_compared", len(lines) - 1)
            ctx.count("floats_below_2^-11", sum(1 for x in exp if x < 2.0 ** -11))
            ctx.maxc("smallest_exponent", max((-np.frexp(x)[1] for x in exp if x > 0), default=0))
            want = [b"%.20g" % x for x in exp] + [b""]
            if lines != want:
                b = next((i for i in range(min(len(lines), len(want))) if lines[i] != want[i]), min(len(lines), len(want)))
                v("value", "%d lines, expected %d; line %d is %r, expected %r" % (len(lines) - 1, n, b, lines[b:b + 1], want[b:b + 1]))
        if int(lg.frees[0]["nget"]) != used:
            v("consumed", "%s words were drawn, expected %d" % (lg.frees[0]["nget"], used))
    vf.pmap(one, jobs)

    # --- readers that go away; unlimited output is an exact prefix
    def reader(j):
        mode, nb, k, ignore, seed = j
        env = dict(os.environ, VH_SPY_NBITS=nb, VH_LOG="%s/l%x" % (ctx.tmp, seed))
        pre = (lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN)) if ignore else (lambda: signal.signal(signal.SIGPIPE, signal.SIG_DFL))
        p = subprocess.Popen([exe, mode, sp, "--seed=r%x" % seed] + ([] if mode == "stdout" else ["--maxlen_log2=40"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=pre, restore_signals=False, cwd=ctx.tmp)
        got = b""
        while len(got) < k:
            q = os.read(p.stdout.fileno(), min(65536, k - len(got)))
            if not q:
                break
            got += q
        t0 = time.time()
        p.stdout.close()
        try:
            p.stderr.read()
            rc = p.wait(30)
        except subprocess.TimeoutExpired:
            rc = None
            p.kill()
        ctx.case(("reader", mode, nb, k, ignore), sample="%s, reader leaves after %d bytes, SIGPIPE %s: ended with %r after %.2f s" % (mode, k, "ignored" if ignore else "default", rc, time.time() - t0) if k == 5000 else None)
        ctx.count("early_readers")
        rp = {"mode": mode, "bytes": k, "ignore": ignore}
        if rc is None:
            ctx.violation("reader:" + mode, "%s does not end within 30 s after its reader left after %d bytes (SIGPIPE %s)" % (mode, k, "ignored" if ignore else "default"), rp)
        elif rc not in (0, -signal.SIGPIPE) and rc < 0:
            ctx.violation("reader:crash:" + mode, "%s ended by signal %d when its reader left" % (mode, -rc), rp)
        lg = vf.Log(env["VH_LOG"])
        nbits = int(nb)
        n = len(got) // (nbits // 8) if mode == "stdout" else len(got) // 8 + 2
        w = spy.words(spy.state(lg.creates[0]), nbits, n + 1)
        if mode == "stdout":
            exp = spy.tobytes(w, nbits)[:len(got)]
        elif mode == "stdoutfl":
            exp = b"".join(b"%.20g\n" % (float(int(u)) * 2.0 ** -nbits) for u in w)[:len(got)]
        else:
            it = accurate([int(q) for q in spy.words(spy.state(lg.creates[0]), nbits, 4 * n + 50)], nbits)
            exp = b"".join(b"%.20g\n" % next(it)[0] for _ in range(n))[:len(got)]
        if got != exp or len(got) < k:
            ctx.violation("reader:prefix:" + mode, "%s: the %d bytes read are not a prefix of the expected output" % (mode, len(got)), rp)
    vf.pmap(reader, [(m, nb, k, ig, R.getrandbits(40)) for m in ("stdout", "stdoutfl", "stdoutflx") for nb in ("64", "32") for k in (0, 1, 5000, ctx.scale(300001, 3000001)) for ig in (0, 1)])

    # --- real generators: the dump equals what the plugin itself gives in another host
    names = vf.gen_names()
    pick = R.sample(names, 70) if ctx.quick else names
    gens = vf.build_gens(pick)
    hx = host.build()

    def plug(n):
        seed = "pl-%d-%s" % (ctx.seed, n)
        st = seeds.stream(seeds.key_from_text(seed), 600)
        cmds = ["L " + " ".join("%x" % s for s in st), "I", "N 0"]
        m = 14
        a = host.session(hx, gens[n], cmds + ["D 0 %d %s/h%s" % ((1 << m) // 4, ctx.tmp, n), "F 0", "L " + " ".join("%x" % s for s in st), "M 5A", "N 1", "D 1 64 %s/g%s" % (ctx.tmp, n)])
        if a.rc != 0 or not any(q.startswith("N ok") for q in a.lines):
            ctx.count("plugins_not_usable")
            return
        if any(int(host.kv(q)["seeds"]) > 600 for q in a.lines if q.startswith("N ok") or q.startswith("D ")):
            ctx.count("plugins_with_many_seeds")
            return
        nbits = int(a.lines[1].split("|")[1])
        w = np.fromfile("%s/h%s" % (ctx.tmp, n), dtype="<u8")
        g = np.fromfile("%s/g%s" % (ctx.tmp, n), dtype="<u8")
        os.unlink("%s/h%s" % (ctx.tmp, n))
        os.unlink("%s/g%s" % (ctx.tmp, n))
        if not np.array_equal(w[:64], g):
            ctx.count("plugins_not_repeatable")
            return
        rc, out, err, _ = vf.cli(ctx, exe, ["stdout", gens[n], "--seed=" + seed, "--maxlen_log2=%d" % m], raw=True, log=False)
        ctx.case(("plugin", n))
        ctx.count("plugins_compared")
        ctx.count("bytes_compared", len(out))
        exp = spy.tobytes(w, nbits)[:1 << m]
        if rc != 0 or out != exp:
            ctx.violation("plugin:stdout", "%s: exit %r, %d bytes, differs from the plugin's own stream %s" % (n, rc, len(out), err[-200:]), {"plugin": n, "seed": seed})
        for mode in ("stdoutfl", "stdoutflx"):
            rc, out, err, _ = vf.cli(ctx, exe, [mode, gens[n], "--seed=" + seed, "--maxlen_log2=12"], raw=True, log=False) if vf.hash_int(n) % 5 == 0 else (0, None, "", None)
            if out is None:
                continue
            ws = [int(q) for q in w[:1 << 12]]
            if mode == "stdoutfl":
                exp = [b"%.20g" % (float(u) * 2.0 ** -nbits) for u in ws]
            else:
                it, exp = accurate(ws + [0] * 5000, nbits), []
                for _ in range((1 << 11) - 200):
                    exp.append(b"%.20g" % next(it)[0])
            lines = out.split(b"\n")
            if mode == "stdoutflx" and len(ws) < 1 << 12:
                continue
            ctx.count("floats_compared", len(exp))
            k = min(len(exp), 1 << 12)
            if rc != 0 or len(lines) != (1 << 12) + 1 or lines[:k] != exp[:k]:
                ctx.violation("plugin:" + mode, "%s: exit %r, %d lines, differs from the conversion of the plugin's own stream" % (n, rc, len(lines)), {"plugin": n, "seed": seed})
    vf.pmap(plug, pick)
    for k, m in (("bytes_compared", 1000000), ("floats_compared", 100000), ("floats_below_2^-11", 1000), ("early_readers", 40), ("plugins_compared", 45)):
        ctx.require(k, m)


vf.main("C22", main)
