"""C20: an output filter delivers exactly the documented transformation of the generator's output."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import smallbat
import spy
import vf

FILTERS = {"reverse-bits": "r", "interleaved32": "i", "high32": "h", "low32": "l"}
LONG = {v: k for k, v in FILTERS.items()}
NAMES = {"reverse-bits": "ReversedBits", "interleaved32": "Interleaved", "high32": "High32", "low32": "Low32"}


def stack_out(w, nbits, stack):
    for ch in stack:
        w, nbits = spy.transform(w, nbits, LONG[ch])
    return w, nbits


def api_part(ctx, R):
    """filters through the public API: several instances advance in an interleaved order"""
    exes = [vf.build("vh_filter", fl, vf.CORE + [vf.HARN + "/vh_filter.c"]) for fl in ("plain", "asan", "generic")]
    stacks64 = ["r", "i", "h", "l", "ri", "rh", "rl", "ir", "hr", "lr", "rr"]
    jobs = []
    for k in range(ctx.scale(24, 400)):
        jobs.append((k, R.choice([64, 64, 32]), R.getrandbits(60)))

    def one(j):
        k, nb, seed = j
        Q = __import__("random").Random(seed)
        n = 4000
        w = spy.hard_words(Q, n, nb)
        path = "%s/f%d" % (ctx.tmp, k)
        w.astype("<u8").tofile(path)
        lines, want, insts = ["W %s %d" % (path, nb)], [], {}
        for i in range(Q.randint(3, 8)):
            st = Q.choice(stacks64 if nb == 64 else ["r", "rr"])
            start = Q.randrange(500)
            out, onb = stack_out(w[start:], nb, st)
            insts[i] = [st, start, out, onb, 0]
            lines.append("N %d %s %d" % (i, st, start))
        for _ in range(60):
            i = Q.choice(list(insts))
            o = insts[i]
            m = Q.choice([1, 1, 2, 3, 5, Q.randrange(40)])
            if Q.random() < 0.2:
                half = 2 if "i" in o[0] else 1
                lines.append("C %d" % i)
                want.append(("C", i, "C %d %d %s" % (o[1] + -(-o[4] // half), o[3], NAMES[LONG[o[0][-1]]])))
            else:
                lines.append("G %d %d" % (i, m))
                want.append(("G", i, [int(v) for v in o[2][o[4]:o[4] + m]]))
                o[4] += m
        for i in list(insts):
            lines.append("F %d" % i)
            want.append(("F", i, "F %d" % (sum(len(o[0]) for q, o in insts.items()) - len(insts[i][0]))))
            del_len = insts.pop(i)
        exe = exes[k % len(exes)]
        rc, out, err = vf.run([exe], input=("\n".join(lines) + "\n").encode(), timeout=60)
        got = out.decode("utf-8", "replace").split("\n")
        ctx.case(("api", k, nb), sample="api: %d-bit parent, %d requests to interleaved instances" % (nb, len(want)) if k < 2 else None)
        rp = {"commands": lines[:80]}
        if rc != 0:
            ctx.violation("api:" + (vf.san_key(err) if rc == 99 else "ended"), "API driver ended with %r: %s %s" % (rc, got[-2:], err.decode("utf-8", "replace")[-600:]), rp)
            return
        st_of = {}
        for ln in lines:
            if ln[0] == "N":
                st_of[int(ln.split()[1])] = ln.split()[2]
        for (kind, i, exp), g in zip(want, got):
            if kind == "G":
                vals = [int(q, 16) for q in g.split()[1:]]
                ctx.count("api_outputs", len(vals))
                if vals != exp:
                    b = next(q for q in range(len(exp)) if q >= len(vals) or vals[q] != exp[q])
                    ctx.violation("api:value:" + st_of[i], "filters %s over a %d-bit generator: output %d is %x, expected %x" % (st_of[i], nb, b, vals[b], exp[b]), rp)
                    return
            elif not (g == exp or g.startswith(exp + " ")):
                ctx.violation("api:%s:%s" % (kind, st_of[i]), "filters %s over a %d-bit generator: %r, expected %r" % (st_of[i], nb, g, exp), rp)
                return
    vf.pmap(one, jobs)


def header(err):
    import re
    return re.findall(r"(?:Generator name|Name|Output size, bits): +(\S+)", err)


def combos():
    for nb in ("64", "32"):
        for f in FILTERS:
            if nb == "64" or f == "reverse-bits":
                yield nb, f


def main(ctx):
    ctx.rule = "one evaluation = one run of the filters (API session, program run); distinct = (part, generator, word size, filter, threads, input)"
    ctx.assumptions = ["the order of the interleaved halves is low half first, then high half (little endian; as the comments and the 32-bit dump format say)",
                       "tests of a 32-bit (or 32-bit filtered) generator may begin after the words consumed by the output size check"]
    R = ctx.rng
    api_part(ctx, R)
    exe, aexe = vf.build_cli("fast"), vf.build_cli("asan")
    sp, asp, lib, alib = vf.build_spy(), vf.build_spy("asan"), vf.build_batlib(), vf.build_batlib("asan")

    # --- raw output of the spy generator through every filter
    jobs = []
    for nb, f in combos():
        for m in ctx.scale([12, 13, 15], [12, 13, 14, 16, 18]):
            for src in ("hash", "words"):
                jobs.append((nb, f, m, src, R.getrandbits(40)))

    def raw(j):
        nb, f, m, src, seed = j
        nbits = int(nb)
        Q = __import__("random").Random(seed)
        asan = seed % 3 == 0
        env = {"VH_SPY_NBITS": nb, "VH_SPY_SEEDS": Q.choice(["64", "64,32", "32"])}
        par = Q.choice([None, "x%d" % (seed % 97)])
        args = ["stdout", asp if asan else sp, "--filter=" + f, "--maxlen_log2=%d" % m, "--seed=s%x" % seed] + (["--param=" + par] if par else [])
        if src == "words":
            w = spy.hard_words(Q, 3001, nbits)
            env["VH_SPY_WORDS"] = "%s/w%x" % (ctx.tmp, seed)
            open(env["VH_SPY_WORDS"], "wb").write(spy.tobytes(w, nbits))
        rc, out, err, lg = vf.cli(ctx, aexe if asan else exe, args, env, raw=True)
        rp = {"args": args, "env": env}
        ctx.case(("stdout", nb, f, m, src), sample="stdout %s-bit %s 2^%d bytes of %s: %d bytes compared" % (nb, f, m, src, len(out)) if m == 13 else None)

        def v(key, msg):
            ctx.violation("stdout:" + key + ":" + f, "stdout, %s-bit generator, %s: %s" % (nb, f, msg), rp)
        if rc != 0 or len(lg.creates) != 1:
            v(vf.san_key(err) if rc == 99 else "run", "exit %r, %d instances: %s" % (rc, len(lg.creates), err[-600:]))
            return
        onb = 32 if f != "reverse-bits" else nbits
        nout = (1 << m) * 8 // onb
        need = nout // 2 if f == "interleaved32" else nout
        c = lg.creates[0]
        if c.get("param", "") != (par or ""):
            v("param", "the plugin saw parameter %r instead of %r" % (c.get("param"), par))
        w0 = np.resize(w, need) if src == "words" else spy.words(spy.state(c), nbits, need)
        exp, enb = spy.transform(w0, nbits, f)
        ctx.count("stdout_words", nout)
        if out != spy.tobytes(exp, enb):
            got = spy.frombytes(out[:len(out) - len(out) % (enb // 8)], enb)
            if len(got) != len(exp):
                v("length", "%d words instead of %d" % (len(got), len(exp)))
            else:
                b = int(np.nonzero(got != exp)[0][0])
                v("value", "word %d of the output is %x, expected %x" % (b, int(got[b]), int(exp[b])))
        if int(lg.frees[0]["nget"]) != need:
            v("consumed", "%s words of the generator were drawn for %d words of output, expected %d" % (lg.frees[0]["nget"], nout, need))
        h = header(err)
        if h[:4] != [NAMES[f], str(onb), "SpyGen", nb]:
            v("header", "the header announces %r" % h)
    vf.pmap(raw, jobs)

    # --- what tests receive: dumps taken inside a battery, any number of threads
    res = ctx.tmp + "/res"
    vf.write_res(res, [("t%d" % i, 0.5, 0.5, 1.0, 1) for i in range(9)])
    jobs = []
    for nb, f in combos():
        for nth in ctx.scale([1, 2, 5], [1, 2, 3, 5, 8, 17]):
            jobs.append((nb, f, nth, R.getrandbits(40)))

    def dumped(j):
        nb, f, nth, seed = j
        nbits = int(nb)
        asan = seed % 3 == 0
        pre = "%s/d%x" % (ctx.tmp, seed)
        env = {"VH_SPY_NBITS": nb, "VH_RES": res, "VH_DUMP": pre, "VH_DUMPN": str(301 + seed % 2)}
        args = ["s=" + (alib if asan else lib), asp if asan else sp, "--filter=" + f, "--nthreads=%d" % nth, "--seed=d%x" % seed]
        rc, out, err, lg = vf.cli(ctx, aexe if asan else exe, args, env)
        rp = {"args": args, "env": env}
        ctx.case(("dump", nb, f, nth))

        def v(key, msg):
            ctx.violation("tests:" + key + ":" + f, "tests on a %s-bit generator, %s, %d threads: %s" % (nb, f, nth, msg), rp)
        if rc not in (0, 1):
            v(vf.san_key(err) if rc == 99 else "run", "exit %r: %s" % (rc, err[-500:]))
            return
        left = {c["id"]: spy.transform(spy.words(spy.state(c), nbits, 12000), nbits, f)[0] for c in lg.creates}
        n = 0
        for o in sorted(q for q in os.listdir(ctx.tmp) if q.startswith("d%x." % seed)):
            d = np.fromfile(ctx.tmp + "/" + o, dtype="<u8")
            os.unlink(ctx.tmp + "/" + o)
            n += len(d)
            hit = None
            for i, st in left.items():
                for off in np.nonzero(st[:2100] == d[0])[0]:
                    if np.array_equal(st[off:off + len(d)], d):
                        hit = (i, int(off))
            if hit is None:
                v("stream", "the words seen by thread %s (%d, from %x) are not the filtered stream of any one instance" % (o.split(".")[1], len(d), int(d[0])))
                return
            left.pop(hit[0])
        want = 9 * int(env["VH_DUMPN"]) + 7 * 36
        if n != want:
            v("amount", "the tests received %d words of %d" % (n, want))
        if any(t["gi"] != NAMES[f] or int(t["nbits"]) != (nbits if f == "reverse-bits" else 32) for t in lg.tests):
            v("size", "tests were given %r" % (lg.tests[0],))
        ctx.count("test_words", n)
        ctx.count("dumps")
    vf.pmap(dumped, jobs)

    # --- the same results as for a generator that produces the transformed stream by itself
    cfg = ctx.tmp + "/c.cfg"
    open(cfg, "w").write(smallbat.text(None, 12, skip=("dec",))[0])
    sel = [None] if ctx.quick else [None, 1, 5, 9]

    def equiv(j):
        nb, f, sl = j
        nbits = int(nb)
        Q = __import__("random").Random(ctx.seed)
        # few distinct words so that the equivalent stream can be given as a file
        w = np.array([Q.getrandbits(nbits) for _ in range(200003)], dtype=np.uint64)
        t, onb = spy.transform(w, nbits, f)
        fa, fb = "%s/ea%s%s%s" % (ctx.tmp, nb, f, sl), "%s/eb%s%s%s" % (ctx.tmp, nb, f, sl)
        open(fa, "wb").write(spy.tobytes(w, nbits))
        open(fb, "wb").write(spy.tobytes(t, onb))
        rows = []
        a = ["--testid=%d" % sl] if sl else []
        for env, x in (({"VH_SPY_NBITS": nb, "VH_SPY_WORDS": fa}, ["--filter=" + f]), ({"VH_SPY_NBITS": str(onb), "VH_SPY_WORDS": fb}, [])):
            rc, out, err, lg = vf.cli(ctx, exe, ["f=" + cfg, sp, "--seed=e"] + x + a, env, timeout=200)
            rows.append((rc, vf.parse_report(out)["rows"]))
        ctx.case(("equiv", nb, f, sl), sample="%s over %s bits: %d result rows equal those of the transformed stream" % (f, nb, len(rows[0][1])))
        ctx.count("equivalent_rows", len(rows[0][1]))
        if rows[0] != rows[1]:
            d = [q for q in zip(rows[0][1], rows[1][1]) if q[0] != q[1]]
            ctx.violation("equiv:" + f, "%s over %s bits: results %r, for the transformed stream %r" % (f, nb, d[0][0] if d else rows[0], d[0][1] if d else rows[1]), {"filter": f})
    vf.pmap(equiv, [(nb, f, s) for nb, f in combos() for s in sel])

    # --- standard input as the generator
    def piped(j):
        nb, f = j
        nbits = int(nb)
        w = spy.hard_words(__import__("random").Random(ctx.seed), 9000, nbits)
        pre = "%s/p%s%s" % (ctx.tmp, nb, f)
        env = {"VH_RES": res, "VH_DUMP": pre, "VH_DUMPN": "300"}
        rc, out, err, lg = vf.cli(ctx, exe, ["s=" + lib, "stdin" + nb, "--filter=" + f], env, input=spy.tobytes(w, nbits))
        ctx.case(("stdin", nb, f))

        def v(key, msg):
            ctx.violation("stdin:" + key + ":" + f, "stdin%s with %s: %s" % (nb, f, msg), {"filter": f, "nbits": nb})
        if rc not in (0, 1) or not os.path.exists(pre + ".1") and not os.path.exists(pre + ".0"):
            v("run", "exit %r: %s" % (rc, err[-400:]))
            return
        d = np.concatenate([np.fromfile(pre + "." + o, dtype="<u8") for o in "01" if os.path.exists(pre + "." + o)])
        t, onb = spy.transform(w, nbits, f)
        if not any(np.array_equal(t[o:o + len(d)], d) for o in np.nonzero(t[:2100] == d[0])[0]) or len(d) != 9 * 300 + 7 * 36:
            v("stream", "the words tests received are not the filtered input")
        ctx.count("stdin_words", len(d))
    vf.pmap(piped, list(combos()))

    # --- real generators: the filtered dump is the transformation of the plain one
    names = vf.gen_names()
    pick = R.sample(names, 36) if ctx.quick else names
    gens = vf.build_gens(pick)

    def plug(n):
        fl = sorted(FILTERS) if not ctx.quick else [R.choice(sorted(FILTERS)), "reverse-bits"]
        base = {}
        for rep in (0, 1):
            rc, out, err, _ = vf.cli(ctx, exe, ["stdout", gens[n], "--maxlen_log2=14", "--seed=real"], raw=True, log=False)
            base[rep] = (rc, out, header(err))
        if base[0] != base[1] or base[0][0] != 0:
            ctx.count("plugins_not_usable")
            return
        nbits = int(base[0][2][1])
        w = spy.frombytes(base[0][1], nbits)
        for f in fl:
            if nbits == 32 and f != "reverse-bits":
                rc, out, err, _ = vf.cli(ctx, exe, ["stdout", gens[n], "--filter=" + f, "--maxlen_log2=13", "--seed=real"], raw=True, log=False)
                ctx.case(("refuse", n, f))
                if rc in (0, 1) or out:
                    ctx.violation("refuse:" + f, "%s accepted for the 32-bit generator %s: exit %r, %d bytes" % (f, n, rc, len(out)), {"plugin": n})
                ctx.count("refused")
                continue
            rc, out, err, _ = vf.cli(ctx, exe, ["stdout", gens[n], "--filter=" + f, "--maxlen_log2=13", "--seed=real"], raw=True, log=False)
            t, onb = spy.transform(w, nbits, f)
            ctx.case(("plugin", n, f))
            ctx.count("plugin_words", (1 << 13) * 8 // onb)
            if rc != 0 or out != spy.tobytes(t, onb)[:1 << 13] or len(out) != 1 << 13:
                ctx.violation("plugin:" + f, "%s with %s: exit %r, %d bytes, not the transformation of the plain output %s" % (n, f, rc, len(out), err[-200:]), {"plugin": n, "filter": f})
    vf.pmap(plug, pick)

    # --- refusals
    for nb, f in (("32", "interleaved32"), ("32", "high32"), ("32", "low32"), ("64", "reversebits"), ("64", ""), ("64", "high"), ("64", "HIGH32"), ("32", "reverse-bits ")):
        for bat in ("stdout", "express", "s=" + lib, "freq", "speed"):
            rc, out, err, lg = vf.cli(ctx, exe, [bat, sp, "--filter=" + f, "--seed=r", "--maxlen_log2=12"], {"VH_SPY_NBITS": nb, "VH_RES": res}, raw=True)
            ctx.case(("refuse", nb, f, bat[:2]))
            ctx.count("refused")
            if rc in (0, 1) or lg.creates or lg.tests or out:
                ctx.violation("refuse:" + f, "filter %r for a %s-bit generator, battery %s: exit %r, %d instances, %d bytes of output" % (f, nb, bat, rc, len(lg.creates), len(out)), {"filter": f})
    for k, m in (("api_outputs", 4000), ("stdout_words", 20000), ("test_words", 20000), ("equivalent_rows", 20), ("stdin_words", 5000), ("plugin_words", 20000), ("refused", 40)):
        ctx.require(k, m)


vf.main("C20", main)
