"""C26: the command line: documented options are honoured, everything else is refused with a diagnostic and a non-zero exit code."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import seeds
import smallbat
import spy
import vf

VERDICT = re.compile(r"^Passed: +\d|All tests have been passed|^Quality \(0-4\)| battery report =====", re.M)
MARK = re.compile(r"ERROR: AddressSanitizer|runtime error:|SUMMARY: ")
NAMES = ["dummy", "help", "selftest"]
BADNUM = ["", "0", "-1", "x", "4x", "1e3", "0x10", "4294967297", "4294967298", "99999999999999999999", "-99999999999999999999", "2 ", "3;", "18446744073709551620", "--", "3=4"]
BADARG = ["", "-", "--", "=", "--=", "--=x", "nthreads=3", "-nthreads=3", "--nthreads", "--seed", "--testid", "--report-brief=1", "--threads=1", "--report-briefx", "--Seed=1",
          "--nthread=2", "--nthreadss=2", "--filters=low32", "-s", "extra", "--" + "a" * 29 + "=1", "--" + "a" * 31 + "=1", "--" + "b" * 32 + "=1", "--" + "c" * 33 + "=1", "--" + "d" * 64 + "=1", "--" + "e" * 128 + "=1", "--" + "a" * 500 + "=1", "--%s%n%x=1", "---seed=1", "-- seed=1",
          "--testname", "--nthreads" + "s" * 24 + "=1", "--seed" + "x" * 28 + "=1", "--help", "--version", "-h", "/?", "seed=5", "--seed:5"]
BADFILT = ["", "none ", "Reverse-Bits", "low16", "reverse", "interleaved", "x" * 300, "high32,low32"]
BADSEED = ["_01-" + "A" * 44, "_0G_" + "A" * 44, "_G0_" + "A" * 44, "_+1_" + "A" * 44, "_012_" + "A" * 44, "_01_" + "!" * 44, "_01_" + "*/*", "______"]


def main(ctx):
    ctx.rule = "one evaluation = one command line (or one injected allocation failure); distinct by the argument vector, plugin behaviour and fault point"
    ctx.assumptions = ["atoi-style leading white space and signs in numbers are not tested", "allocation failures are injected for requests of at least 1 KiB (tables and sample buffers)"]
    R = ctx.rng
    exe, spyl, batl = vf.build_cli("asan"), vf.build_spy(), vf.build_batlib()
    optl = vf.build("optlib", "fast", [vf.HARN + "/vh_optlib.c"], shared=True)
    T = ctx.tmp
    tiny = T + "/tiny.cfg"
    open(tiny, "w").write("battery name=tiny end\nmono test=monobit_freq nvalues=4096 end\nw8 test=nbit_words_freq bits_per_word=8 average_freq=16 nblocks=16 end\n")
    open(T + "/bad.cfg", "w").write("battery name=tiny end\nmono test=nosuchtest end\n")
    open(T + "/empty", "w").close()
    open(T + "/text.so", "w").write("this is not a library\n" * 50)
    open(T + "/head.so", "wb").write(open(spyl, "rb").read()[:100])
    os.mkdir(T + "/dir.so")
    os.mkdir(T + "/dir.cfg")
    open(T + "/res.txt", "w").close()
    inp = bytes(random.Random(5).getrandbits(8) for _ in range(1 << 20))

    # ---------- A: argument vectors against the documented grammar ----------
    def gen_opts(Q):
        """random options: (argv part, expected effect, is everything valid)"""
        a, eff, ok = [], dict(id=0, testname="(null)", nthreads=1, report=1, batparam="", param="", filter=None, maxlen=0, seed=None), True
        seedthr = 0
        bad = Q.random() < 0.22
        n = Q.choice([0, 1, 1, 2, 2, 3, 4, 6])
        badpos = Q.randrange(n + 1) if bad else -1
        for i in range(n + (1 if bad else 0)):
            if i == badpos:
                ok = False
                k = Q.randrange(6)
                if k < 2:
                    nm = Q.choice(["nthreads", "testid", "maxlen_log2"])
                    v = Q.choice(BADNUM + {"nthreads": ["256", "1000"], "testid": [], "maxlen_log2": ["11", "64", "1", "12.5"]}[nm])
                    a.append("--%s=%s" % (nm, v))
                elif k == 2:
                    a.append("--filter=" + Q.choice(BADFILT))
                elif k == 3:
                    a.append("--seed=" + Q.choice(BADSEED))
                else:
                    a.append(Q.choice(BADARG))
                continue
            k = Q.randrange(11)
            if k == 0:
                v = Q.choice([1, 2, 3, 7, 255, 254, Q.randint(1, 255)])
                eff["nthreads"] = v
                a.append("--nthreads=%d" % v)
            elif k == 1:
                v = Q.choice([1, 2, 99, 2147483647, Q.randint(1, 10 ** 6)])
                eff["id"] = v
                a.append("--testid=%d" % v)
            elif k == 2:
                v = Q.choice(["mono", "w8", "nosuch", "", "x" * 2000, "a=b", "%s%s%n"])
                eff["testname"] = v
                a.append("--testname=" + v)
            elif k == 3:
                eff["report"] = 0
                a.append("--report-brief")
            elif k == 4:
                v = Q.choice(["", "p", "a=b", "%s%n", "long" * 1000, "7"])
                eff["batparam"] = v
                a.append("--batparam=" + v)
            elif k == 5:
                v = Q.choice(["", "p", "a=b", "%s%n", "x" * 127, "7", "y" * 126])
                eff["param"] = v
                a.append("--param=" + v)
            elif k == 6:
                v = Q.choice(["reverse-bits", "interleaved32", "high32", "low32"])
                eff["filter"] = v
                a.append("--filter=" + v)
            elif k in (7, 8) and eff["seed"] is None:
                c = Q.randrange(4)
                if c == 0:
                    t = Q.choice([0, 0, 1, 2, 9, 16, 255])
                    key = [Q.getrandbits(32) for _ in range(8)]
                    v = "_%0*X_%s" % (2, t, seeds.b64(key))
                    if Q.random() < 0.3:
                        v = v[:3].lower() + v[3:]
                    if t:
                        seedthr = t
                else:
                    v = Q.choice(["", "1", "text", "_", "_x", "_0_", "z_01_" + "A" * 43, "s" * 5000, "a=b", "%n%s", "\u043a\u043b\u044e\u0447", "_1234"])
                eff["seed"] = v
                a.append("--seed=" + v)
            elif k == 9:
                v = Q.choice([12, 13, 14, 16])
                eff["maxlen"] = v
                a.append("--maxlen_log2=%d" % v)
            else:
                eff["nthreads"] = -1
                a.append("--threads")
        if seedthr:
            eff["nthreads"] = seedthr
        return a, eff, ok

    def one(seed):
        Q = random.Random(seed)
        opts, eff, ok = gen_opts(Q)
        bat = Q.choice(["s=" + optl] * 24 + ["dummy", "dummy", "help", "selftest", "stdout", "stdoutfl", "stdoutflx", "f=" + tiny, "f=" + tiny, "s=" + batl] +
                       ["Dummy", "dumm", "dummy ", "", "f", "s", "f=", "s=", "f=" + T + "/nofile", "f=" + T + "/dir.cfg", "f=" + T + "/bad.cfg", "f=" + T + "/empty", "s=" + T + "/nolib.so", "s=" + spyl,
                        "s=" + T + "/text.so", "%s%n", "x" * 3000, "nosuch", "--help", "list", "stdout64", "F=" + tiny])
        gen = Q.choice([spyl] * 40 + ["stdin32", "stdin64"] * 3 + ["list"] * 2 + [T + "/nolib.so", T + "/text.so", T + "/head.so", T + "/dir.so", T + "/empty", batl, "", "%s%n", "y" * 3000, "stdin16", "List"])
        if gen == "list" and Q.random() < 0.6:
            bat = Q.choice(["express", "brief", "default", "full", "f=" + tiny])
        beh = Q.choice(["ok"] * 12 + ["ginfo0", "fail1", "selfnone", "self0", "nodesc"])
        nbits = Q.choice([32, 64, 64])
        env = {"VH_SPY_NBITS": str(nbits), "VH_OPT": "%s/o%d" % (T, seed), "VH_RES": T + "/res.txt", "VH_RC": str(Q.choice([0, 0, 0, 1, 2]))}
        env.update({"ginfo0": {"VH_SPY_GINFO": "0"}, "fail1": {"VH_SPY_FAIL": "1"}, "selfnone": {"VH_SPY_SELF": "none"}, "self0": {"VH_SPY_SELF": "0"}, "nodesc": {"VH_SPY_DESC": "none"}}.get(beh, {}))
        stdin = gen in ("stdin32", "stdin64")
        if stdin:
            nbits, beh = int(gen[5:]), "ok"
        if bat.startswith("stdout") and eff["maxlen"] == 0:
            opts, eff["maxlen"] = opts + ["--maxlen_log2=12"], 12
        argv = [bat, gen] + opts
        if bat in ("stdout", "stdoutfl", "stdoutflx") and gen == "list":
            return
        rc, out, err, lg = vf.cli(ctx, exe, argv, env=env, input=inp if stdin else None, timeout=100, raw=True)
        txt = out.decode("utf-8", "replace")
        rp = {"argv": argv, "env": env, "rc": rc, "stderr": err[-1500:]}
        short = " ".join(x[-60:].replace(T, "$T") for x in argv)[:300] + " [%s]" % beh
        ctx.case(tuple(argv) + (beh, nbits, env["VH_RC"]))

        def bad(kind, msg):
            ctx.violation(kind, "smokerand %s: %s" % (short, msg), rp)
        if MARK.search(err) or MARK.search(txt):
            k = vf.san_key(err)
            return bad("memory:" + str(k), "sanitizer report")
        if rc is None:
            return bad("hang", "no end within 100 s")
        if rc < 0 or rc > 3:
            return bad("crash", "ended by a signal or with an unexpected code (%r): %s" % (rc, err[-300:]))
        if lg.bad:
            return bad("plugin-misuse", "the plugin saw misuse: %s" % lg.bad[:2])
        if len(lg.creates) != len(lg.frees) and beh != "fail1":
            return bad("lifetime", "%d generators created, %d destroyed" % (len(lg.creates), len(lg.frees)))
        optd = None
        if os.path.exists(env["VH_OPT"]):
            optd = dict(ln.split("=", 1) for ln in open(env["VH_OPT"], errors="surrogateescape").read().split("\n") if "=" in ln)
            os.unlink(env["VH_OPT"])

        def refused(why, kind):
            ctx.count("refusals")
            ctx.count("refused_" + kind)
            if rc == 0:
                return bad("accepted:" + kind, "exit 0 although " + why)
            if not err.strip() and not (txt.strip() and not bat.startswith("stdout")):
                return bad("silent:" + kind, "no diagnostic although " + why)
            if VERDICT.search(txt) or optd or lg.creates:
                return bad("ran:" + kind, "the battery ran although " + why)
            if bat in ("stdout", "stdoutfl", "stdoutflx") and out:
                return bad("output:" + kind, "%d bytes written to the standard output although %s" % (len(out), why))

        if not ok:
            return refused("an argument is invalid", "argument")
        if stdin and eff["nthreads"] not in (1, -1):
            return refused("standard input cannot be shared between threads", "stdin-threads")
        if stdin and eff["nthreads"] == -1 and os.cpu_count() > 1:
            return refused("standard input cannot be shared between threads", "stdin-threads")
        if gen == "list":
            if bat in ("express", "brief", "default", "full") or bat == "f=" + tiny:
                ctx.count("listings")
                if rc != 0 or not txt.strip() or VERDICT.search(txt):
                    bad("list", "exit %d" % rc)
                return
            return refused("there is no such battery to describe", "list")
        if not stdin and gen != spyl:
            return refused("the plugin cannot be loaded", "plugin")
        if beh == "ginfo0":
            return refused("the plugin refused to describe itself", "getinfo")
        if eff["filter"] in ("interleaved32", "high32", "low32") and nbits == 32:
            return refused("the filter needs a 64-bit generator", "filter")
        if eff["id"] and eff["testname"] != "(null)":
            return refused("testid and testname exclude each other", "id-and-name")
        valid_bat = bat in NAMES + ["stdout", "stdoutfl", "stdoutflx", "f=" + tiny, "s=" + optl, "s=" + batl]
        if not valid_bat:
            return refused("there is no such battery", "battery")
        ctx.count("accepted")
        ctx.count("accepted_" + (bat[:2] if bat[1:2] == "=" else bat))
        if bat == "dummy":
            if rc != 0 or lg.creates:
                bad("dummy", "exit %d, %d generators created" % (rc, len(lg.creates)))
            return
        if bat == "help":
            if stdin:
                return
            if beh == "nodesc":
                return bad("help", "exit 0 without a description") if rc == 0 else None
            if rc != 0 or "Spy description" not in txt:
                bad("help", "exit %d" % rc)
            return
        if bat == "selftest":
            q = [x for x in lg.lines if x.startswith("Q")]
            want = {"selfnone": (2, 0), "self0": (1, 1)}.get(beh, (0, 1))
            if stdin:
                want = (2, 0)
            if (rc != 0) != (want[0] != 0) or len(q) != want[1]:
                bad("selftest", "exit %d, self-test run %d times" % (rc, len(q)))
            return
        if beh == "fail1":
            if bat == "s=" + optl:
                if optd is None or optd["created"] != "0":
                    bad("fail-create", "custom battery was not given the failure: %r" % optd)
                return
            if bat == "s=" + batl:
                return
            ctx.count("creation_failures")
            if rc == 0 or VERDICT.search(txt) or not (err + txt).strip() or (bat.startswith("stdout") and out):
                bad("fail-create", "exit %d, %d bytes of output although the generator could not be created" % (rc, len(out)))
            return
        if bat == "s=" + optl:
            ctx.count("option_sets_compared")
            if optd is None or "end" not in optd:
                return bad("battery", "the custom battery did not run (exit %d)" % rc)
            if rc != int(env["VH_RC"]):
                bad("exit-code", "exit %d, the battery returned %s" % (rc, env["VH_RC"]))
            for k in ("id", "testname", "nthreads", "report", "batparam", "param"):
                w = str(eff[k])
                if k == "nthreads" and w == "-1":
                    if not 1 <= int(optd[k]) <= os.cpu_count():
                        bad("option:threads", "%s threads on %d cores" % (optd[k], os.cpu_count()))
                    continue
                if optd[k] != w:
                    bad("option:" + k, "the battery got %s=%s, expected %s" % (k, optd[k][:80], w[:80]))
            nb = 32 if eff["filter"] in ("interleaved32", "high32", "low32") else nbits
            if optd["nbits"] != str(nb):
                bad("option:filter", "%s-bit words with the filter %s" % (optd["nbits"], eff["filter"]))
            got = [int(x, 16) for x in optd["words"].split()]
            if stdin:
                w = np.frombuffer(inp[:256], dtype="<u4" if nbits == 32 else "<u8").astype(np.uint64)
            else:
                c = lg.creates[-1]
                w = spy.words(spy.state(dict(c, param=eff["param"])), nbits, 16)
            w, _ = spy.transform(w, nbits, eff["filter"])
            if got != [int(x) for x in w[:8]]:
                bad("option:filter", "words %s, expected %s (filter %s)" % (got[:2], [int(x) for x in w[:2]], eff["filter"]))
            if eff["seed"] is not None and eff["nthreads"] == 1 and not stdin:
                st = seeds.stream(seeds.seed_key(eff["seed"])[0], 1)
                if not lg.creates[0]["seeds"].startswith("64:%x," % st[0]):
                    bad("option:seed", "first seed %s, expected %x" % (lg.creates[0]["seeds"], st[0]))
                ctx.count("seeds_compared")
            return
        if bat == "stdout":
            want = 1 << eff["maxlen"]
            if stdin:
                want = min(want, len(inp) * (1 if eff["filter"] not in ("high32", "low32") else 1) // (2 if eff["filter"] in ("high32", "low32") else 1))
            if rc != 0 or len(out) != want:
                bad("stdout", "exit %d, %d bytes, expected %d" % (rc, len(out), want))
            return
        if bat.startswith("stdout"):
            if rc != 0 or not out:
                bad("stdout", "exit %d, %d bytes" % (rc, len(out)))
            return
        if bat == "f=" + tiny:
            sel = 2
            if eff["id"]:
                sel = 1 if eff["id"] in (1, 2) else 0
            if eff["testname"] != "(null)":
                sel = 1 if eff["testname"] in ("mono", "w8") else 0
            if sel == 0:
                return refused("there is no such test", "test") if rc == 0 or VERDICT.search(txt) else None
            rep = vf.parse_report(txt)
            if rc not in (0, 1) or rep.get("Passed") is None:
                return bad("report", "exit %d and no report" % rc)
            if rep["Passed"] + rep["Suspicious"] + rep["Failed"] != sel:
                bad("report", "%d tests requested, %d in the report" % (sel, rep["Passed"] + rep["Suspicious"] + rep["Failed"]))
            if (rc == 1) != (rep["Failed"] > 0):
                bad("report", "exit %d with %d failed tests" % (rc, rep["Failed"]))
            ctx.count("reports")
    vf.pmap(one, [R.getrandbits(40) for _ in range(ctx.scale(6500, 80000))])

    # fixed informational command lines
    for argv, want in (([], "0"), (["--version"], "0"), (["list"], "0"), (["nosuch.so"], "!0"), (["--help"], "!0"), ([""], "!0"), (["express", "list"], "0"), (["brief", "list"], "0"), (["default", "list"], "0"),
                       (["full", "list"], "0"), (["speed", "list"], "!0"), (["express"], "!0"), ([T + "/text.so"], "!0")):
        rc, out, err, lg = vf.cli(ctx, exe, argv)
        ctx.case(("info",) + tuple(argv))
        ctx.count("informational")
        if rc is None or rc < 0 or rc > 3 or (rc == 0) != (want == "0") or not (out + err).strip() or VERDICT.search(out):
            ctx.violation("info:" + " ".join(argv)[:20], "smokerand %s: exit %r" % (" ".join(argv), rc), {"argv": argv, "stdout": out[-500:], "stderr": err[-500:]})
        if want == "0" and not out.strip():
            ctx.violation("info-out:" + " ".join(argv)[:20], "smokerand %s printed nothing" % " ".join(argv), {"argv": argv})

    # ---------- B: every real plugin: any parameter is accepted and works, or is refused ----------
    gens = vf.build_gens(vf.gen_names(), "asan")
    par = ["", "zzunknown", "AVX2", "x" * 127, "64 ", "-1", "u32,u64", "%s%n"]

    def plug(j):
        n, p, mode = j
        if mode == "stdout":
            rc, out, err, lg = vf.cli(ctx, exe, ["stdout", gens[n], "--param=" + p, "--maxlen_log2=12", "--seed=q"], timeout=100, raw=True)
        else:
            rc, out, err, lg = vf.cli(ctx, exe, [mode, gens[n], "--param=" + p], timeout=200, raw=True)
        ctx.case((n, p, mode))
        ctx.count("plugin_runs_" + mode)
        rp = {"plugin": n, "param": p, "mode": mode, "rc": rc, "stderr": err[-1500:]}
        t = err + out.decode("latin1") if mode != "stdout" else err
        if MARK.search(t) or rc is None or rc < 0 or rc > 3:
            ctx.violation("plugin:%s:%s" % (mode, n), "%s %s --param='%s': exit %r %s" % (mode, n, p[:20], rc, vf.san_key(t)), rp)
        elif mode == "stdout":
            if rc == 0 and len(out) != 4096:
                ctx.violation("plugin-short:" + n, "%s --param='%s': exit 0 and %d bytes" % (n, p[:20], len(out)), rp)
            if rc != 0 and (out or not err.strip()):
                ctx.violation("plugin-refusal:" + n, "%s --param='%s': exit %d and %d bytes, diagnostic %r" % (n, p[:20], rc, len(out), err[:50]), rp)
            if rc != 0 and p == "":
                ctx.violation("plugin-default:" + n, "%s cannot be created without parameters: %s" % (n, err[-200:]), rp)
            if rc != 0:
                ctx.count("plugin_refusals")
        elif mode == "selftest":
            if rc == 1:
                ctx.violation("plugin-selftest:" + n, "self-test of %s fails" % n, rp)
            has = b"not implemented" not in out
            if has != (rc == 0):
                ctx.violation("plugin-selftest-code:" + n, "self-test of %s: exit %d, output %r" % (n, rc, out[-100:]), rp)
        elif mode == "help" and (rc == 0) != (b"help not found" not in out):
            ctx.violation("plugin-help:" + n, "help of %s: exit %d" % (n, rc), rp)
    js = [(n, p, "stdout") for n in gens for p in (par if not ctx.quick else ["", "zzunknown", R.choice(par[2:])])]
    js += [(n, "", "help") for n in gens] + ([(n, "", "selftest") for n in gens] if not ctx.quick else [])
    vf.pmap(plug, js)

    # ---------- C: a failing memory request never leads to a crash or to a verdict about an untested generator ----------
    oom = vf.build("smokerand_oom", "asan", vf.CORE + vf.BATS + [vf.REPO + "/apps/smokerand.c", vf.HARN + "/oomwrap.c"],
                   link=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"])
    clean = lambda s: re.sub(r"(?m)^.*([Ee]lapsed|RAM|[Tt]ime|sec).*\n", "", s)

    def oomrun(bat, opts, k, rest, w):
        cf = "%s/c%d" % (T, random.getrandbits(50))
        env = {"OOM_MIN": "1024", "OOM_COUNT": cf, "VH_SPY_NBITS": str(w)}
        if k:
            env["OOM_K"] = str(k)
        if rest:
            env["OOM_REST"] = "1"
        rc, out, err, lg = vf.cli(ctx, oom, [bat, spyl, "--seed=oom"] + opts, env=env, timeout=150)
        n, hit = 0, 0
        if os.path.exists(cf):
            n, hit = map(int, open(cf).read().split())
            os.unlink(cf)
        return rc, out, err, n, hit

    def oomcase(j):
        name, line, opts, w, Q = j
        bf = "%s/oom_%s_%d.cfg" % (T, name, Q.getrandbits(50))
        open(bf, "w").write("battery name=oom end\n%s test=%s end\n" % (name, line))
        rc0, out0, err0, n, _ = oomrun("f=" + bf, opts, 0, 0, w)
        if rc0 not in (0, 1):
            ctx.violation("oom-base:" + name, "%s: exit %r without faults" % (line, rc0), {"stderr": err0[-500:]})
            return
        ks = list(range(1, n + 1))
        if len(ks) > ctx.scale(8, 60):
            ks = ks[:4] + sorted(Q.sample(ks[4:], ctx.scale(4, 56)))
        for k in ks:
            rest = Q.random() < 0.3
            rc, out, err, _, hit = oomrun("f=" + bf, opts, k, rest, w)
            ctx.case(("oom", line, tuple(opts), k, rest, w))
            ctx.count("allocation_failures", hit)
            rp = {"test": line, "k": k, "rest": rest, "nbits": w, "rc": rc, "stderr": err[-1500:]}
            if MARK.search(err) or rc is None or rc < 0 or rc > 3:
                ctx.violation("oom:%s" % line.split()[0], "%s: failing memory request %d: exit %r %s" % (line, k, rc, vf.san_key(err)), rp)
            elif VERDICT.search(out):
                if rc != rc0 or clean(out) != clean(out0):
                    ctx.violation("oom-verdict:%s" % line.split()[0], "%s: failing memory request %d: another report than without the failure" % (line, k), dict(rp, out=out[-1500:], base=out0[-1500:]))
                ctx.count("fallbacks")
            elif rc == 0 or not (out + err).strip():
                ctx.violation("oom-exit:%s" % line.split()[0], "%s: failing memory request %d: no report and exit %d" % (line, k, rc), rp)
            else:
                ctx.count("oom_refusals")
        os.unlink(bf)
    todo = []
    for name, line in smallbat.SMALL:
        for w in (32, 64):
            todo.append((name, line, R.choice([[], ["--nthreads=2"]]), w, random.Random(R.getrandbits(60))))
    vf.pmap(oomcase, todo)
    for k, m in (("accepted", 400), ("refusals", 800), ("option_sets_compared", 200), ("seeds_compared", 15), ("reports", 30), ("plugin_runs_stdout", 600), ("allocation_failures", 60), ("creation_failures", 4)):
        ctx.require(k, m)
    for k in ("argument", "stdin-threads", "plugin", "getinfo", "filter", "id-and-name", "battery", "list"):
        ctx.require("refused_" + k, 3)


vf.main("C26", main)
