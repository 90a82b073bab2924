"""C27: generator instances are created and destroyed exactly once and used only while alive."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import batfile
import smallbat
import vf


def lifecycle(ctx, lg, v, complete):
    """typestate of plugin, instances and plugin memory over one event log"""
    if lg.bad:
        v("misuse", "%s" % lg.bad[:3])
    made = {c["id"]: c for c in lg.creates}
    freed = {}
    for f in lg.frees:
        if f["id"] in freed:
            v("double", "instance %d destroyed twice" % f["id"])
        if f["id"] not in made:
            v("unknown", "instance %d destroyed but never created" % f["id"])
        freed[f["id"]] = f
    ld = [n for n, ln in lg.other if ln == "L load"]
    ul = [n for n, ln in lg.other if ln == "U unload"]
    fails = [n for n, ln in lg.other if ln.startswith("X ")]
    ctx.count("instances", len(made))
    if len(ld) > 1 or len(ul) > 1:
        v("loads", "plugin loaded %d times, unloaded %d times" % (len(ld), len(ul)))
    last = max([c["n"] for c in lg.creates + lg.frees] + [t["n"] for t in lg.tests] + [-1])
    if ul and last > ul[0]:
        v("unload", "plugin unloaded before its last use")
    mem = {}
    for n, ln in lg.other:
        w = ln.split(" ")
        if w[0] == "A":
            mem[w[1]] = n
            ctx.count("plugin_allocations")
        elif w[0] == "R" and w[1] != "(nil)":
            if w[1] not in mem:
                v("badfree", "block %s given back that is not allocated" % w[1])
            mem.pop(w[1], None)
    if complete:
        lost = [i for i in made if i not in freed]
        if lost:
            v("lost", "instances %r of %d were never destroyed" % (lost[:5], len(made)))
        if not ld or not ul:
            v("unload", "plugin loaded %d, unloaded %d times in a completed run" % (len(ld), len(ul)))
        if mem:
            v("memory", "%d blocks allocated for the plugin were not returned" % len(mem))
    return len(made), len(fails)


def main(ctx):
    ctx.rule = "one evaluation = one run of the program in one battery or mode with a spy plugin; distinct = (mode, word size, filter, threads, selection, failing creation)"
    ctx.assumptions = ["statistical engines are recorders (fully real in the small custom batteries)",
                       "after a failed creation the program ends at once; instances alive at that moment are not required to be destroyed, only that nothing is used and no verdict is given"]
    X = ["-DVH_WRAP_API"]
    mock, amock, spy, aspy = vf.build_mock("fast", extra=X), vf.build_mock("asan", extra=X), vf.build_spy(), vf.build_spy("asan")
    real, lib, alib = vf.build_real("fast"), vf.build_batlib(), vf.build_batlib("asan")
    R = ctx.rng
    res = ctx.tmp + "/res"
    vf.write_res(res, [("t%d" % i, 0.5, 0.5, 1.0, 1) for i in range(7)])
    cfg = ctx.tmp + "/c.cfg"
    open(cfg, "w").write(smallbat.text(None, 12, skip=("dec",))[0])
    modes = {"express": [], "brief": [], "default": [], "full": [], "ising": [], "unitsphere": [], "birthday": [], "selftest": [], "help": [], "dummy": [],
             "stdout": ["--maxlen_log2=13"], "stdoutfl": ["--maxlen_log2=12"], "stdoutflx": ["--maxlen_log2=12"], "f=" + cfg: [], "s=": []}
    jobs = []
    for bat, extra in modes.items():
        for nb in ("64", "32"):
            for flt in (None, "reverse-bits", "interleaved32", "high32", "low32"):
                if nb == "32" and flt not in (None, "reverse-bits"):
                    continue
                for nth in ctx.scale([1, R.choice([2, 3, 8])], [1, 2, 3, 8, 40, 255]):
                    sel = R.choice([None, None, None, "--testid=1", "--testid=2", "--testid=9999", "--testname=nosuch"])
                    jobs.append((bat, extra, nb, flt, nth, sel, 0))
                n = 5 if bat[:2] in ("f=", "s=") or bat in ("express", "brief", "default", "full", "ising", "unitsphere") else 1
                for k in range(1, n + 1):
                    jobs.append((bat, extra, nb, flt, max(1, n - 1) if k > 1 else R.choice([1, 4]), None, k))

    def one(j):
        bat, extra, nb, flt, nth, sel, fail = j
        asan = (vf.hash_int(repr(j)) + ctx.seed) % 3 == 0
        b = bat if bat != "s=" else "s=" + (alib if asan else lib)
        env = {"VH_SPY_NBITS": nb, "VH_RES": res, "VH_SPY_DESC": "text"}
        if fail:
            env["VH_SPY_FAIL"] = str(fail)
        if nth > 1:
            env["VH_DELAY"] = "%d:40" % vf.hash_int(repr(j))
        args = [b, aspy if asan else spy, "--seed=c27", "--nthreads=%d" % nth] + extra + (["--filter=" + flt] if flt else []) + ([sel] if sel else [])
        rc, out, err, lg = vf.cli(ctx, amock if asan else mock, args, env, timeout=100)
        name = os.path.basename(bat) or bat
        rp = {"args": args, "env": env}
        ctx.case(repr(j), sample="%s %s bits filter=%s threads=%d fail=%d: %d created, %d destroyed" % (name, nb, flt, nth, fail, len(lg.creates), len(lg.frees)) if len(ctx.samples) < 6 and vf.hash_int(repr(j)) % 40 == 0 else None)

        def v(key, msg):
            ctx.violation(key + ":" + name, "%s %s bits filter=%s threads=%d %s%s: %s" % (name, nb, flt, nth, sel or "", " creation %d fails" % fail if fail else "", msg), rp)
        if rc is None or rc < 0 or rc in (99, 66, 79):
            v(vf.san_key(err) if rc == 99 else "crash", "ended with %r: %s" % (rc, err[-900:]))
            return
        refused = sel in ("--testid=9999", "--testname=nosuch")
        n, nf = lifecycle(ctx, lg, v, complete=not nf_hit(lg))
        if nf:
            ctx.count("failed_creations")
            if rc == 0:
                v("failok", "exit code 0 although an instance could not be created")
            if "report ====" in out and "Seeds logger" not in out or any(q for q in vf.parse_report(out)["rows"]):
                v("verdict", "a report is given although an instance could not be created")
        elif not fail and not refused and rc not in (0, 1):
            v("run", "exit code %r: %s" % (rc, err[-300:]))
        if bat in ("help", "dummy", "selftest") and n:
            ctx.count("special_instances", n)
        ctx.count("runs_" + ("asan" if asan else "plain"))
    def nf_hit(lg):
        return any(ln.startswith("X ") for n, ln in lg.other)
    vf.pmap(one, jobs)

    # modes that run real loops: speed, real engines with real threads
    rj = [["speed"], ["f=" + cfg, "--nthreads=3"], ["f=" + cfg, "--filter=high32"], ["f=" + cfg, "--filter=interleaved32", "--nthreads=8"], ["express"], ["express", "--filter=reverse-bits", "--nthreads=2"]]
    if not ctx.quick:
        rj += [["speed", "--filter=low32"]]
    rj = [["freq"]] + rj
    rplain = vf.build_real("plain")

    def slow(a):
        rc, out, err, lg = vf.cli(ctx, rplain if a == ["freq"] else real, [a[0], spy, "--seed=q"] + a[1:], {"VH_SPY_CONST": "12345678", "VH_SPY_NBITS": "32", "VH_SPY_LIGHT": "1"} if a == ["freq"] else {}, timeout=600)
        ctx.case(("real", tuple(a)), sample="real %s: %d created, %d destroyed, %s words" % (a, len(lg.creates), len(lg.frees), sum(int(f["nget"]) for f in lg.frees)))

        def v(key, msg):
            ctx.violation(key + ":real", "real %r: %s" % (a, msg), {"args": a})
        if rc not in (0, 1):
            v("run", "exit %r %s" % (rc, err[-500:]))
            return
        lifecycle(ctx, lg, v, True)
        ctx.count("real_runs")
        ctx.count("words_delivered", sum(int(f["nget"]) for f in lg.frees))
    vf.pmap(slow, rj, 4)

    # the reader of the output goes away, the disk is full
    def werr(j):
        mode, nb, flt, n, how = j
        sh = {"full": 'exec "$@" > /dev/full', "pipe": 'trap "" PIPE; "$@" | head -c 5000 >/dev/null', "sigpipe": '"$@" | head -c 5000 >/dev/null'}[how]
        a = ["-c", sh, "sh", amock if n % 2 else mock, mode, aspy if n % 2 else spy, "--seed=w", "--maxlen_log2=%d" % n] + (["--filter=" + flt] if flt else [])
        rc, out, err, lg = vf.cli(ctx, "/bin/bash", a, {"VH_SPY_NBITS": nb}, timeout=100)
        ctx.case(("werr",) + j, sample="%s to %s output: %d created, %d destroyed" % (mode, how, len(lg.creates), len(lg.frees)) if n == 20 else None)

        def v(key, msg):
            ctx.violation(key + ":" + mode, "%s, %s bits, filter %s, 2^%d, %s output: %s" % (mode, nb, flt, n, how, msg), {"args": a})
        if "Sanitizer" in err:
            v(vf.san_key(err), err[-700:])
        lifecycle(ctx, lg, v, how != "sigpipe")
        ctx.count("write_failures")
    vf.pmap(werr, [(m, nb, flt, n, how) for m in ("stdout", "stdoutfl", "stdoutflx") for nb, flt in (("32", None), ("64", None), ("64", "low32"), ("64", "interleaved32"), ("32", "reverse-bits"))
                   for n in (12, 15, 20) for how in ("full", "pipe", "sigpipe")])

    # plugins that cannot be used: nothing is created, the library is released
    for env, what in (({"VH_SPY_GINFO": "0"}, "gen_getinfo fails"), ({"VH_SPY_WIDE": "1", "VH_SPY_NBITS": "32"}, "words wider than announced")):
        for nth in (1, 4):
            rc, out, err, lg = vf.cli(ctx, mock, ["express", spy, "--seed=q", "--nthreads=%d" % nth], env)
            ctx.case(("bad", what, nth))

            def v(key, msg):
                ctx.violation(key + ":bad", "%s, %d threads: %s" % (what, nth, msg), {"env": env})
            lifecycle(ctx, lg, v, False)
            if len(lg.creates) != len(lg.frees) or lg.tests or rc in (0, 1):
                v("bad", "exit %r, %d created, %d destroyed, %d tests" % (rc, len(lg.creates), len(lg.frees), len(lg.tests)))
            ctx.count("unusable_plugins")
    for k, m in (("instances", 500), ("failed_creations", 60), ("runs_asan", 60), ("plugin_allocations", 800), ("real_runs", 5), ("write_failures", 120)):
        ctx.require(k, m)


vf.main("C27", main)
