"""C31: the speed battery and the speed comparison report the generators' real cost, consistently."""
import os
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf

BLOCK = 32768
NUM = r"(\S+)"
SEC = re.compile(r"Nanoseconds per call:\s+Raw result: +%s\s+For empty 'dummy' PRNG: +%s\s+Corrected result: +%s\s+Corrected result \(GiB/sec\): +%s\s+"
                 r"CPU frequency: +%s MHz\s+CPU ticks per call:\s+Raw result: +%s\s+Raw result \(cpB\): +%s\s+For empty 'dummy' PRNG: +%s\s+"
                 r"Corrected result: +%s\s+Corrected result \(cpB\): +%s\s" % ((NUM,) * 10))
GIB, MIB = 2.0 ** 30, 2.0 ** 20


def near(a, b, rel=2e-5, ab=0.0):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= rel * abs(b) + ab


def plugin(name, nbits, d, ds, nosum=False):
    fl = ['-DVS_NAME="%s"' % name, "-DVS_NBITS=%d" % nbits, "-DVS_D=%r" % d, "-DVS_DS=%r" % ds] + (["-DVS_NOSUM"] if nosum else [])
    return vf.build("slow_" + name, "plain", [vf.HARN + "/vh_slow.c"], extra_flags=fl, shared=True)


def check(ctx):
    ctx.rule = "one evaluation = one speed battery or comparison run; distinct = (program, generator costs, word sizes, options)"
    R = ctx.rng
    exes = {"plain": (vf.build_cli("plain"), None), "asan": (vf.build_cli("asan"), None)}
    cmp_exe = {fl: vf.build("sr_speed", fl, vf.CORE + vf.BATS + [vf.REPO + "/apps/sr_speed.c"]) for fl in ("plain", "asan")}
    clock = vf.build("virtclock", "plain", [vf.HARN + "/virtclock.c"], link=["-lpthread"], shared=True)
    pool = []
    for k in range(14):
        nb = (32, 64)[k % 2]
        d = [150.0, 1000.0, 12345.0, 1e6, 400.0, 2e8, 60.0][k % 7] * R.uniform(1, 1.9)
        ds = [40.0, 500.0, 15.0, 1e4, 3e5, 80.0, 5e6][k % 7] * R.uniform(1, 1.9)
        d, ds = round(d, 3), round(ds, 3)
        pool.append((plugin("p%d_name_of_generator_%d" % (k, k) if k % 5 == 4 else "p%d" % k, nb, d, ds), "p%d_name_of_generator_%d" % (k, k) if k % 5 == 4 else "p%d" % k, nb, d, ds))
    nos = (plugin("nosum", 64, 333.0, 1.0, True), "nosum", 64, 333.0, None)
    nos32 = (plugin("nosum32", 32, 2222.0, 1.0, True), "nosum32", 32, 2222.0, None)
    runno = [0]

    def launch(exe, args, san, timeout=200):
        runno[0] += 1
        lg = "%s/clk%d_%d" % (ctx.tmp, runno[0], R.getrandbits(40))
        env = {"LD_PRELOAD": clock, "VH_CLOCKLOG": lg}
        if san:
            env["ASAN_OPTIONS"] = vf.SAN_ENV.get("ASAN_OPTIONS", "") + ":verify_asan_link_order=0"
        rc, out, err = vf.run([exe] + args, timeout=timeout, env=env, cwd=ctx.tmp)
        ev = {}
        if os.path.exists(lg):
            for kv in open(lg).read().split():
                k, _, v = kv.partition("=")
                ev[k] = ev.get(k, 0) + int(v)
        return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), ev

    def sections(what, out, p, filt, rp):
        """checks the figures of one speed report; returns (raw bytes/s by calls, by sums, mean corrected bytes/s)"""
        name, nb, d, ds = p[1:]
        words = 1
        if filt in ("high32", "low32"):
            nb = 32
        elif filt == "interleaved32":
            nb, d = 32, d / 2          # one 64-bit word gives two outputs
        ss = [tuple(float(v) for v in m.groups()) for m in SEC.finditer(out)]
        want = 2 if ds is not None and not filt else 1
        if len(ss) != want:
            ctx.violation("sections", "%s: %d measurement sections, expected %d" % (what, len(ss), want), rp)
            return None
        bps = []
        for i, (raw, dummy, corr, gib, mhz, traw, tcpb, tdummy, tcorr, tccpb) in enumerate(ss):
            n = 1 if i == 0 else BLOCK
            nbytes = n * nb / 8
            true = d if i == 0 else ds * BLOCK
            ctx.count("figures_checked", 6)
            # interleaving: with an odd number of calls the last word is used by half
            if not near(raw, true, 2e-3 if filt == "interleaved32" else 2e-5):
                ctx.violation("raw", "%s: %g ns per call reported, every call costs %g ns" % (what, raw, true), rp)
            if not dummy > 0:
                ctx.violation("dummy", "%s: the empty generator takes %r ns" % (what, dummy), rp)
            if not near(corr, raw - dummy, 0, 1e-5 * (abs(raw) + abs(dummy))) and not (raw <= dummy * 1.00002 and corr != corr):
                ctx.violation("corr", "%s: corrected %r ns, raw %r minus dummy %r" % (what, corr, raw, dummy), rp)
            if corr == corr and not near(gib, nbytes / (corr * 1e-9) / GIB, 1e-4 + 2e-5 * raw / corr):
                ctx.violation("gib", "%s: %r GiB/s reported, %g bytes per %r ns" % (what, gib, nbytes, corr), rp)
            if not traw > 0 or not tdummy > 0 or not near(tcpb, traw / nbytes):
                ctx.violation("cpb", "%s: raw %r ticks, dummy %r, %r per byte of %g" % (what, traw, tdummy, tcpb, nbytes), rp)
            if not near(tcorr, traw - tdummy, 0, 2e-5 * (traw + tdummy)) and not (traw <= tdummy * 1.0001 and tcorr != tcorr):
                ctx.violation("tcorr", "%s: corrected %r ticks, raw %r minus dummy %r" % (what, tcorr, traw, tdummy), rp)
            if tcorr == tcorr and not near(tccpb, tcorr / nbytes, 1e-4 + 4e-5 * (traw + tdummy) / tcorr):
                ctx.violation("tcpb", "%s: corrected %r ticks is %r per byte of %g" % (what, tcorr, tccpb, nbytes), rp)
            if not mhz > 0:
                ctx.violation("mhz", "%s: CPU frequency %r" % (what, mhz), rp)
            bps.append((nbytes / (true * 1e-9), gib * GIB, tccpb))
        if want == 1:
            return bps[0][0], None, bps[0][1]
        m = re.search(r"Average results:\s+Corrected result \(GiB/s\): +%s\s+Corrected result \(cpB\): +%s\s" % (NUM, NUM), out)
        if not m:
            ctx.violation("average", "%s: no average results" % what, rp)
            return None
        avg = float(m.group(1)) * GIB
        a, b = bps[0][1], bps[1][1]
        if not (bps[0][2] < 0.26 and near(avg, b)) and not near(avg, 2 / (1 / a + 1 / b), 1e-4):
            ctx.violation("average", "%s: average %g bytes/s from %g and %g" % (what, avg, a, b), rp)
        c = 0.5 * (bps[0][2] + bps[1][2])
        if not (bps[0][2] < 0.26 and near(float(m.group(2)), bps[1][2])) and not near(float(m.group(2)), c, 1e-4):
            ctx.violation("average", "%s: average cpB %s from %g and %g" % (what, m.group(2), bps[0][2], bps[1][2]), rp)
        return bps[0][0], bps[1][0], avg

    def life(what, rc, err, ev, rp, ncreate):
        if rc != 0 or "Sanitizer" in err:
            ctx.violation("exit", "%s: exit %r, stderr %s" % (what, rc, err[-300:]), rp)
        if ev.get("create", 0) != ev.get("free") or ev.get("dead") or not ncreate <= ev["create"]:
            ctx.violation("instances", "%s: instances %r" % (what, ev), rp)
        ctx.count("generator_calls", ev.get("calls", 0))

    jobs = [("cli", fl, p, filt) for fl in ("plain", "asan") for p in R.sample(pool, ctx.scale(3, 14)) for filt in ("",)]
    jobs += [("cli", "plain", nos, ""), ("cli", "plain", nos32, "")]
    for filt in ("reverse-bits", "interleaved32", "high32", "low32"):
        for p in R.sample([q for q in pool + [nos] if q[2] == 64 and q[3] < 1e6], ctx.scale(1, 4)):
            jobs.append(("cli", "plain", p, filt))
    for k in range(ctx.scale(8, 30)):
        n = R.choice([1, 2, 2, 3, 4, 6])
        ps = R.sample(pool, n)
        if k % 4 == 2:
            ps[-1] = R.choice([nos, nos32])
        jobs.append(("cmp", "asan" if k % 3 == 1 else "plain", ps, None))

    def one(j):
        kind, fl, p, filt = j
        if kind == "cli":
            what = "speed battery of %s (%d bits, %g ns per call, %s per word in sums)%s, %s build" % (p[1], p[2], p[3], p[4], " filter " + filt if filt else "", fl)
            rp = {"args": ["speed", p[0]] + (["--filter=" + filt] if filt else []), "virtual_ns": p[3:]}
            rc, out, err, ev = launch(exes[fl][0], rp["args"], fl == "asan")
            ctx.case((p[1:], filt, fl), sample=what)
            ctx.count("speed_reports")
            life(what, rc, err, ev, rp, 1)
            sections(what, out, p, filt, rp)
            return
        what = "sr_speed of %s (%s build)" % (", ".join("%s:%g:%s" % (q[1], q[3], q[4]) for q in p), fl)
        rp = {"args": [q[0] for q in p], "virtual_ns": [q[1:] for q in p]}
        rc, out, err, ev = launch(cmp_exe[fl], rp["args"], fl == "asan", 400)
        ctx.case((tuple(q[1:] for q in p), fl), sample=what)
        ctx.count("comparisons")
        life(what, rc, err, ev, rp, len(p))
        parts = re.split(r"Running speed test for generator ", out)[1:]
        if [t.split("\n")[0] for t in parts] != [q[1] for q in p]:
            ctx.violation("order", "%s: measured %r" % (what, [t.split("\n")[0] for t in parts]), rp)
            return
        val = {q[1]: sections(what, t.split("-- Results")[0], q, "", rp) for q, t in zip(p, parts)}
        if None in val.values():
            return
        tabs = re.split(r"(?m)^-- .*$", parts[-1])[1:]
        if len(tabs) != 3:
            ctx.violation("tables", "%s: %d tables" % (what, len(tabs)), rp)
            return
        order = None
        for ti, t in enumerate(tabs):
            ls = [x for x in t.split("\n") if x.strip()]
            head = ls[0].split()
            rows = [x.split() for x in ls[1:]]
            names = [r[0] for r in rows]
            full = {q[1][:18]: q[1] for q in p}
            if head[0] != "MiB/s" or [full.get(x, "?")[:15] for x in names] != head[1:] or sorted(names) != sorted(full):
                ctx.violation("labels", "%s: table %d header %r rows %r" % (what, ti, head, names), rp)
                return
            order = order or names
            if names != order:
                ctx.violation("labels", "%s: table %d rows in order %r, first table %r" % (what, ti, names, order), rp)
            v = [val[full[x]][ti] for x in names]
            if ti == 2 and any(v[i] > v[i + 1] * 1.0001 for i in range(len(v) - 1)):
                ctx.violation("sorted", "%s: rows %r are not sorted by the mean speeds %r" % (what, names, v), rp)
            for i, r in enumerate(rows):
                mib = float(r[1])
                ctx.count("table_cells", 1 + len(v))
                if v[i] is None:
                    # the generator offers no bulk sums: there is no figure to show
                    if mib == mib:
                        ctx.violation("nosum", "%s: table of bulk sums shows %s MiB/s for %s, which was not measured" % (what, r[1], names[i]), rp)
                    continue
                if not abs(mib - v[i] / MIB) <= 0.501 + 1e-4 * v[i] / MIB:
                    ctx.violation("cell", "%s: table %d shows %s MiB/s for %s, measured %g" % (what, ti, r[1], names[i], v[i] / MIB), rp)
                for k2, c in enumerate(r[2:]):
                    if v[k2] is None:
                        continue
                    want = 100.0 * (v[i] / v[k2] - 1)
                    if not c.endswith("%") or abs(float(c[:-1]) - want) > 0.51 + 3e-4 * (abs(want) + 100):
                        ctx.violation("ratio", "%s: table %d, %s against %s: %s, expected %.2f%%" % (what, ti, names[i], names[k2], c, want), rp)
    vf.pmap(one, jobs, 6)

    # refused plugins: an error status, no crash and no table, wherever the bad one stands
    junk = ctx.tmp + "/junk.so"
    open(junk, "w").write("not a library")
    for args in ([], [junk], ["/nonexistent.so"], [nos[0], junk], [pool[0][0], nos[0], junk], [junk, nos[0]], [pool[0][0], pool[1][0], "/nonexistent.so", nos[0]]):
        for fl in ("plain", "asan"):
            rc, out, err, ev = launch(cmp_exe[fl], args, fl == "asan")
            ctx.case(("bad", len(args), fl, tuple(os.path.basename(a)[:5] for a in args)))
            ctx.count("refusals")
            if rc is None or rc < 1 or rc > 3 or "-- Results" in out or "Sanitizer" in err:
                ctx.violation("refusal", "sr_speed with %r (%s build): exit %r, stderr %s" % ([os.path.basename(a) for a in args], fl, rc, err[-300:]), {"args": args})
    ctx.require("speed_reports", 8)
    ctx.require("comparisons", 6)
    ctx.require("table_cells", 40)


vf.main("C31", check)
