"""C03: seeds form the documented reproducible stream and are all logged."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import seeds as sd
import vf

LOGCAP = (1 << 20) - 1


def val(tok):
    w, h = tok.split(":")
    return int(w), int(h, 16)


def same(tok, s):
    w, v = val(tok)
    return v == (s >> 32 if w == 32 else s)


def rnd_seed(R):
    """(argument of --seed, key, threads carried)"""
    c = R.randrange(9)
    if c < 3:
        key = [R.choice([R.getrandbits(32), R.getrandbits(32), 0, 0xFFFFFFFF]) for _ in range(8)]
        n = R.randint(0, 40)
        return "_%s_%s" % (R.choice(["%02X", "%02x"]) % n, sd.b64(key)), key, n or None
    if c == 3:
        s = R.choice(["", "_", "__", "_abc", "_01_", "_1__x"[:5], "a", " ", "=", "a=b", "--seed=x", "%s%n", "_x"])
    elif c == 4:
        s = "".join(chr(R.choice([R.randint(33, 126), R.randint(0x400, 0x44F), R.randint(0x4E00, 0x4FFF), 0x1F600])) for _ in range(R.randint(1, 40)))
    elif c == 5:
        s = bytes(R.randint(1, 255) for _ in range(R.randint(1, 90)))
        return (s, sd.key_from_text(s), None) if s[:1] != b"_" else (b"x" + s, sd.key_from_text(b"x" + s), None)
    elif c == 6:
        s = "x" * R.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 1000, 5000])
    else:
        s = "".join(R.choice("abcdefghijklmnop0123456789 .,;-") for _ in range(R.randint(1, 70)))
    if s[:1] == "_" and len(s.encode()) > 5:
        s = "y" + s
    return s, sd.key_from_text(s), None


def main(ctx):
    ctx.rule = "one evaluation = one run with a seed string and a drawing workload whose seeds and log are compared with the model stream; distinct = (seed string, workload, threads)"
    ctx.assumptions = ["model: BLAKE2s from hashlib, ChaCha20 written from RFC 8439 with 64-bit counter and nonce; the first four outputs are shown at start and not handed out",
                       "a 32-bit seed is the upper half of the 64-bit stream value, which is what the log records",
                       "quality of the platform's entropy is not judged, only that unseeded runs differ and print the key they used"]
    exe, spy, lib = vf.build_mock("fast"), vf.build_spy(), vf.build_batlib()
    texe, tspy, tlib = vf.build_mock("tsan"), vf.build_spy("tsan"), vf.build_batlib("tsan")
    R = ctx.rng
    jobs = []
    for k in range(ctx.scale(260, 3000)):
        arg, key, n = rnd_seed(R)
        nth = R.choice([1, 1, 2, 3, 4, 8, 17, 40])
        ndraw = R.choice([0, 1, 5, 40, 40, 300])
        ntests = R.choice([1, 2, 5, 9, 30])
        if k % 25 == 1:
            ntests, ndraw = 20, 300
        if k == 3 or (not ctx.quick and k % 500 == 3):
            ntests, ndraw = 30, 80000
        pat = ",".join(R.choice(["64", "32"]) for _ in range(R.randint(0, 7)))
        jobs.append((k, arg, key, n or nth, n, ndraw, ntests, pat, k % 5 == 2 and ndraw < 1000, R.getrandbits(30)))

    def one(j):
        k, arg, key, nth, carried, ndraw, ntests, pat, ts, rs = j
        f = "%s/r%d" % (ctx.tmp, k)
        vf.write_res(f, [("t%d" % i, 0.5, 0.5, 1.0, 1) for i in range(ntests)])
        env = {"VH_RES": f, "VH_SEEDDRAW": str(ndraw), "VH_SPY_SEEDS": pat or "0", "VH_SPY_NBITS": "64"}
        if pat == "":
            env["VH_SPY_SEEDS"] = ""
        if nth > 1 and ndraw < 1000:
            env["VH_DELAY"] = "%d:%d" % (rs, 30)
        args = ["s=" + (tlib if ts else lib), tspy if ts else spy] + ([] if carried else ["--nthreads=%d" % nth]) + [("--seed=" if isinstance(arg, str) else b"--seed=") + arg]
        rc, out, err, lg = vf.cli(ctx, texe if ts else exe, args, env, timeout=200)
        rp = {"args": [repr(a) for a in args], "env": env}
        what = "seed %r, %d threads" % (arg if len(arg) < 60 else arg[:60], nth)
        ctx.case((arg, nth, ndraw, ntests, pat), sample=what if k % 50 == 0 else None)

        def v(key, msg):
            ctx.violation(key, "%s: %s" % (what, msg), rp)
        if "ThreadSanitizer" in err:
            v(vf.san_key(err), err[err.find("WARNING: Thr"):][:1200])
            return
        if rc != 0:
            v("run", "exit %r: %s" % (rc, err[-300:]))
            return
        made = []           # creation order
        for c in lg.creates:
            made.append([t for t in c["seeds"].split(",") if t])
        dr = {}
        order = []
        for n, ln in lg.other:
            if ln.startswith("D item"):
                kv = dict(q.split("=", 1) for q in ln.split(" ")[2:])
                toks = [t for t in kv["seeds"].split(",") if t]
                dr.setdefault(int(kv["ord"]), []).extend(toks)
                order += toks
        total = sum(map(len, made)) + len(order)
        ctx.count("draws", total)
        st = sd.stream(key, total + 1)
        r = vf.parse_report(out)
        if r["seed"] != "_%02X_%s" % (nth, sd.b64(key)):
            v("key", "printed seed %r, expected key %s" % (r["seed"], sd.b64(key)))
        flat = [t for c in made for t in c]
        if nth == 1:
            got = flat + order
            bad = [i for i, t in enumerate(got) if not same(t, st[i])]
            if bad:
                v("stream", "draw %d is %s, documented stream has %x" % (bad[0], got[bad[0]], st[bad[0]]))
                return
            nlog = total
        else:
            # every draw is a distinct element of the stream, each thread's draws are in stream order, at most one element goes to the scheduler
            pos64 = {s: i for i, s in enumerate(st)}
            pos32 = {}
            for i, s in enumerate(st):
                pos32.setdefault(s >> 32, []).append(i)
            used = {}

            def locate(toks, who):
                last = -1
                for t in toks:
                    w, x = val(t)
                    c = [pos64[x]] if w == 64 and x in pos64 else pos32.get(x, []) if w == 32 else []
                    c = [i for i in c if i > last and i not in used]
                    if not c:
                        v("stream", "%s drew %s, which is not a further element of the documented stream (first %d elements)" % (who, t, len(st)))
                        return False
                    last = c[0]
                    used[last] = who
                return True
            for i, c in enumerate(made):
                if not locate(c, "instance %d" % i):
                    return
            for o in sorted(dr):
                if not locate(dr[o], o):
                    return
            left = [i for i in range(total + 1) if i not in used]
            nlog = total + 1 if left != [total] else r["nseeds"]      # the scheduler may or may not draw one after all the others
            if nlog not in (total, total + 1):
                nlog = total
            if len(left) != 1:
                v("stream", "stream elements %r were not handed out" % left[:5])
            ctx.count("concurrent_draws", len(order))
            slot_ord = {}
            for t in lg.tests:
                slot_ord[t["state"]] = int(t["ord"])
            want = [0] * (total + 1)
            for i, w in used.items():
                if isinstance(w, int):
                    want[i] = w
                else:
                    c = lg.creates[int(w.split()[1])]
                    # the sanity instance is destroyed before the workers start
                    later = c["slot"] in slot_ord
                    want[i] = slot_ord[c["slot"]] if later else None
        logn = min(nlog, LOGCAP)
        if r["nseeds"] != logn:
            v("lognum", "log says %r seeds, %d were drawn" % (r["nseeds"], nlog))
            return
        shown = [i for i in range(logn) if i < 1024 or i >= logn - 4]
        if len(r["seeds"]) != len(shown):
            v("loglen", "%d log lines for %d seeds" % (len(r["seeds"]), logn))
            return
        for i, (lab, hx, dec) in zip(shown, r["seeds"]):
            if hx != st[i] or dec != st[i]:
                v("logvalue", "log line %d shows %x / %d, the seed was %x" % (i, hx, dec, st[i]))
                return
            w = 0 if nth == 1 else want[i]
            if (w is not None and lab != w) or lab > nth:
                v("loglabel", "seed %d was drawn by thread %r, the log says %d" % (i, w, lab))
                return
        ctx.count("log_lines", len(shown))
        ctx.maxc("largest_log", nlog)
    vf.pmap(one, jobs)

    # malformed base64 seeds and malformed prefixes are refused and nothing is run
    bad = []
    for k in range(ctx.scale(120, 1500)):
        key = [R.getrandbits(32) for _ in range(8)]
        b = sd.b64(key)
        c = R.randrange(8)
        if c == 0:
            t = "_01_" + b[:-R.choice([1, 2, 3, 4, 8, 20])]
            if len(t) - 4 == 43:
                continue        # padding left out: not specified
        elif c == 1:
            i = R.randrange(43)
            t = "_01_" + b[:i] + R.choice("!@#$%^&*()_-.,~ \t") + b[i + 1:]
        elif c == 2:
            t = "_01_" + b + R.choice(["A", "AA", "AAAA", "x"])
        elif c == 3:
            t = "_" + R.choice(["0", "001", "g1", "1g", "  ", "-1", "0x"]) + "_" + b
        elif c == 4:
            t = "_01" + R.choice([b, "-" + b, " " + b, "=" + b])
        elif c == 5:
            t = "_01_" + sd.b64([R.getrandbits(32) for _ in range(R.choice([1, 2, 4, 7, 9, 16, 64]))])
        elif c == 6:
            t = "_01_" + "=" * 44
        else:
            t = "_01_" + b[:20] + "=" + b[21:]
        if c == 3 and re.match(r"^_[0-9a-fA-F]{2}_", t):
            continue
        bad.append(t)

    def refuse(t):
        rc, out, err, lg = vf.cli(ctx, exe, ["express", spy, "--seed=" + t], {})
        ctx.case(("bad", t))
        if rc in (0, 1, None) or rc < 0 or lg.tests or lg.creates or "report ====" in out:
            ctx.violation("refuse", "malformed seed %r: exit %r, %d tests run" % (t, rc, len(lg.tests)), {"seed": t})
        ctx.count("refused_seeds")
    vf.pmap(refuse, bad)

    # without a seed: different streams, and the printed key is the key of the stream that was used
    keys = []
    f = "%s/auto" % ctx.tmp
    vf.write_res(f, [("t%d" % i, 0.5, 0.5, 1.0, 1) for i in range(3)])

    def auto(k):
        nth = 1 + k % 3
        rc, out, err, lg = vf.cli(ctx, exe, [["express", "s=" + lib][k % 2], spy, "--nthreads=%d" % nth], {"VH_RES": f, "VH_SEEDDRAW": "5", "VH_SPY_SEEDS": "64,32,64"})
        r = vf.parse_report(out)
        ctx.case(("auto", k))
        try:
            key, n = sd.seed_key(r["seed"])
        except Exception:
            ctx.violation("autokey", "printed seed %r is not a key" % r["seed"], None)
            return
        st = sd.stream(key, 3 * (nth + 1))
        got = [t for c in lg.creates for t in c["seeds"].split(",") if t]
        if n != nth or not all(same(t, s) for t, s in zip(got, st)) or not got:
            ctx.violation("autokey", "the printed seed %s does not reproduce the seeds used: %r, stream %r" % (r["seed"], got[:3], ["%x" % s for s in st[:3]]), None)
        keys.append(tuple(key))
        ctx.count("auto_runs")
    vf.pmap(auto, range(ctx.scale(24, 200)))
    if len(set(keys)) != len(keys):
        ctx.violation("autosame", "runs without a seed used the same key", {"keys": keys})

    # concurrent draws through the API, plain and under ThreadSanitizer
    for fl in ("fast", "tsan"):
        drv = vf.build("vh_seeds", fl, vf.CORE + [vf.HARN + "/vh_seeds.c"])
        cj = []
        for k in range(ctx.scale(24, 200)):
            arg, key, n = rnd_seed(R)
            cj.append((arg, key, R.choice([1, 2, 4, 8, 16, 60]), R.choice([1, 10, 500, 3000]), R.choice(["64", "32", "mix"]), k % 4 == 0))

        def conc(j):
            arg, key, nth, nd, mode, single = j
            if single:
                nd *= 40
            if fl == "tsan":
                nd = min(nd, 500)
            rc, out, err = vf.run([drv, arg, str(nth), str(nd), mode] + (["s"] if single else []), timeout=120)
            ctx.case((fl, arg, nth, nd, mode, single))
            what = "API draws, seed %r, %d threads x %d (%s)" % (arg[:40], nth, nd, mode)
            if b"ThreadSanitizer" in err:
                ctx.violation(vf.san_key(err), what + err.decode("utf-8", "replace")[:1200], {"case": repr(j)})
                return
            if rc != 0:
                ctx.violation("api", "%s: exit %r %s" % (what, rc, err[-300:]), {"case": repr(j)})
                return
            rows = [ln.split()[1:] for ln in out.decode().splitlines()]
            tot = sum(map(len, rows))
            st = sd.stream(key, tot)
            if single or mode == "64" or len(rows) == 1:
                if len(rows) == 1:
                    okk = all(same(t, s) for t, s in zip(rows[0], st))
                else:
                    pos = {s: i for i, s in enumerate(st)}
                    idx = [[pos.get(val(t)[1], -1) for t in q] for q in rows]
                    okk = sorted(i for q in idx for i in q) == list(range(tot)) and all(q == sorted(q) for q in idx)
            else:
                # 32-bit values may coincide: multiset of upper halves, and exact multiset of the 64-bit draws
                left = {}
                for s in st:
                    left[s >> 32] = left.get(s >> 32, 0) + 1
                allst = set(st)
                okk = True
                for q in rows:
                    for t in q:
                        w, x = val(t)
                        if w == 64 and x not in allst:
                            okk = False
                        h = x if w == 32 else x >> 32
                        left[h] = left.get(h, 0) - 1
                okk = okk and all(c == 0 for c in left.values())
            if not okk:
                ctx.violation("api", "%s: the seeds drawn are not the documented stream, each element once" % what, {"case": repr(j)})
            ctx.count("api_draws_" + fl, tot)
        vf.pmap(conc, cj)
    for k, m in (("draws", 20000), ("concurrent_draws", 2000), ("log_lines", 5000), ("largest_log", 1 << 20), ("refused_seeds", 60), ("auto_runs", 20), ("api_draws_fast", 10000), ("api_draws_tsan", 5000)):
        ctx.require(k, m)


vf.main("C03", main)
