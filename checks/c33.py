"""C33: the log of a test tells what it did: parameters, sample, tables and statistics agree with the words drawn and the result."""
import concurrent.futures as cf
import multiprocessing as mp
import os
import random
import re
import sys
import traceback

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import numpy as np
import vf
import logref
import smallbat
from vf import EngineCase as E


def evaluate(a):
    engine, nbits, trace, opts, res = a
    try:
        w = np.fromfile(trace, dtype=np.uint32 if nbits == 32 else np.uint64) if trace else None
        if w is not None and len(w) != res["nwords"]:
            return "harness", "trace has %d words, %d counted" % (len(w), res["nwords"]), 0
        return ("ok",) + logref.check(engine, w, nbits, opts, res, res["log"])
    except Exception:
        return "harness", traceback.format_exc()[-1500:], 0
    finally:
        if trace:
            os.unlink(trace)


def make(ctx):
    R = ctx.rng
    rng = ctx.np_rng(5)
    cases = []
    K = ctx.scale(1, 6)

    def S():
        return R.getrandbits(60)

    def stream(nb, w, tag):
        f = "%s/%s_%d_%d.bin" % (ctx.tmp, tag, nb, R.getrandbits(40))
        np.asarray(w, dtype=np.uint64).tofile(f)
        return "f:" + f
    gens = ["i", "i", "i", "p:5000", "b", "B", "x", "t:20"]
    for nb in (32, 64):
        low = "l:%d" % S()
        for _ in range(6 * K):
            cases.append(E("monobit", nb, R.choice(gens + ["c", "a"]), S(), [R.randint(1, 200000)]))
            cases.append(E("nbitwords", nb, R.choice(gens), S(), [R.choice([1, 2, 4, 8, 8, 16 if nb == 64 else 4]), R.randint(1, 30), R.randint(2, 60)]))
            cases.append(E("mod3", nb, R.choice(gens + [low]), S(), [R.randint(100000, 400000)]))
            cases.append(E("sumcoll", nb, R.choice(gens), S(), [R.randint(2000, 300000)]))
            shl = R.randint(1, 7)
            cases.append(E("gap", nb, R.choice(["i", "i", "p:50001", "b", "t:20"]), S(), [shl, R.randint(4, 40) * 16 << shl], maxwords=1 << 26))
            nd = R.choice([1, 2, 4, 8])
            b = R.randint(20, 44) // nd
            b = max(1, min(b, nb - 1))
            cases.append(E("bspace", nb, R.choice(["i", "i", "p:3000", low, "x"]), S(), [b, nd, R.randint(1, 4), R.randint(0, 1)]))
            cases.append(E("bspacedec", nb, R.choice(["i", "i", low, "p:40000", "n:1"]), S(), [R.randint(1, 40)]))
            nd = R.choice([2, 3, 5, 8])
            b = max(1, min(R.randint(16, 34) // nd, nb - 1))
            n = min(60000, max(500, (1 << (b * nd)) // R.choice([1, 4, 16, 100])))
            cases.append(E("collover", nb, R.choice(["i", "i", "p:3000", low, "m:0x7777777777777777"]), S(), [b, nd, R.randint(1, 5), n, R.randint(0, 1)]))
            mode = R.randrange(4)
            nt = R.randint(100000, 600000)
            nbytes = {0: nt * nb // 8, 1: nt, 2: nt * nb // 8, 3: nt * nb // 8}[mode]
            cases.append(E("hamming_ot", nb, R.choice(gens + [low]), S(), [nbytes, mode]))
            size = R.choice([128, 256, 512, 1024])
            cases.append(E("hamming_ot_long", nb, R.choice(gens + [low]), S(), [R.randint(60000, 250000) * (size // nb), size]))
            cases.append(E("hamming_distr", nb, R.choice(gens + [low]), S(), [R.randint(65536, 400000), R.randint(1, 10)]))
            cases.append(E("linearcomp", nb, R.choice(["i", "i", low, "p:777", "a", "n:1"]), S(), [R.randint(64, 9000), R.choice([-1, -2, 0, R.randrange(nb)])]))
            n = R.choice([256, 256, 512])
            cases.append(E("matrixrank", nb, R.choice(["i", "i", low, "m:0x7FFFFFFFFFFFFF7F", "p:5000", "n:1"]), S(), [n, R.choice([8, nb])]))
            cases.append(E("ising", nb, R.choice(["i", "i", "b", "p:5000"]), S(), [0, R.randint(20, 200), R.randint(3, 10)], maxwords=1 << 24))
            cases.append(E("ising", nb, R.choice(["i", "p:50000"]), S(), [1, R.randint(5, 30), R.randint(3, 8)], maxwords=1 << 24))
            cases.append(E("usphere", nb, R.choice(["i", "i", "b", low]), S(), [R.randint(2, 20), R.randint(1000, 60000)]))
            e = R.randint(0, 3)
            cases.append(E("birthday", nb, R.choice(["i", "i", "p:5000", "d:4001"]), S(), [R.randint(8, 30000), e], maxwords=1 << 26))
        cases.append(E("gap", nb, "c", (1 << nb) - 1, [4, 4000], maxwords=1 << 25))
        cases.append(E("bspace", nb, "i", S(), [64 if nb == 64 else 32, 1, 1, 1]))
        cases.append(E("collover", nb, "i", S(), [4, 4, 4, 65536, 1]))                     # dense: each state visited about once
        # structures that single out one gap length
        per = nb // 16
        n0 = 10000000
        for kind in ["none", "w0", "rb", "w0-", "rb-"] * ctx.scale(1, 3):
            v = rng.integers(0, 65536, n0 + 8, dtype=np.uint16)
            if kind in ("w0", "rb"):
                pos = np.arange(len(v))
                if kind == "w0":
                    o = np.argsort(v, kind="stable")
                    last = np.full(len(v), -1)
                    last[o[1:]] = np.where(v[o[1:]] == v[o[:-1]], o[:-1], -1)
                else:
                    last = np.concatenate(([-1], np.maximum.accumulate(np.where(v == 0, pos, -1))[:-1]))
                at = pos[(last >= 0) & (pos - last - 1 == R.randint(2, 3000)) & (pos < n0)]
                for q in at.tolist():
                    if R.random() < .5:
                        v[R.randint(last[q] + 1, q - 1)] = 0 if kind == "w0" else v[q]
            elif kind == "w0-":
                at = rng.integers(0, n0 - 5000, 8000)
                d = R.randint(10, 4000)
                v[at + d] = v[at]
                v[at + d // 2] = 0
            elif kind == "rb-":
                at = rng.integers(1000, n0 - 9000, 8000)
                d = R.randint(10, 4000)
                v[at] = 0
                v[at + d] = v[at + d // 3]
            v = v[:len(v) // per * per].reshape(-1, per).astype(np.uint64)
            w = np.zeros(len(v), dtype=np.uint64)
            for j in range(per):
                w |= v[:, j] << np.uint64(16 * j)
            cases.append(E("gap16", nb, stream(nb, w, kind.replace("-", "m")), 0, [n0], meta=kind))
    if not ctx.quick:
        cases.append(E("gap16", 64, "i", S(), [100000000 + R.randrange(1000)]))
    cases.sort(key=lambda c: c.engine != "gap16")
    return cases


PFX = re.compile(r"^== TH #([ \d]\d+) ==> ")
PLUGINS = ["lcg64", "pcg64_64", "randu", "mt19937", "lrnd64_255", "splitmix32", "chacha", "shr3", "sfc64", "msws", "r1279"]


def pval(t):
    return 1 - float(t[4:]) if t.startswith("1 - ") else float(t)


def judge_block(v, what, kind, lines, row):
    """the log of one test against its row in the report"""
    fin, msg = logref.block(kind, lines)
    if fin is None:
        v("block", "%s: %s" % (what, msg))
        return 0
    x, p = row[2], pval(row[3])
    for fx, fp in fin:
        fx, fp = float(fx), float(fp)
        same_x = abs(fx - float(x)) <= 6e-4 if kind == "hamming_distr" else "%g" % fx == x or abs(fx - float(x)) <= 1e-5 * abs(fx)
        if (same_x or fx != fx) and (abs(fp - p) <= 6e-3 * max(fp, 1e-300) or abs(fp - p) <= 6e-4 and fp > 1e-3 or (fp > .98 and p > .98) or (fp < 1e-100 and p < 1e-99) or fp != fp):
            return 2
    v("row", "%s: the log of the %s test ends with %r, its row in the report says x = %s, p = %s" % (what, kind, fin, x, row[3]))
    return 2


def strip_time(t):
    return re.sub(r"(?m)^Elapsed time:.*$|^.*Free physical RAM:.*$", "", t)


def programs(ctx):
    """logs of whole runs: lines stay whole under threads, blocks belong to their tests and rows, nothing depends on unset variables"""
    R = ctx.rng
    fl = {f: vf.build_cli(f) for f in ("plain", "poison", "zeroed")}
    gens = vf.build_gens(PLUGINS, "plain")
    kinds = dict((a, b.split()[0]) for a, b in smallbat.SMALL)

    def one(j):
        i, mode, nth, n, gen, seed = j
        rr = random.Random(seed)
        text, names = smallbat.text(rr, n)
        cfg = "%s/b%d.cfg" % (ctx.tmp, i)
        open(cfg, "w").write(text)
        args = ["f=" + cfg, gens[gen], "--seed=s%d" % seed]
        sel = rr.randrange(n) if mode == "one" else None
        if sel is not None:
            args.append(rr.choice(["--testid=%d" % (sel + 1), "--testname=%s" % names[sel]]))
        if nth:
            args.append("--nthreads=%d" % nth)
        what = "%s of %d tests, %s threads, %s, seed %d" % (mode, n, nth or 1, gen, seed)

        def v(key, msg):
            ctx.violation("log:" + key, msg, {"case": list(j)})
        outs = {}
        for f in ("plain", "poison", "zeroed"):
            env = {"MALLOC_PERTURB_": "0" if f == "zeroed" else "205"}
            rc, out, err = vf.run([fl[f]] + args, env=env, timeout=120)
            outs[f] = (rc, strip_time(out.decode("latin-1")))
        ctx.case((mode, n, nth, gen, seed))
        ctx.count("runs_" + mode)
        rows = {}
        ram = os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES") / 2.0 ** 20
        m = re.search(r"Total physical RAM: *(\d+) MiB\n", outs["plain"][1])
        if m and abs(int(m.group(1)) - ram) > 1:
            v("ram", "%s: total physical RAM is shown as %s MiB, the system has %.1f" % (what, m.group(1), ram))
        ctx.count("ram_lines", m is not None)
        for f, (rc, out) in outs.items():
            rep = vf.parse_report(out)
            if rc not in (0, 1) or len(rep["rows"]) != (1 if mode == "one" else n):
                v("run", "%s (%s build): exit code %r, %d rows in the report" % (what, f, rc, len(rep["rows"])))
                return
            rows[f] = rep["rows"]
        # what was never set must not be shown
        if not nth:
            a, b = outs["poison"][1], outs["zeroed"][1]
            ctx.count("texts_compared")
            if a != b:
                d = [(p, q) for p, q in zip(a.split("\n"), b.split("\n")) if p != q][:1]
                v("unset", "%s: the output depends on variables that were never set: %r" % (what, d))
        else:
            for r1, r2 in zip(rows["poison"], rows["zeroed"]):
                ctx.count("texts_compared")
                if r1 != r2:
                    v("unset", "%s: the report depends on variables that were never set: %r %r" % (what, r1, r2))
        for f in ("plain", "poison"):
            body = outs[f][1].split("==================== ")[0].split("\n")
            rws = {r[0]: r for r in rows[f]}
            if nth and mode == "all":
                per, order = {}, []
                for ln in body:
                    m = PFX.match(ln)
                    if m:
                        t = int(m.group(1))
                        rest = ln[m.end():]
                        if "== TH #" in rest:
                            v("line", "%s: a line holds output of two threads: %r" % (what, ln))
                        per.setdefault(t, []).append(rest)
                        ctx.count("thread_lines")
                    elif any(k.match(ln) for k in logref.TITLES) or re.match(r"\s*(x|z|K|zemp) = ", ln) or "vvvvv" in ln or "^^^^^" in ln:
                        v("line", "%s: a line of a thread's log without its number: %r" % (what, ln))
                done = {}
                for t, ls in per.items():
                    if t == 0:                       # the main thread
                        if any("Thread " in l or any(k.match(l) for k in logref.TITLES) for l in ls):
                            v("thread", "%s: the main thread logs tests: %r" % (what, ls))
                        continue
                    ls = [l for l in ls if l.strip()]
                    if not (ls and re.fullmatch(r"v+ Thread %d started v+" % t, ls[0]) and re.fullmatch(r"\^+ Thread %d finished \^+" % t, ls[-1])):
                        v("thread", "%s: the log of thread %d starts with %r and ends with %r" % (what, t, ls[:1], ls[-1:]))
                        continue
                    cur = None
                    for l in ls[1:-1]:
                        m = re.fullmatch(r"(v+|\^+) Thread (\d+): test #(\d+): (\S+) \((\d+) of (\d+)\) (started|finished) (v+|\^+)", l)
                        if not m:
                            if cur is None:
                                v("thread", "%s: thread %d logs %r outside of a test" % (what, t, l))
                            else:
                                cur[1].append(l)
                            continue
                        th, tid, nm, k, tot, st = int(m.group(2)), int(m.group(3)), m.group(4), int(m.group(5)), int(m.group(6)), m.group(7)
                        if th != t or tot != n or not 1 <= tid <= n or nm != names[tid - 1] or not 1 <= k <= n:
                            v("thread", "%s: thread %d logs %r" % (what, t, l))
                        elif st == "started" and cur is None:
                            cur = ((tid, k), [])
                        elif st == "finished" and cur is not None and cur[0] == (tid, k):
                            if tid in done:
                                v("thread", "%s: test %d is logged twice" % (what, tid))
                            done[tid] = (t, k, cur[1])
                            cur = None
                        else:
                            v("thread", "%s: thread %d logs %r inside %r" % (what, t, l, cur and cur[0]))
                if sorted(done) != list(range(1, n + 1)) or len(set(k for _, k, _ in done.values())) != len(done):
                    v("thread", "%s: the threads log the tests %r with the ordinals %r" % (what, sorted(done), sorted(k for _, k, _ in done.values())))
                for tid, (t, k, ls) in done.items():
                    r = rws.get(tid)
                    if r and r[5] != t:
                        v("row", "%s: test %d is logged by thread %d, the report says %d" % (what, tid, t, r[5]))
                    if r:
                        ctx.count("blocks_matched")
                        ctx.count("figures_compared", judge_block(v, what + ", test %d" % tid, kinds[names[tid - 1].rsplit("_", 1)[0]], ls, r))
                ctx.maxc("threads_seen", len(per))
            else:
                for r in rows[f]:
                    if r[5] != 0:
                        v("row", "%s: the report names thread %d for a test that ran without threads" % (what, r[5]))
                blocks, cur = [], None
                for ln in body:
                    if nth:
                        ln = re.sub(r"^== TH # 0 ==> ", "", ln)
                    if any(k.match(ln) for k in logref.TITLES):
                        cur = []
                        blocks.append(cur)
                    if cur is not None and ln.strip() and not ln.startswith("-----"):
                        cur.append(ln)
                if len(blocks) != len(rows[f]):
                    v("block", "%s: %d tests are logged, %d are reported" % (what, len(blocks), len(rows[f])))
                    continue
                if mode == "all":
                    heads = re.findall(r"(?m)^----- Test (\d+) of (\d+) \((\S+)\)$", "\n".join(body))
                    if heads != [(str(q + 1), str(n), names[q]) for q in range(n)]:
                        v("block", "%s: the tests are announced as %r" % (what, heads))
                for b, r in zip(blocks, rows[f]):
                    ctx.count("blocks_matched")
                    ctx.count("figures_compared", judge_block(v, what, kinds[names[r[0] - 1].rsplit("_", 1)[0]], b, r))
    jobs = []
    for i in range(ctx.scale(40, 300)):
        mode = R.choice(["all", "all", "one"])
        jobs.append((i, mode, R.choice([0, 2, 3, 5, 8, 16]) if mode == "all" else R.choice([0, 0, 4]), R.randint(1, 14), R.choice(PLUGINS), R.getrandbits(30)))
    # every kind of test on its own: what a report on a single test shows was set by this test only
    for i in range(len(smallbat.SMALL) // 2):
        jobs.append((1000 + i, "one", 0, 3, R.choice(PLUGINS), R.getrandbits(30)))
    vf.pmap(one, jobs)
    ctx.require("blocks_matched", 200)
    ctx.require("thread_lines", 2000)
    ctx.require("runs_one", 10)
    ctx.require("ram_lines", 30)
    ctx.require("texts_compared", 30)


def check(ctx):
    programs(ctx)
    ctx.rule = "distinct by (engine, word size, generator, seed, parameters); a case is non-trivial when at least 4 figures of its log were compared"
    drv = vf.build_tests("plain")
    cases = make(ctx)
    for i, c in enumerate(cases):
        if c.engine != "birthday":
            c.trace = "%s/t%d" % (ctx.tmp, i)
    futs = []
    with cf.ProcessPoolExecutor(vf.NCPU, mp_context=mp.get_context("fork")) as ex:
        list(ex.map(abs, range(vf.NCPU)))

        def after(c):
            futs.append((c, ex.submit(evaluate, (c.engine, c.nbits, c.trace, c.opts, c.res))))

        def on_fail(c):
            ctx.violation("%s:%s" % (c.engine, c.res["fail"]), "%s on %s: %s" % (c.engine, c.key(), c.res["err"][-600:]), c.key())
        vf.run_engine_cases(drv, cases, timeout=600, after=after, on_fail=on_fail, env={"VH_LOG": "1"})
        for c, f in futs:
            st, bad, n = f.result()
            if st == "harness":
                raise vf.HarnessError("%s: %s" % (c.key(), bad))
            ctx.case(c.key(), n >= 4)
            ctx.count("figures_compared", n)
            ctx.count("log_lines", len(c.res["log"]))
            ctx.count("logs_" + c.engine)
            for field, msg in bad:
                ctx.violation("%s:%s" % (c.engine, field), "%s: %s" % (c.key(), msg), c.key())
    for e in logref.LOG:
        ctx.require("logs_" + e, 10)
    ctx.require("figures_compared", 3000)


if __name__ == "__main__":
    vf.main("C33", check)
