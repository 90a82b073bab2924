"""Shared infrastructure of the SmokeRand runtime-monitoring checks.

* builds instrumented flavours of /repo's *current working tree* (never touching it),
* keeps the case / observation counters that become evidence/<id>.json,
* routes every violation through the committed known-findings file,
* three-valued verdict: exit 0 (held on what was observed), exit 1 + VIOLATION line,
  exit 3 (inconclusive / harness error; never folded in either of the others).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4

CORE = sorted(os.path.basename(f)[:-2] for f in glob.glob(REPO + "/src/*.c") if not os.path.basename(f).startswith("bat_"))
BATS = sorted(os.path.basename(f)[:-2] for f in glob.glob(REPO + "/src/bat_*.c"))

STD = ["-std=c99", "-march=native", "-w", "-I%s/include" % REPO]
FLAVOURS = {
    # the project's own optimisation level
    "plain": ["-O3", "-g1"],
    "fast": ["-O1", "-g1"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fsanitize=float-cast-overflow,float-divide-by-zero", "-fno-sanitize=float-divide-by-zero",
             "-fno-sanitize-recover=all"],
    "msan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # variables without an initial value hold a pattern / zeros: differing outputs of the two reveal what was never set
    "poison": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"],
    "zeroed": ["-O1", "-g1", "-ftrivial-auto-var-init=zero"],
    # portable code paths: no SIMD / GNU specific branches selected by -march=native
    "generic": ["-O2", "-g1", "-march=x86-64", "-DNO_X86_EXTENSIONS", "-DNO_CUSTOM_DLLENTRY"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:handle_segv=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=98:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0",
}


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    return subprocess.run(cmd, **kw)


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:24]


_hdr_cache = {}


def headers_hash():
    if "h" not in _hdr_cache:
        parts = []
        for root in ("include", "generators", "src", "apps"):
            for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
                for f in sorted(fn):
                    if f.endswith((".h", ".hpp", ".inc")):
                        p = os.path.join(dp, f)
                        parts.append(p + "\0" + _sha(open(p, "rb").read()))
        for f in sorted(glob.glob(HARN + "/*.h")):
            parts.append(f + "\0" + _sha(open(f, "rb").read()))
        _hdr_cache["h"] = _sha(*parts)
    return _hdr_cache["h"]


def compile_obj(src, flags, cc="gcc"):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    key = _sha(open(src, "rb").read(), src, headers_hash(), "\0".join(flags), cc)
    out = "%s/obj/%s.o" % (BUILD, key)
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), random.getrandbits(32))
        r = sh([cc] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise HarnessError("compile failed: %s\n%s" % (src, r.stdout.decode("utf-8", "replace")[-3000:]))
        os.replace(tmp, out)
    return out


def repo_src(name):
    return "%s/src/%s.c" % (REPO, name)


def build(name, flavour, sources, extra_flags=(), link=(), cc="gcc", per_src_flags=None, shared=False):
    """sources: list of absolute paths, or bare names of files of /repo/src."""
    fl = STD + FLAVOURS[flavour] + list(extra_flags) + ["-I" + HARN]
    if shared:
        fl = fl + ["-fPIC"]
    paths = [s if s.startswith("/") else repo_src(s) for s in sources]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, fl + list((per_src_flags or {}).get(os.path.basename(s), [])), cc), paths))
    key = _sha("\0".join(objs), "\0".join(link), flavour, str(shared))
    os.makedirs(BUILD + "/bin", exist_ok=True)
    out = "%s/bin/%s-%s-%s%s" % (BUILD, name, flavour, key, ".so" if shared else "")
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), random.getrandbits(32))
        san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize=")][:1]
        cmd = [cc] + san + (["-shared"] if shared else []) + objs + ["-o", tmp] + list(link)
        if not shared:
            cmd += ["-rdynamic", "-lm", "-lpthread", "-ldl"]
        r = sh(cmd)
        if r.returncode != 0:
            raise HarnessError("link failed: %s\n%s" % (name, r.stdout.decode("utf-8", "replace")[-3000:]))
        os.replace(tmp, out)
    return out


def build_cli(flavour, extra_flags=(), link=(), extra_src=()):
    return build("smokerand", flavour, CORE + BATS + ["%s/apps/smokerand.c" % REPO] + list(extra_src),
                 extra_flags=extra_flags, link=link)


def gen_names():
    return sorted(os.path.basename(f)[:-2] for f in glob.glob(REPO + "/generators/*.c"))


def build_gens(names, flavour="plain", extra=()):
    """Generator plugins as shared libraries. Returns {name: path}."""
    fl = STD + FLAVOURS[flavour] + ["-fPIC", "-I%s/include" % REPO] + list(extra)
    cc = "clang" if flavour == "msan" else "gcc"
    link = []
    if flavour in ("plain", "fast", "generic"):
        fl += ["-ffreestanding", "-nostdlib"]
        link = ["-nostdlib", "-lgcc"]
    os.makedirs(BUILD + "/gen", exist_ok=True)

    def one(n):
        src = "%s/generators/%s.c" % (REPO, n)
        o = compile_obj(src, fl, cc)
        out = "%s/gen/%s-%s-%s.so" % (BUILD, n, flavour, _sha(o))
        if not os.path.exists(out):
            tmp = out + ".%d.%d.tmp" % (os.getpid(), random.getrandbits(32))
            san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize=")][:1]
            r = sh([cc] + san + ["-shared", o, "-o", tmp] + link)
            if r.returncode != 0:
                raise HarnessError("link failed: %s\n%s" % (n, r.stdout.decode("utf-8", "replace")[-2000:]))
            os.replace(tmp, out)
        return n, out
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return dict(ex.map(one, names))


def gc_build(limit=3 << 30):
    """Keeps the build cache bounded (oldest files go first)."""
    files = []
    for dp, dn, fn in os.walk(BUILD):
        for f in fn:
            p = os.path.join(dp, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if tot <= limit:
            break
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass


class Known:
    """known_findings.txt: lines '<property>|<key>|<description>' and 'fixed: property=...' lines."""

    def __init__(self):
        self.entries = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.rstrip("\n")
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                prop, key, desc = line.split("|", 2)
                self.entries[(prop.strip(), key.strip())] = desc.strip()

    def get(self, prop, key):
        return self.entries.get((prop, key))


class Ctx:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.level = level
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.viol = []
        self.known_hit = {}
        self.known = Known()
        self.assumptions = []
        self.rule = ""
        self.inconclusive = []
        self.requires = []
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        self.tmp = "/tmp/vf_%s_%d" % (prop, os.getpid())
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)

    quick = property(lambda self: self.tier == "quick")

    def scale(self, q, t):
        return q if self.tier == "quick" else t

    def np_rng(self, salt=0):
        import numpy as np
        return np.random.default_rng([self.seed, abs(hash_int(self.prop)), salt])

    def case(self, key, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            self.distinct.add(key if isinstance(key, (str, int, tuple)) else repr(key))
        if sample is None and nontrivial and len(self.samples) < 5 and self.evals % 37 == 1:
            sample = repr(key)[:300]
        if sample is not None and len(self.samples) < 8:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maxc(self, name, v):
        self.counters[name] = max(self.counters.get(name, v), v)

    def require(self, name, minimum):
        self.requires.append((name, minimum))

    def violation(self, key, msg, replay=None):
        k = self.known.get(self.prop, key)
        if k is not None:
            self.known_hit[key] = k
            return
        if len(self.viol) < 50:
            self.viol.append((key, msg, replay))
        else:
            self.viol.append((key, msg[:200], None))

    def note_inconclusive(self, msg):
        self.inconclusive.append(msg)

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        for key, desc in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, desc))
        bad = [(n, m) for n, m in self.requires if self.counters.get(n, 0) < m]
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples or ["(none)"]}
        cov.update({"observed_" + k: v for k, v in sorted(self.counters.items())})
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        path = "%s/evidence/%s.json" % (VERIF, self.prop)
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)
        if self.viol:
            d = "%s/replay/%s" % (VERIF, self.prop)
            os.makedirs(d, exist_ok=True)
            rp = "%s/%d.json" % (d, self.seed)
            with open(rp, "w") as f:
                json.dump([{"key": k, "message": m, "replay": r} for k, m, r in self.viol], f, indent=1, default=str)
            for k, m, r in self.viol[:12]:
                print("  [%s] %s" % (k, str(m)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            os._exit(1)
        if bad:
            print("INCONCLUSIVE property=%s too few observations: %s" % (self.prop, bad))
            sys.stdout.flush()
            os._exit(3)
        print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs %s" % (
            self.prop, self.tier, self.seed, self.evals, len(self.distinct), time.time() - self.t0,
            json.dumps(self.counters, default=str)[:600]))
        sys.stdout.flush()
        os._exit(0)


def hash_int(s):
    return int(hashlib.sha256(str(s).encode()).hexdigest()[:12], 16)


def main(prop, func, level="exploration"):
    ctx = Ctx(prop, level)
    try:
        gc_build()
        func(ctx)
    except HarnessError as e:
        print("HARNESS-ERROR property=%s %s" % (prop, e))
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        sys.stdout.flush()
        os._exit(3)
    except Exception:
        import traceback
        traceback.print_exc()
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        sys.stdout.flush()
        os._exit(3)
    ctx.finish()


def pmap(func, items, workers=NCPU):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(func, items))


def run(cmd, timeout=120, env=None, input=None, cwd=None, stdin=None):
    """Returns (returncode or None on timeout, stdout bytes, stderr bytes)."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    kw = dict(stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd)
    if input is not None:
        kw["input"] = input
    else:
        kw["stdin"] = stdin or subprocess.DEVNULL
    try:
        p = subprocess.run(cmd, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return None, ex.stdout or b"", ex.stderr or b""


def san_key(stderr):
    """Stable key of a sanitizer report: kind + first frame located in the repository."""
    import re
    t = stderr.decode("utf-8", "replace") if isinstance(stderr, bytes) else stderr
    kind = "crash"
    m = re.search(r"runtime error: (.*)", t)
    if m:
        kind = "ub:" + re.sub(r"-?[0-9][0-9.]*(e[+-]?[0-9]+)?", "N", m.group(1))[:60]
    m = re.search(r"ERROR: AddressSanitizer:? (\S+)", t)
    if m:
        kind = "asan:" + m.group(1)
    m = re.search(r"WARNING: MemorySanitizer: (\S+)", t)
    if m:
        kind = "msan:" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", t)
    if m:
        kind = "tsan:" + m.group(1).strip()
    fn = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) .*/(?:src|apps|generators|include)/", t)
    return kind + "@" + (fn[0] if fn else "?")


# ---------------------------------------------------------------- engine-level driver
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc,--wrap=aligned_alloc"]


def build_tests(flavour):
    return build("vh_tests", flavour, CORE + [HARN + "/vh_tests.c"], link=WRAP)


class EngineCase:
    __slots__ = ("id", "engine", "nbits", "gen", "seed", "ram", "maxwords", "trace", "opts", "res", "meta")

    def __init__(self, engine, nbits, gen, seed, opts, ram=8 << 30, maxwords=1 << 32, trace=None, meta=None):
        self.engine, self.nbits, self.gen, self.seed, self.opts = engine, nbits, gen, seed, tuple(opts)
        self.ram, self.maxwords, self.trace, self.meta = ram, maxwords, trace, meta
        self.res = None
        self.id = None

    def line(self):
        return "%s %s %d %s %d %d %d %s %s\n" % (self.id, self.engine, self.nbits, self.gen, self.seed, self.ram,
                                                self.maxwords, self.trace or "-", " ".join(str(o) for o in self.opts))

    def key(self):
        return "%s/%d %s seed=%d ram=%d opts=%s" % (self.engine, self.nbits, self.gen, self.seed, self.ram, ",".join(map(str, self.opts)))

    def words(self):
        import numpy as np
        w = np.fromfile(self.trace, dtype=np.uint32 if self.nbits == 32 else np.uint64)
        return w


def run_engine_cases(drv, cases, timeout=300, env=None, workers=NCPU, on_fail=None, after=None):
    """Runs the cases (each worker process takes a queue of them). Failures are attributed to the case that was
    running; the rest of its batch is rerun. case.res = dict(x,p,alpha,penalty,nwords,leak,name) or
    dict(fail='crash'|'hang'|'exit'|'toomany', rc, err). `after(case)` is called as results arrive (to consume traces)."""
    for i, c in enumerate(cases):
        c.id = "c%d" % i
    n = max(1, min(len(cases), workers * 4))
    batches = [list(cases[i::n]) for i in range(n)]

    def go(batch):
        todo = batch
        while todo:
            rc, out, err = run([drv], input="".join(c.line() for c in todo).encode(), timeout=timeout, env=env)
            by = {c.id: c for c in todo}
            cur, toomany, log = None, False, []
            for l in out.decode("utf-8", "replace").splitlines():
                if l.startswith("BEGIN "):
                    cur, log = by[l.split()[1]], []
                elif l.startswith("TOOMANY"):
                    toomany = True
                elif l.startswith("LOG "):
                    log.append(l[4:])
                elif l.startswith("RES "):
                    t = l.split(" ", 8)
                    c = by[t[1]]
                    c.res = dict(x=float.fromhex(t[2]), p=float.fromhex(t[3]), alpha=float.fromhex(t[4]),
                                 penalty=float.fromhex(t[5]), nwords=int(t[6]), leak=int(t[7]), name=t[8], log=log)
                    cur = None
                    if after:
                        after(c)
            if rc == 0:
                return
            if rc == 77 or cur is None:
                raise HarnessError("engine driver failed rc=%r: %s" % (rc, err.decode("utf-8", "replace")[-500:]))
            kind = "hang" if rc is None else "toomany" if toomany else "crash" if (rc < 0 or rc in (99, 66)) else "exit"
            cur.res = dict(fail=kind, rc=rc, err=err.decode("utf-8", "replace")[-3000:], key=san_key(err))
            if on_fail:
                on_fail(cur)
            todo = todo[todo.index(cur) + 1:]
    pmap(go, batches, workers)


# ---------------------------------------------------------------- real CLI with recorded (interposed) engines
PTWRAP = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_create"]
APIWRAP = ["-Wl,--wrap=CallerAPI_init,--wrap=CallerAPI_init_mthr"]
ENGINE_SRC = ("coretests", "extratests", "hwtests", "lineardep")


def weaken(obj):
    out = obj[:-2] + ".weak.o"
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % random.getrandbits(32)
        r = sh(["objcopy", "--weaken", obj, tmp])
        if r.returncode != 0:
            raise HarnessError("objcopy: " + r.stdout.decode())
        os.replace(tmp, out)
    return out


def build_mock(flavour="fast", main=None, extra=()):
    """The command line program (or another main) with stand-ins for the statistical engines."""
    fl = STD + FLAVOURS[flavour] + ["-fPIC", "-fno-inline", "-I" + HARN, "-DVH_WRAP_PTHREAD"] + list(extra)
    eng = [repo_src(n) for n in ENGINE_SRC]
    rest = [repo_src(n) for n in CORE + BATS if n not in ENGINE_SRC] + [main or "%s/apps/smokerand.c" % REPO, HARN + "/vh_mock.c"]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        eo = list(ex.map(lambda q: weaken(compile_obj(q, fl)), eng))
        ro = list(ex.map(lambda q: compile_obj(q, fl), rest))
    key = _sha("\0".join(eo + ro), flavour, "\0".join(extra))
    os.makedirs(BUILD + "/bin", exist_ok=True)
    out = "%s/bin/mock-%s-%s" % (BUILD, flavour, key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % random.getrandbits(32)
        san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize=")][:1]
        r = sh(["gcc"] + san + ro + eo + ["-o", tmp, "-rdynamic"] + PTWRAP + (APIWRAP if "-DVH_WRAP_API" in extra else []) + ["-lm", "-lpthread", "-ldl"])
        if r.returncode != 0:
            raise HarnessError("link failed: mock\n%s" % r.stdout.decode("utf-8", "replace")[-3000:])
        os.replace(tmp, out)
    return out


def build_real(flavour="fast"):
    """The command line program with its real engines and the schedule perturbation (VH_DELAY) of the stand-ins."""
    return build("real", flavour, CORE + BATS + ["%s/apps/smokerand.c" % REPO, HARN + "/vh_mock.c"],
                 extra_flags=["-DVH_NO_MOCK", "-DVH_WRAP_PTHREAD", "-DVH_WRAP_API"], link=PTWRAP + APIWRAP)


def build_batlib(flavour="fast"):
    return build("batlib", flavour, [HARN + "/vh_batlib.c"], shared=True)


def write_res(path, items):
    """items: (name, p, alpha, x, penalty) for vh_batlib"""
    with open(path, "w") as f:
        for it in items:
            f.write("|".join([it[0]] + [float(q).hex() for q in it[1:]]) + "\n")


def build_spy(flavour="fast"):
    return build("spy", flavour, [HARN + "/vh_spy.c"], shared=True)


class Log:
    """parsed event log of the stand-ins and the spy plugin"""

    def __init__(self, path):
        self.lines = open(path, errors="replace").read().split("\n") if os.path.exists(path) else []
        self.tests, self.begins, self.creates, self.frees, self.bad, self.other = [], [], [], [], [], []
        for n, ln in enumerate(self.lines):
            w = ln.split(" ")
            kv = {"n": n}
            for q in w[2:]:
                if "=" in q:
                    k, v = q.split("=", 1)
                    kv[k] = v
            if w[0] == "T":
                kv["eng"] = w[1]
                self.tests.append(kv)
            elif w[0] == "B":
                kv["eng"] = w[1]
                self.begins.append(kv)
            elif w[0] == "C":
                kv["id"] = int(w[1])
                self.creates.append(kv)
            elif w[0] == "F":
                kv["id"] = int(w[1])
                self.frees.append(kv)
            elif w[0] == "BAD":
                self.bad.append(ln)
            elif ln:
                self.other.append((n, ln))


_runno = [0]


def cli(ctx, exe, args, env=None, timeout=60, input=None, log=True, raw=False, **kw):
    """runs the program with an event log; returns rc, stdout, stderr (text) and the Log"""
    e = dict(env or {})
    path = None
    if log:
        _runno[0] += 1
        path = "%s/log%d_%d" % (ctx.tmp, _runno[0], random.getrandbits(40))
        e["VH_LOG"] = path
    rc, out, err = run([exe] + list(args), timeout=timeout, env=e, input=input, cwd=ctx.tmp, **kw)
    lg = None
    if log:
        lg = Log(path)
        try:
            os.unlink(path)
        except OSError:
            pass
    return rc, out if raw else out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), lg


def parse_report(text):
    """rows and footer of a battery report"""
    import re
    rep = {"rows": [], "seeds": [], "seed": None}
    m = re.search(r"Used seed:\s+(\S+)", text)
    rep["seed"] = m.group(1) if m else None
    for m in re.finditer(r"^(Passed|Suspicious|Failed):\s+(\d+)$", text, re.M):
        rep[m.group(1)] = int(m.group(2))
    m = re.search(r"^Quality \(0-4\): (\S+) \((.*)\)$", text, re.M)
    rep["quality"] = (m.group(1), m.group(2)) if m else None
    rep["allpassed"] = "All tests have been passed successfully" in text
    i = text.find("battery report ====") if "battery report ====" in text else text.find(" report ====================")
    body = text[text.rfind("====================\n", 0, len(text)):] if i < 0 else text[i:]
    for ln in body.split("\n"):
        m = re.match(r"^  ([ \d]{3,}) (\S.{19,}?) +(\S+) +(\S+|1 - \S+) (FAIL|SUSPICIOUS|Ok|\?\?\?) +(\d+)$", ln)
        if m:
            rep["rows"].append((int(m.group(1)), m.group(2).strip(), m.group(3), m.group(4), m.group(5), int(m.group(6))))
    for m in re.finditer(r"^ *([0-9A-F]+) 0x([0-9A-F]{16}) (\d{20})$", text, re.M):
        rep["seeds"].append((int(m.group(1), 16), int(m.group(2), 16), int(m.group(3))))
    m = re.search(r"^Number of seeds: (\d+)$", text, re.M)
    rep["nseeds"] = int(m.group(1)) if m else None
    return rep
