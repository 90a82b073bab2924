"""C21: a generator read from standard input is exactly the bytes supplied."""
import os
import random
import re
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import smallbat
import spy
import vf


def feed(cmd, env, data, Q, style, timeout=90, cwd=None):
    """runs cmd, writing data to its standard input in pieces of varying sizes with pauses"""
    e = dict(os.environ)
    e.update(vf.SAN_ENV)
    e.update(env)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd)
    npieces = [0]

    def wr():
        pos, budget = 0, 0.5
        try:
            while pos < len(data):
                n = {"all": len(data), "one": Q.choice([1, 1, 2, 3]), "odd": Q.choice([1, 3, 5, 7, 11, 1021, 1023, 1025]), "big": Q.randint(1, 65536),
                     "buf": Q.choice([1024, 2048, 512, 4096]), "mix": Q.choice([1, 7, 8, 100, 1000, 1024, 3000, 20000])}[style]
                os.write(p.stdin.fileno(), data[pos:pos + n])
                pos += n
                npieces[0] += 1
                if style != "all" and budget > 0 and Q.random() < 0.3:
                    d = Q.random() * 0.004
                    budget -= d
                    time.sleep(d)
        except (BrokenPipeError, ValueError, OSError):
            pass
        try:
            p.stdin.close()
        except OSError:
            pass
    # os.write may be partial only for non-blocking descriptors
    t = threading.Thread(target=wr, daemon=True)
    bufs = {}

    def rd(name, f):
        bufs[name] = f.read()
    ths = [threading.Thread(target=rd, args=q, daemon=True) for q in (("o", p.stdout), ("e", p.stderr))]
    for q in ths + [t]:
        q.start()
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        rc = None
    for q in ths:
        q.join(20)
    t.join(5)
    return rc, bufs.get("o", b"").decode("utf-8", "replace"), bufs.get("e", b"").decode("utf-8", "replace"), npieces[0]


STYLES = ["all", "one", "odd", "big", "buf", "mix"]


def main(ctx):
    ctx.rule = "one evaluation = one run that reads its words from a pipe or file; distinct = (part, word size, length, way of writing)"
    ctx.assumptions = ["words are in native byte order; a 32-bit generator's first 1000 words go to the output size check",
                       "bytes after the last whole word are not a word"]
    R = ctx.rng
    exe, aexe, lib, alib = vf.build_cli("fast"), vf.build_cli("asan"), vf.build_batlib(), vf.build_batlib("asan")
    hs = [vf.build("vh_stdin", fl, vf.CORE + [vf.HARN + "/vh_stdin.c"]) for fl in ("plain", "asan")]

    # --- API: outputs and sums, any chunking, any length
    jobs = []
    for k in range(ctx.scale(70, 700)):
        nb = R.choice([32, 64])
        nbytes = R.choice([R.randrange(0, 40), R.randrange(1000, 1060), R.randrange(2040, 2060), R.randrange(0, 9000), 1024 * R.randint(1, 9), 1024 * R.randint(1, 5) + R.choice([-1, 1, 3, 4, 5, 7, 8])])
        jobs.append((k, nb, nbytes, R.choice(STYLES), R.getrandbits(50)))

    def api(j):
        k, nb, nbytes, style, seed = j
        Q = random.Random(seed)
        data = Q.randbytes(nbytes) if Q.random() < 0.8 else bytes([Q.choice([0, 255])]) * nbytes
        wb = nb // 8
        w = spy.frombytes(data[:nbytes - nbytes % wb], nb)
        ops, exp, pos, want_fail = [], [], 0, False
        over = Q.random() < 0.5
        while pos < len(w) or over:
            n = Q.choice([1, 2, 3, 50, 127, 128, 129, 255, 256, 257, 700])
            if not over:
                n = min(n, len(w) - pos)
            sumop = Q.random() < 0.5
            ops.append(("s" if sumop else "b") + str(n))
            part = w[pos:pos + n]
            if sumop:
                if len(part) == n:
                    exp.append("s %x" % (int(np.sum(part, dtype=object) if n else 0) & spy.M))
            else:
                exp += ["b %x" % int(v) for v in part]
            if len(part) < n:
                want_fail = True
                break
            pos += n
        rc, out, err, pieces = feed([hs[k % 2], str(nb)] + ops, {}, data, Q, style)
        ctx.case(("api", nb, nbytes, style), sample="API %d bits, %d bytes written %s in %d pieces, %d operations" % (nb, nbytes, style, pieces, len(ops)) if k % 20 == 3 else None)
        ctx.count("pieces", pieces)
        got = [q for q in out.split("\n") if q[:2] in ("b ", "s ")]
        ctx.count("api_answers", len(got))

        def v(key, msg):
            ctx.violation("api:" + key, "%d bits, %d bytes, written %s, %s: %s" % (nb, nbytes, style, ops[:12], msg), {"nb": nb, "bytes": nbytes, "ops": ops})
        if rc in (99,) or rc is None or rc < 0:
            v(vf.san_key(err) if rc == 99 else "ended", "ended with %r: %s" % (rc, err[-600:]))
        elif got != exp:
            b = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            v("value", "answer %d is %r, expected %r (%d answers, %d expected)" % (b, got[b:b + 1], exp[b:b + 1], len(got), len(exp)))
        elif want_fail and rc == 0:
            v("short", "no error although the input ended before the request was satisfied")
        elif not want_fail and rc != 0:
            v("exit", "exit %r" % rc)
        elif not want_fail:
            m = re.search(r"Bytes processed: (\d+)", out)
            if not m or not pos * wb <= int(m.group(1)) <= nbytes:
                v("count", "reports %r bytes processed, %d used, %d supplied" % (m and m.group(1), pos * wb, nbytes))
        ctx.count("short_inputs" if want_fail else "complete_inputs")
    vf.pmap(api, jobs)

    # --- what tests receive in a battery (raw dumps), including inputs that end early
    res = ctx.tmp + "/res"
    vf.write_res(res, [("t%d" % i, 0.5, 0.5, 1.0, 1) for i in range(5)])
    need = 5 * 400 + 7 * 10
    jobs = []
    for k in range(ctx.scale(48, 500)):
        nb = R.choice([32, 64])
        skip = 1000 if nb == 32 else 0
        tot = (need + skip) * nb // 8
        kind = R.choice(["exact", "more", "less", "less", "minus1", "minusword", "plus", "tiny", "empty"])
        nbytes = {"exact": tot, "more": tot + R.randrange(1, 5000), "less": R.randrange(tot), "minus1": tot - 1, "minusword": tot - nb // 8, "plus": tot + R.randrange(1, nb // 8), "tiny": R.randrange(1, 9), "empty": 0}[kind]
        jobs.append((k, nb, nbytes, nbytes >= tot, R.choice(STYLES), R.choice(["pipe", "file"]), R.getrandbits(50)))

    def bat(j):
        k, nb, nbytes, enough, style, how, seed = j
        Q = random.Random(seed)
        data = Q.randbytes(nbytes)
        skip = 1000 if nb == 32 else 0
        pre = "%s/b%d" % (ctx.tmp, k)
        env = {"VH_RES": res, "VH_DUMP": pre, "VH_DUMPN": "400"}
        cmd = [[exe, aexe][k % 2], "s=" + [lib, alib][k % 2], "stdin%d" % nb]
        if how == "pipe":
            rc, out, err, pieces = feed(cmd, env, data, Q, style, cwd=ctx.tmp)
        else:
            f = pre + ".in"
            open(f, "wb").write(data)
            with open(f, "rb") as fh:
                rc, out, err = vf.run(cmd, env=env, stdin=fh, cwd=ctx.tmp)
            out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
        dump = b"".join(open(pre + o, "rb").read() for o in (".0", ".1") if os.path.exists(pre + o))
        d = np.frombuffer(dump[:len(dump) // 8 * 8], dtype="<u8")
        w = spy.frombytes(data[:nbytes - nbytes % (nb // 8)], nb)[skip:][:need]
        ctx.case(("battery", nb, nbytes, style, how), sample="battery on stdin%d, %d bytes by %s %s: exit %r, %d words compared" % (nb, nbytes, how, style, rc, len(d)) if k % 12 == 1 else None)
        ctx.count("battery_words", len(d))

        def v(key, msg):
            ctx.violation("battery:" + key, "stdin%d, %d bytes by %s (%s): %s" % (nb, nbytes, how, style, msg), {"nb": nb, "bytes": nbytes, "style": style, "seed": seed})
        if rc is None or rc < 0 or rc == 99:
            v(vf.san_key(err) if rc == 99 else "ended", "ended with %r: %s" % (rc, err[-500:]))
        elif not np.array_equal(d, w):
            n = min(len(d), len(w))
            b = np.nonzero(d[:n] != w[:n])[0]
            v("value", "tests received %d words, expected %d; first difference at %s" % (len(d), len(w), b[:1]))
        rows = vf.parse_report(out)["rows"]
        if enough and (rc != 0 or len(rows) != 5):
            v("exit", "exit %r, %d rows although the input sufficed: %s" % (rc, len(rows), err[-200:]))
        if not enough and (rc in (0, None) or rows or "Quality" in out):
            v("short", "exit %r, %d rows although the input ended early" % (rc, len(rows)))
        ctx.count("battery_enough" if enough else "battery_short")
    vf.pmap(bat, jobs)

    # --- testing through a pipe = testing the plugin itself
    cfg = ctx.tmp + "/c.cfg"
    open(cfg, "w").write(smallbat.text(None, 12, skip=("dec",))[0])
    cap = 40 << 20

    def tee(args, env):
        a = subprocess.Popen([exe, "stdout"] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, **env))
        return a
    targets = [("spy", nb, None) for nb in ("32", "64")]
    names = R.sample(vf.gen_names(), ctx.scale(8, 60))
    gens = vf.build_gens(names)
    targets += [(n, None, R.choice([None, "reverse-bits"])) for n in names]
    sp = vf.build_spy()

    def through(t):
        name, nb, flt = t
        g, env = (sp, {"VH_SPY_NBITS": nb}) if name == "spy" else (gens[name], {})
        a = ["--seed=pipe"]
        rc, out, err = vf.run([exe, "f=" + cfg, g] + a + (["--filter=" + flt] if flt else []), env=env, timeout=300, cwd=ctx.tmp)
        out = out.decode("utf-8", "replace")
        rows = vf.parse_report(out)["rows"]
        m = re.search(r"Output size, bits: +(\d+)", out)
        rc2, out2, _ = vf.run([exe, "f=" + cfg, g] + a + (["--filter=" + flt] if flt else []), env=env, timeout=300, cwd=ctx.tmp)
        if rc not in (0, 1) or not m or not rows or vf.parse_report(out2.decode("utf-8", "replace"))["rows"] != rows:
            ctx.count("pipe_not_usable")
            return
        src = subprocess.Popen([exe, "stdout", g] + a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, **env), cwd=ctx.tmp)
        rc2, out2, err2 = vf.run([exe, "f=" + cfg, "stdin" + m.group(1)] + (["--filter=" + flt] if flt else []), stdin=src.stdout, timeout=300, cwd=ctx.tmp)
        src.stdout.close()
        try:
            src.wait(20)
        except subprocess.TimeoutExpired:
            src.kill()
            ctx.violation("pipe:stuck", "the writing program does not end when its reader is gone (%s)" % name, {"plugin": name})
        rows2 = vf.parse_report(out2.decode("utf-8", "replace"))["rows"]
        ctx.case(("pipe", name, nb, flt), sample="%s %s: %d rows equal through a pipe" % (name, flt or "", len(rows)))
        ctx.count("pipe_rows", len(rows))
        if (rc, rows) != (rc2, rows2):
            d = [q for q in zip(rows, rows2) if q[0] != q[1]]
            ctx.violation("pipe:rows", "%s: direct exit %r, %d rows; piped exit %r, %d rows; first difference %r %s" % (name, rc, len(rows), rc2, len(rows2), d[:1], err2[-200:]), {"plugin": name})
    vf.pmap(through, targets)

    # --- inputs that cannot be read; more than one thread
    for what, nb in [(w, n) for w in ("closed", "dir", "null", "threads", "devzero") for n in ("32", "64")]:
        args = [exe, "s=" + lib, "stdin" + nb]
        env = {"VH_RES": res}
        if what == "closed":
            rc, out, err = vf.run(["sh", "-c", 'exec "$@" <&-', "sh"] + args, env=env, timeout=60, cwd=ctx.tmp)
        elif what == "dir":
            fd = os.open(ctx.tmp, os.O_RDONLY)
            rc, out, err = vf.run(args, env=env, stdin=fd, timeout=60, cwd=ctx.tmp)
            os.close(fd)
        elif what == "null":
            rc, out, err = vf.run(args, env=env, timeout=60, cwd=ctx.tmp)
        elif what == "threads":
            rc, out, err = vf.run(args + ["--nthreads=3"], env=env, input=b"x" * 100000, timeout=60, cwd=ctx.tmp)
        else:
            with open("/dev/zero", "rb") as z:
                rc, out, err = vf.run(args, env=env, stdin=z, timeout=60, cwd=ctx.tmp)
        rows = vf.parse_report(out.decode("utf-8", "replace"))["rows"]
        ctx.case(("odd", what, nb), sample="%s: exit %r" % (what, rc))
        ctx.count("odd_inputs")
        ok = (rc == 0 and len(rows) == 5) if what == "devzero" else (rc not in (0, None) and rc > 0 and not rows)
        if not ok:
            ctx.violation("odd:" + what, "%s input for stdin%s: exit %r, %d rows, %s" % (what, nb, rc, len(rows), err[-200:]), {"what": what})
    # --- more than 4 GiB (thorough: more than 2^32 words)
    def long(nb):
        n = ctx.scale(4400 << 20, 34 << 30) * 8 // nb + R.randint(1, 10 ** 6) if nb == 64 or ctx.quick else (1 << 32) + 12345
        text = "SmokeR%d\n" % R.randint(0, 9)
        text = (text + "....")[:7] + "\n"
        src = subprocess.Popen(["yes", text[:-1]], stdout=subprocess.PIPE)
        rc, out, err = vf.run([hs[0], str(nb), "s%d" % n, "b2"], stdin=src.stdout, timeout=800, cwd=ctx.tmp)
        src.stdout.close()
        src.kill()
        src.wait()
        w = [int(x) for x in spy.frombytes(text.encode() * 2, nb)]
        q = len(w) // 2
        full, rest = divmod(n, q)
        tot = (full * sum(w[:q]) + sum(w[:rest])) & spy.M
        exp = ["s %x" % tot] + ["b %x" % w[(rest + i) % q] for i in range(2)]
        got = [x for x in out.decode("utf-8", "replace").split("\n") if x[:2] in ("b ", "s ")]
        m = re.search(r"Bytes processed: (\d+)", out.decode("utf-8", "replace"))
        ctx.case(("long", nb, n), sample="%d bits: %d words, %s bytes processed" % (nb, n, m and m.group(1)))
        ctx.count("long_inputs")
        ctx.count("long_input_bytes", n * nb // 8)
        if rc != 0 or got != exp:
            ctx.violation("long:value", "%d bits, %d words: exit %r, answers %r, expected %r %s" % (nb, n, rc, got[:4], exp, err[-200:]), {"nb": nb, "n": n})
        elif not m or not 0 <= int(m.group(1)) - (n + 2) * nb // 8 <= 1 << 20:
            ctx.violation("long:count", "%d bits: %d words were drawn, %s bytes reported" % (nb, n + 2, m and m.group(1)), {"nb": nb, "n": n})
    vf.pmap(long, [32, 64])
    ctx.require("long_inputs", 2)
    for k, m in (("api_answers", 5000), ("short_inputs", 10), ("complete_inputs", 10), ("battery_words", 20000), ("battery_short", 10), ("battery_enough", 8), ("pipe_rows", 60), ("odd_inputs", 10)):
        ctx.require(k, m)


vf.main("C21", main)
