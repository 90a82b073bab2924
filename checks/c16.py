"""C16: malformed battery files are rejected with a diagnostic and no crash."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import batfile
import vf


def rnd_bad_value(R, lo, hi):
    return R.choice([str(lo - 1), str(hi + 1), "-1", "0" if lo > 0 else "-2", str(hi * 2 + 1), str(2 ** 63 - 1), str(2 ** 63), str(2 ** 64), str(2 ** 64 + lo), str(-2 ** 63), str(2 ** 32 + lo) if hi < 2 ** 32 else str(2 ** 62),
                     "9" * 30, "9" * 60, "", "abc", "one", "-", "+", "low", "_", "___", str(-lo), "-" + str(hi), "nan", "#", str(lo - 1).rjust(25, "0") if lo > 0 else "-3"])


def structured(R):
    """a file with exactly one definite error (or a mutated one of unknown status)"""
    data, bat, exp = batfile.rnd_file(R, ntests=R.randint(1, 6))
    sections = []
    for i in range(R.randint(1, 5)):
        t, kv = batfile.rnd_test(R)
        sections.append([batfile.rnd_name(R, 40), [["test", t]] + [list(q) for q in kv.items()], True])
    k = R.randrange(len(sections))
    s = sections[k]
    t = s[1][0][1]
    kind = R.randrange(14)
    head, tail = "", ""
    if kind in (0, 1, 2, 3):
        keys = [q for q in batfile.SPEC[t][1] if len(q) == 3]
        q = R.choice(keys) if keys else None
        if q:
            for p in s[1]:
                if p[0] == q[0]:
                    p[1] = rnd_bad_value(R, q[1], q[2])
    elif kind == 4:
        s[1].pop(R.randrange(len(s[1])))
    elif kind == 5:
        s[2] = False                # 'end' is missing
    elif kind == 6:
        s[1][0][1] = R.choice(["", "nosuch", t + "x", t.upper(), t[:-1], "end", "battery"])
    elif kind == 7:
        for p in s[1]:
            if p[0] in ("mode", "wordsize", "algorithm", "bitpos"):
                p[1] = R.choice(["", "W128", "128", "byte", "values ", "Wolff", "64", "-1", "99999999999", "lowest", "midx"])
    elif kind == 8:
        head = R.choice(["end\n", "end end\n", "battery end\n", "battery nam=x end\n", "battery\n", "x y end\n", "x end\n", "battery name end\n"])
    elif kind == 9:
        tail = R.choice(["end\n", "battery end\n", "x\n", "battery name=z", "x test=", "x test=mod3 nvalues=100000", "x test=mod3 nvalues=100000 en", "x =\n", "x end\n"])
    elif kind == 10:
        s[1].insert(R.randrange(len(s[1]) + 1), [R.choice(["", "junk", "end2", "="]), None])
    elif kind == 11:
        s[1].append([batfile.rnd_name(R, 30).replace("=", ""), "x" * R.choice([600, 1000, 5000, 200, 64, 65])])
    elif kind == 12:
        s[0] = R.choice(["n" * 600, "n" * 64, "n" * 300, "end", "battery", "a=b", "="])
    elif kind == 13:
        if t == "bspace_nd":
            for p in s[1]:
                if p[0] in ("ndims", "nbits_per_dim"):
                    p[1] = str(R.randint(9, 64))
        if t == "collisionover":
            for p in s[1]:
                if p[0] in ("ndims", "nbits_per_dim"):
                    p[1] = str(R.choice([8, 64, 32, 16]))
        if t == "gap":
            for p in s[1]:
                p[1] = {"shl": "32", "ngaps": "10000"}.get(p[0], p[1])
        if t == "matrixrank":
            for p in s[1]:
                if p[0] == "n":
                    p[1] = str(R.randint(257, 65535))
    sep = R.choice(["\n", " ", "\n"])
    out = head
    for nm, kvs, e in sections:
        out += nm + sep + sep.join(p[0] if p[1] is None else "=".join(p) for p in kvs) + (sep + "end" if e else "") + "\n"
    return (out + tail).encode("latin-1", "replace")


def mutate(R, data):
    b = bytearray(data)
    for _ in range(R.choice([1, 1, 2, 3, 8, 30])):
        if not b:
            break
        i = R.randrange(len(b))
        c = R.randrange(9)
        if c == 0:
            b[i] = R.randrange(256)
        elif c == 1:
            del b[i:i + R.choice([1, 1, 2, 5, 20])]
        elif c == 2:
            b[i:i] = bytes(R.choice([b" ", b"\n", b"=", b"end", b" end ", b"#", b"\0", b"_", b"-", b"9" * 10, b"battery ", b"\xff", b"%s%n", b"test=gap "]))
        elif c == 3:
            del b[i:]
        elif c == 4:
            j = R.randrange(len(b))
            b[i:i] = b[min(i, j):max(i, j)][:200]
        elif c == 5:
            b[i] ^= 1 << R.randrange(8)
        elif c == 6:
            b[i:i] = bytes([R.randrange(32, 127)]) * R.choice([64, 500, 511, 512, 1024, 4000])
        elif c == 7:
            b = b.replace(b"\n", b" ")
        else:
            b = b.replace(b"=", R.choice([b" =", b"= ", b"==", b""]), 1)
    return bytes(b)


def sweep(R):
    """every key of every kind at, just inside and just outside its range, with values that wrap around, missing, empty, and unknown words"""
    out = []
    for t, (eng, keys, fmt) in batfile.SPEC.items():
        base = None
        while base is None or base[0] != t or any(p not in base[1] for p in [k[0] for k in keys]):
            base = batfile.rnd_test(R)

        def put(k, x):
            kv = [(a, b) for a, b in base[1].items()]
            kv = [(a, x if a == k else b) for a, b in kv if not (a == k and x is None)]
            pre = R.choice(["", "battery name=b end\n", "first test=mod3 nvalues=100000 end\n"])
            post = R.choice(["", "last test=mod3 nvalues=200000 end\n"])
            out.append((pre + "t test=%s " % t + " ".join("%s=%s" % q for q in kv) + " end\n" + post).encode())
        for k in keys:
            if k[0] == "bitpos" or len(k) == 3:
                lo, hi = (0, 63) if k[0] == "bitpos" else k[1:]
                for x in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 2 * hi, -lo, -hi, -1, 0, (1 << 31) + lo, (1 << 32) + lo, (1 << 32) + hi, (1 << 63) + lo, (1 << 64) + lo, lo - (1 << 32), lo - (1 << 64)):
                    put(k[0], str(x))
                for x in ("x", "low1", "0x10", "1.5", "", "-", "+", "_"):
                    put(k[0], x)
            else:
                for w in k[1]:
                    put(k[0], w)
                for w in list(k[1])[:2]:
                    for x in (w + "x", w[:-1], w.upper(), "", "0"):
                        put(k[0], x)
            put(k[0], None)
    for a, b in [(a, b) for m in (62, 63, 64, 65, 66) for a in range(1, m + 1) if m % a == 0 for b in [m // a]]:
        if a <= 64 and b <= 64:
            out.append(b"t test=bspace_nd nbits_per_dim=%d ndims=%d nsamples=2 get_lower=1 end" % (a, b))
            out.append(b"t test=collisionover nbits_per_dim=%d ndims=%d nsamples=2 get_lower=0 n=1000 end" % (a, b))
    for sh in range(1, 33):
        for d in (-1, 0, 1):
            out.append(b"t test=gap shl=%d ngaps=%d end" % (sh, max(10000, (16 << sh) + d)))
    for n in (256, 257, 384, 511, 512, 513, 65535, 65536, 65280, 1000):
        out.append(b"t test=matrixrank n=%d max_nbits=8 end" % n)
    return out


def main(ctx):
    ctx.rule = "one evaluation = one battery file given to the real CLI (ASan+UBSan build, recorded engines); distinct by content and mode"
    ctx.assumptions = ["a reference reading of the format decides which files are certainly malformed; files whose status is not specified (duplicate keys, digits followed by letters, "
                       "over-long tokens, control bytes) are judged by safety, exit status and parameter ranges only", "leaks of the parser on error paths are not counted (the process ends)"]
    exe, spy = vf.build_mock("asan"), vf.build_spy()
    R = ctx.rng
    jobs = []
    special = [b"", b"\n", b"#", b" ", b"\0", b"end", b"end\n", b"battery name=x end", b"# only a comment\n\n", b"x", b"x\n", b"=", b"x=1", b"\xff\xfe", b"\xef\xbb\xbf", b"a test=mod3 nvalues=100000 end\0", b"A" * 511, b"A" * 512,
               b"A" * 5000, b" " * 511 + b"a", b" " * 600, b"#" * 3000, b"a test=mod3 nvalues=100000" + b" " * 480 + b" end", b"a test=mod3 nvalues=100000 end " + b"#" * 1000,
               b"a " * 3000, b"a=b " * 3000, b"a test=mod3 " + b"k=v\n" * 20000 + b"nvalues=100000 end", b"\n" * 100000, b"x test=mod3 nvalues=100000 end\n" * 3000,
               b"\r" * 100, b"battery name=" + b"n" * 60 + b" end\nx test=mod3 nvalues=100000 end", b"battery name=" + b"n" * 490 + b" end\nx test=mod3 nvalues=100000 end",
               b"battery name= end\nx test=mod3 nvalues=100000 end", b"a test=mod3 nvalues=100000", b"a test=mod3 nvalues=100000 end b", b"x" * 64 + b" test=mod3 nvalues=100000 end"]
    for d in special:
        jobs.append((d, "special"))
    for d in sweep(R):
        jobs.append((d, "sweep"))
    for k in range(ctx.scale(1500, 20000)):
        jobs.append((structured(R), "structured"))
    for k in range(ctx.scale(1500, 30000)):
        base = batfile.rnd_file(R, ntests=R.randint(1, 6))[0] if R.random() < 0.7 else structured(R)
        jobs.append((mutate(R, base), "mutated"))
    for k in range(ctx.scale(100, 2000)):
        n = R.choice([10, 100, 1000, 5000])
        al = R.choice([bytes(range(256)), b"abc =\n\t#end_0123", b"\0\n =", bytes(range(32, 127)) + b"\n"])
        jobs.append((bytes(R.choice(al) for _ in range(n)), "random"))

    def one(a):
        k, (data, kind) = a
        f = "%s/b%d.cfg" % (ctx.tmp, k)
        open(f, "wb").write(data)
        listing = vf.hash_int(data[:50]) % 8 == 0
        args = ["f=" + f] + (["list"] if listing else [spy, "--seed=k", "--report-brief"])
        rc, out, err, lg = vf.cli(ctx, exe, args, {"VH_SPY_NBITS": "64" if k % 2 else "32", "VH_DRAW": "2"})
        os.unlink(f)
        m = batfile.parse(data)
        rp = {"file": data.decode("latin-1")[:20000], "args": args}
        ctx.case(vf._sha(data, str(listing)), sample="%s %s: %r" % (kind, m[0], data[:120]) if k % 400 == 3 else None)
        ctx.count("class_" + m[0])

        def v(key, msg):
            ctx.violation(key, "%s [%s%s]\n%r" % (msg, kind, " list" if listing else "", data[:700]), rp)
        if rc is None:
            return v("hang", "the program hangs")
        if rc < 0 or rc in (99, 66, 78, 79):
            return v("crash:" + vf.san_key(err), "rc=%r %s" % (rc, err[-1500:]))
        ran = len(lg.begins)
        for t in lg.tests:
            if not batfile.in_range(t["eng"], t["opts"]):
                v("range:" + t["eng"], "out-of-range parameters were passed to %s: %s" % (t["eng"], t["opts"]))
                break
        ctx.count("engine_calls", ran)
        if m[0] == "bad":
            if rc == 0 or ran or (listing and "summary =====" in out):
                v("accepted:" + m[1], "a malformed file (%s) was not rejected: rc=%d, %d tests executed" % (m[1], rc, ran))
            elif not err.strip():
                v("silent", "rejected without a message (%s)" % m[1])
            else:
                ctx.count("rejected_" + m[1].replace(" ", "_"))
        elif m[0] == "ok":
            if rc not in (0, 1) or not listing and [(t["eng"], t["opts"]) for t in lg.tests] != [q[1:] for q in m[2]]:
                v("wellformed", "a well-formed file was not run as written: rc=%d %s" % (rc, err[-200:]))
        else:
            if rc not in (0, 1) and (ran or not err.strip()):
                v("half", "exit code %d after %d executed tests, message %r" % (rc, ran, err[-200:]))
            if rc in (0, 1) and not ran and not listing:
                v("noverdict", "exit code %d without running any test" % rc)
    vf.pmap(one, list(enumerate(jobs)))
    # not regular files
    for p in (ctx.tmp + "/absent.cfg", ctx.tmp, "/dev/null", ""):
        for gen in (spy, "list"):
            rc, out, err, lg = vf.cli(ctx, exe, ["f=" + p, gen])
            ctx.case(("path", p == ctx.tmp, p[-6:], gen == "list"))
            if rc in (0, None) or rc < 0 or rc in (66, 99) or lg.begins or not err.strip():
                ctx.violation("path", "f=%s %s: rc=%r %s" % (p, gen, rc, err[-500:]), {"path": p})
    for w in ("bad_parameter", "unknown_or_missing_test", "unclosed_entry", "token_without_=", "end_without_entry", "battery_without_name", "no_tests", "long_line"):
        ctx.require("rejected_" + w, 10 if w != "battery_without_name" else 3)
    ctx.require("class_ok", 50)
    ctx.require("engine_calls", 300)


vf.main("C16", main)
