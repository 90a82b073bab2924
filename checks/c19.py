"""C19: every sorting routine leaves the ascending permutation of its input, in place, for every length and content."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf

SHAPES = ("random sorted reverse equal two few highbits lowbits mid1 mid2 organ saw extremes nearsorted onebit").split()
KINDS = "radix32 radix64 quick64 fast_low fast_high fast_unk".split()


def check(ctx):
    ctx.rule = "distinct by (routine, shape, length, seed); non-trivial: length >= 2 and the shape is not already sorted"
    R = ctx.rng
    small = list(range(0, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 4095, 4096, 65535, 65536, 65537]
    work = {"asan": [], "plain": []}
    for k in KINDS:
        for s in SHAPES:
            for n in small:
                if n < 2 and s != "random":
                    continue
                work["asan"].append((k, s, n, R.getrandbits(40)))
            for _ in range(ctx.scale(4, 40)):
                work["asan"].append((k, s, R.choice([R.randint(2, 64), int(2 ** R.uniform(1, 17))]), R.getrandbits(40)))
            for n in (200000 + R.randint(0, 999),) if ctx.quick else (1000003, 1 << 20, 3000000 + R.randint(0, 99)):
                if k == "quick64" or k.startswith("fast") or k.startswith("radix"):
                    work["plain"].append((k, s, n, R.getrandbits(40)))
        # the length-limited exhaustive part: every 0/1/2 array of length <= 5 is reached through 'few'/'two' seeds
        for n in range(2, 9):
            for _ in range(ctx.scale(150, 1500)):
                work["asan"].append((k, R.choice(["few", "two", "extremes"]), n, R.getrandbits(40)))
    for fl, cases in work.items():
        drv = vf.build("vh_funcs", fl, vf.CORE + [vf.HARN + "/vh_funcs.c"])
        R.shuffle(cases)
        parts = [cases[i::32] for i in range(32)]

        def go(part):
            todo = part
            while todo:
                rc, out, err = vf.run([drv], input="".join("sort %s %s %d %d\n" % c for c in todo).encode(), timeout=ctx.scale(240, 800))
                lines = out.decode().splitlines()
                for c, l in zip(todo, lines):
                    ctx.case(c, c[2] >= 2 and c[1] not in ("sorted", "equal"))
                    if not l.startswith("SORTED"):
                        ctx.violation("order:" + c[0], "%s on %s array of length %d (seed %d): first wrong element %s" % (c + (l,)), c)
                if rc == 0:
                    return
                if rc == 77:
                    raise vf.HarnessError(err.decode()[-300:])
                c = todo[len(lines)] if len(lines) < len(todo) else todo[-1]
                ctx.violation("%s:%s" % ("hang" if rc is None else vf.san_key(err), c[0]),
                              "%s on %s array of length %d (seed %d), %s build: %s" % (c + (fl, "timeout" if rc is None else err.decode("utf-8", "replace")[:800])), c)
                todo = todo[len(lines) + 1:]
                if len(ctx.viol) > 40:
                    return
        vf.pmap(go, parts)
        ctx.count("arrays_sorted_" + fl, len(cases))
        ctx.count("elements_sorted", sum(c[2] for c in cases))
    # the depth of recursion must not follow the length: arrays against fixed choices of the pivot, on a small stack
    drv = vf.build("vh_funcs", "plain", vf.CORE + [vf.HARN + "/vh_funcs.c"])
    deep = [(k, s, n) for k in ("quick64", "fast_low", "fast_high") for s in ("sorted", "reverse", "organ", "equal", "saw", "two", "killmax", "killmin", "killmed3", "random")
            for n in ((30000 + R.randint(0, 99),) if ctx.quick else (30000 + R.randint(0, 99), 120000))]

    def small_stack(c):
        rc, out, err = vf.run(["bash", "-c", "ulimit -s 256; exec \"$0\"", drv], input=("sort %s %s %d %d\n" % (c + (ctx.seed,))).encode(), timeout=300)
        if rc != 0 or not out.startswith(b"SORTED"):
            ctx.violation("depth:" + c[0], "%s on %s array of length %d, stack of 256 KiB: rc=%r %s %s" % (c + (rc, out[:100], err[-200:])), list(c))
        ctx.case(("depth",) + c)
        ctx.count("small_stack_sorts")
    vf.pmap(small_stack, deep)
    ctx.require("small_stack_sorts", 30)
    # the low-memory fallback: the radix sort must still sort when its buffer cannot be allocated
    wrap = vf.build("vh_funcs_oom", "plain", vf.CORE + [vf.HARN + "/vh_funcs.c", vf.HARN + "/oomcalloc.c"], link=["-Wl,--wrap=calloc"])
    for n in (3, 64, 1000, 50000):
        for s in SHAPES:
            rc, out, err = vf.run([wrap], input=("sort radix64 %s %d %d\n" % (s, n, R.getrandbits(32))).encode(), env={"OOM_MIN": str(n * 8)})
            if rc != 0 or not out.startswith(b"SORTED"):
                ctx.violation("oom-fallback", "radixsort64 without memory for its buffer (%s, n=%d): rc=%r %s" % (s, n, rc, err[-200:]), [s, n])
            ctx.case(("oom", s, n))
            ctx.count("low_memory_fallbacks")
    ctx.require("arrays_sorted_asan", 3000)
    ctx.require("arrays_sorted_plain", 60)
    ctx.assumptions = ["libc qsort of a copy is the oracle", "allocation failure is injected only for the radix buffer"]


if __name__ == "__main__":
    vf.main("C19", check)
