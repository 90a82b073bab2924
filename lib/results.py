"""The table of docs/results.md: which bundled generators pass and fail the batteries."""
import math
import os
import re
import subprocess

MAP = {"aesni128": ("aes128", "aesni"), "aes128(c99)": ("aes128", "c99"), "blabla10": ("blabla", ""), "chacha_avx": ("chacha", "avx"), "chacha_avx2": ("chacha", "avx2"),
       "chacha_ctr32": ("chacha", "c99-ctr32"), "des-ctr": ("des", ""), "jctr32_avx2": ("jctr32", "avx2"), "jctr64_avx2": ("jctr64", "avx2"), "lcg128_full": ("lcg128", "x128u64"),
       "lcg128_u32_full": ("lcg128", "x128u32"), "lea128": ("lea", "scalar"), "lea128_avx": ("lea", "avx2"), "magma_avx-ctr": ("magma", "vector-ctr"), "magma_avx-cbc": ("magma", "vector-cbc"),
       "mt19937_64_full": ("mt19937_64", "full"), "ranlux++": ("ranluxpp", ""), "ranrot32[7/3]": ("ranrot32", "7_3"), "ranrot32[17/9]": ("ranrot32", "17_9"), "ranrot32[57/13]": ("ranrot32", "57_13"),
       "rge256ex-ctr": ("rge256exctr", ""), "rge512ex-ctr": ("rge512exctr", "c99"), "rge512ex-ctr-avx2": ("rge512exctr", "avx2"), "speck128_avx(full)": ("speck128", "vector-full"),
       "speck128_avx(r16)": ("speck128", "vector-r16"), "stormdrop_old": ("stormdrop", "old"), "superduper64_u32": ("superduper64", "u32"), "swblux[luxury=1]": ("swblux", "1"),
       "swblux[luxury=2]": ("swblux", "2"), "threefry_avx": ("threefry", "threefry-avx2"), "threefish": ("threefry", "threefish"), "threefish_avx": ("threefry", "threefish-avx2"),
       "threefish1024_avx": ("threefish1024", "avx2"), "threefry2x64_avx": ("threefry2x64", "avx2"), "xorshift128pp_avx": ("xorshift128pp", "vector"), "xoroshiro128pp_avx": ("xoroshiro128pp", "vector"),
       "xtea_avx(ctr)": ("xtea", "vector-ctr"), "xtea_avx(cbc)": ("xtea", "vector-cbc"), "xxtea128": ("xxtea", "128-scalar"), "xxtea128_avx": ("xxtea", "128-avx2"), "xxtea256": ("xxtea", "256-scalar"),
       "xxtea256_avx": ("xxtea", "256-avx2"), "biski32_v1": ("biski32", "v1"), "biski32_v2": ("biski32", "v2"), "biski64_v1": ("biski64", "v1"), "biski64_v2": ("biski64", "v2")}


def span(text):
    t = text.replace("+", "0").replace("-", "/")
    v = [x.strip() for x in t.split("/")]
    return (min(map(int, v)), max(map(int, v))) if v and all(x.isdigit() for x in v) else (None, None)


def doc_rows(path):
    import vf
    gens = set(vf.gen_names())
    out, seen = [], set()
    for ln in open(path):
        f = [x.strip() for x in ln.rstrip("\n").split("|")]
        if len(f) < 9 or f[1] not in ("u32", "u64"):
            continue
        label = f[0]
        m = re.fullmatch(r"lfib_par\[(\d+[+-])\]", label)
        g = ("lfib_par", m.group(1)) if m else MAP.get(label) or ((label, "") if label in gens else None)
        if not g or g[0] not in gens or label in seen:
            continue
        seen.add(label)
        out.append((label, g[0], g[1], {"express": span(f[2]), "brief": span(f[3])}))
    return out


def flaw_plugins():
    """generators with one gross flaw each (harness), 32 and 64 bits"""
    import vf
    out = {}
    for nb, d in ((64, []), (32, ["-DFLAW32"])):
        fl = vf.STD + vf.FLAVOURS["fast"] + ["-fPIC", "-ffreestanding", "-nostdlib", "-I%s/include" % vf.REPO] + d
        o = vf.compile_obj(vf.HARN + "/vh_flaw.c", fl)
        so = "%s/gen/flaw%d-%s.so" % (vf.BUILD, nb, vf._sha(o))
        os.makedirs(vf.BUILD + "/gen", exist_ok=True)
        r = vf.sh(["gcc", "-shared", o, "-o", so + ".%d" % os.getpid(), "-nostdlib", "-lgcc"])
        if r.returncode != 0:
            raise vf.HarnessError("flaw plugin: " + r.stdout.decode()[-1000:])
        os.replace(so + ".%d" % os.getpid(), so)
        out["@%d" % nb] = so
    return out


def run(exe, so, par, bat, seed, extra=(), timeout=800, full=False):
    """{test name: p as printed} of one run, None if there is no report; full: ({name: (p, verdict)}, quality, exit code)"""
    p = subprocess.run([exe, bat, so, "--seed=" + seed, "--nthreads=1"] + (["--param=" + par] if par else []) + list(extra), capture_output=True, text=True, errors="replace", timeout=timeout)
    i = p.stdout.find("battery report ====")
    rows = re.findall(r"^ +\d+ (\S+) +(\S+) +(1 - \S+|\S+) (FAIL|SUSPICIOUS|Ok|\?\?\?) ", p.stdout[i:], re.M)
    if p.returncode not in (0, 1) or not rows:
        return None
    if full:
        m = re.search(r"^Quality \(0-4\): (\S+) \((.*)\)$", p.stdout, re.M)
        return {r[0]: (r[2], r[3]) for r in rows}, m and m.groups(), p.returncode
    return {r[0]: r[2] for r in rows}


def tail(p):
    """-log10 of the smaller tail, as printed"""
    if p.startswith("1 - "):
        v = float(p[4:])
    else:
        try:
            v = float(p)
        except ValueError:
            return 0.0
        v = min(v, 1 - v) if v > 0.5 else v
    return 300.0 if v <= 0 else -math.log10(v)
