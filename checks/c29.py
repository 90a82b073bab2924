"""C29: the PE32 plugin loader maps, relocates and resolves 32-bit images exactly and refuses what it cannot load."""
import os
import re
import struct
import subprocess
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import vf

M32 = vf.HARN + "/m32"
u32 = lambda v: struct.pack("<I", v & 0xFFFFFFFF)
u16 = lambda v: struct.pack("<H", v & 0xFFFF)


def build_driver(opt):
    inc = subprocess.run(["gcc", "-print-file-name=include"], stdout=subprocess.PIPE, text=True).stdout.strip()
    fl = ["-m32", "-std=c99", "-g1", "-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fno-pic", "-nostdinc", "-I" + M32, "-isystem", inc, "-I%s/include" % vf.REPO, "-w"]
    san = ["-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=alignment"]
    objs = [vf.compile_obj(M32 + "/libc32.c", fl + ["-O2", "-fno-tree-loop-distribute-patterns"]), vf.compile_obj(M32 + "/pe32drv.c", fl + ["-O1"]), vf.compile_obj(vf.REPO + "/src/pe32loader.c", fl + opt + san)]
    out = "%s/bin/pe32drv-%s" % (vf.BUILD, vf._sha(*objs))
    if not os.path.exists(out):
        os.makedirs(vf.BUILD + "/bin", exist_ok=True)
        r = subprocess.run(["gcc", "-m32", "-nostdlib", "-static", "-no-pie", "-o", out + ".tmp%d" % os.getpid()] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise vf.HarnessError("link: " + r.stdout.decode()[-2000:])
        os.replace(out + ".tmp%d" % os.getpid(), out)
    return out


class Image:
    """a random valid image; mem: expected contents at the preferred base, mask: bytes that are compared"""

    def __init__(self, R, kind="plain"):
        self.kind = kind
        self.base = R.choice([0x10000000, 0x400000, 0x6E0C0000, 0xFFFF0000, 0x10000, 0x7FFF0000])
        ns = R.choice([1, 2, 3, 4, 6, 11]) if kind != "many" else R.choice([2, 3, 120])
        rva, self.sec = R.choice([0x1000, 0x1000, 0x2000]), []
        for i in range(ns):
            vs = R.randint(0x8000, 0x28000) if kind == "many" and ns < 5 else R.choice([0x400, 0x1000, 0xFFF, 0x1001, 0x2345, 0x800, R.randint(0x400, 0x6000)])
            raw = R.choice([vs, (vs + 511) // 512 * 512, max(0x200, vs // 2 // 4 * 4), (vs + 511) // 512 * 512])
            self.sec.append([rva, vs, raw])
            rva += (max(vs, raw) + 0xFFF) // 0x1000 * 0x1000 + R.choice([0, 0, 0x1000])
        self.mem, self.mask = {}, {}
        for i, (rva, vs, raw) in enumerate(self.sec):
            d = bytearray(R.randbytes(raw) if R.random() < .8 else b"\xCC" * raw)
            self.mem[i] = d + bytes(max(0, vs - raw))
            self.mask[i] = bytearray(b"\1" * min(vs, len(self.mem[i])))
        self.free = [[0, min(s[1], s[2]) // 4 * 4] for s in self.sec]     # room for structures, inside the file part
        self.R = R

    def alloc(self, n, i=None, mask=False):
        """reserves n bytes in a section; returns (section, offset)"""
        n4 = (n + 3) // 4 * 4
        c = [k for k in range(len(self.sec)) if (i is None or k == i) and self.free[k][1] - self.free[k][0] >= n4]
        if not c:
            return None
        k = self.R.choice(c)
        room = self.free[k][1] - self.free[k][0] - n4
        o = self.free[k][0] + self.R.choice([0, 0, min(room, 4 * self.R.randint(0, 20)) // 4 * 4])
        self.free[k][0] = o + n4
        if mask:
            self.mask[k][o:o + n] = bytes(n)
        return k, o

    def put(self, at, data):
        self.mem[at[0]][at[1]:at[1] + len(data)] = data

    def rva(self, at):
        return self.sec[at[0]][0] + at[1]


def make(R, variant):
    im = Image(R, variant)
    # the tail of a tight image belongs to the relocations, up to the last byte of the last section
    tight = variant == "tight"
    last = len(im.sec) - 1
    if variant == "bss":
        rva = (im.sec[-1][0] + max(im.sec[-1][1:]) + 0xFFF) // 0x1000 * 0x1000
        im.sec.insert(R.randrange(len(im.sec)) if False else len(im.sec), [rva, R.choice([4, 0x1000, 0x3210]), 0])
        last = len(im.sec) - 1
        im.mem[last] = bytearray(im.sec[-1][1])
        im.mask[last] = bytearray(b"\1" * im.sec[-1][1])
        im.free.append([0, 0])
        if R.random() < .5:      # not the last one: a further section with data follows
            rva = (rva + im.sec[-1][1] + 0xFFF) // 0x1000 * 0x1000
            im.sec.append([rva, 0x400, 0x400])
            im.mem[last + 1] = bytearray(R.randbytes(0x400))
            im.mask[last + 1] = bytearray(b"\1" * 0x400)
            im.free.append([0, 0x400])
            last += 1
    # relocation blocks are collected first: they need sites
    syms, sites = {}, []
    for i, s in enumerate(im.sec):
        syms["S%d" % i] = s[0]
    if tight:
        nrel = R.randint(1, 6)
        # one block of nrel (+ padding) entries at the very end
        blk = 8 + 2 * (nrel + nrel % 2)
        k = last
        im.sec[k][1] = im.sec[k][2] = 0x800
        im.mem[k] = bytearray(R.randbytes(0x800))
        im.mask[k] = bytearray(b"\1" * 0x800)
        im.free[k] = [0, 0x800 - blk]
        rat = (k, 0x800 - blk)
        si = R.randrange(len(im.sec))
        page = im.sec[si][0]
        for _ in range(nrel):
            a = im.alloc(4, si)
            if a and im.rva(a) // 0x1000 == page // 0x1000:
                sites.append(a)
        ents = [0x3000 | (im.rva(a) & 0xFFF) for a in sites]
        ents += [0] * ((blk - 8) // 2 - len(ents))
        im.put(rat, u32(page // 0x1000 * 0x1000) + u32(blk) + b"".join(map(u16, ents)))
        reloc_rva, reloc_size = im.rva(rat), blk
    fn = []
    for _ in range(R.randint(0, 4)):
        a, d = im.alloc(12), im.alloc(4)
        if not a or not d:
            break
        v, c = R.getrandbits(32), R.getrandbits(32)
        im.put(d, u32(v))
        im.put(a, b"\xA1" + u32(im.base + im.rva(d)) + b"\x05" + u32(c) + b"\xC3")
        name = "f%d_%d" % (len(fn), R.getrandbits(20))
        if not tight:
            sites.append((a[0], a[1] + 1))
        else:
            im.put(a, b"\xB8" + u32(v) + b"\x05" + u32(c) + b"\xC3")     # no relocation needed
        syms[name] = im.rva(a)
        fn.append((name, (v + c) & 0xFFFFFFFF))
    many = R.choice([1, 300, 2000]) if variant == "many" else 1      # exported symbols
    for _ in range(R.randint(0, 40) * many // (40 if many > 1 else 1) + (many > 1) * 260):
        at = im.alloc(8)
        if at:
            if not tight:
                sites.append((at[0], at[1] + R.choice([0, 0, 1, 2, 3])))
            if R.random() < .5 or many > 1:
                syms[R.choice(["sym_%d", "one_long_prefix_that_many_symbols_of_this_library_share_%d", "x%d", "_zz%d@4", "a_very_long_exported_name_%d"]) % R.getrandbits(24)] = im.rva(at)
    if variant == "noreloc":
        # code without data references only
        for s in sites:
            pass
        reloc_rva = reloc_size = 0
        fn, sites = [], []
    elif not tight:
        pages = {}
        for a in sites:
            pages.setdefault(im.rva(a) // 0x1000, []).append(im.rva(a) & 0xFFF)
        blob, used = b"", []
        for pg in sorted(pages):
            o = pages[pg]
            R.shuffle(o)
            e = [0x3000 | v for v in o]
            for _ in range(R.choice([0, 0, 1, 3])):
                e.insert(R.randint(0, len(e)), 0x0000 | R.choice([0, 0x123]))
            if len(e) % 2:
                e.append(0)
            blob += u32(pg * 0x1000) + u32(8 + 2 * len(e)) + b"".join(map(u16, e))
        at = im.alloc(len(blob) + 8)
        if at:
            im.put(at, blob + bytes(8))
            reloc_rva, reloc_size = im.rva(at), len(blob)
        else:
            reloc_rva, reloc_size, sites, fn = 0, 0, [], []
    # exports
    names = sorted(syms)
    nf = len(names)
    extra = R.randint(1, 5) if variant == "ordinals" else 0       # functions exported by number only
    slots = list(range(nf + extra))
    R.shuffle(slots)
    ordn = dict(zip(names, slots))
    addr = [0] * (nf + extra)
    for n in names:
        addr[ordn[n]] = syms[n]
    for i in range(nf + extra):
        addr[i] = addr[i] or im.sec[0][0] + 4 * i
    other = [n for n in names if not re.match(r"S\d+$", n)]
    if variant == "alias" and len(other) > 1:
        a, b = R.sample(other, 2)
        if not a.startswith("f"):
            ordn[a], syms[a] = ordn[b], syms[b]
    e = im.alloc(40, mask=True)
    fa, na, oa = im.alloc(4 * len(addr), mask=True), im.alloc(4 * nf, mask=True), im.alloc(2 * nf, mask=True)
    ns = [im.alloc(len(n) + 1) for n in names]
    if None in [e, fa, na, oa] + ns:
        return None
    for n, a in zip(names, ns):
        im.put(a, n.encode() + b"\0")
    im.put(fa, b"".join(map(u32, addr)))
    im.put(na, b"".join(u32(im.rva(a)) for a in ns))
    im.put(oa, b"".join(u16(ordn[n]) for n in names))
    im.put(e, u32(0) + u32(R.getrandbits(32)) + u32(0) + u32(im.rva(ns[0])) + u32(R.choice([1, 1, 7])) + u32(len(addr)) + u32(nf) + u32(im.rva(fa)) + u32(im.rva(na)) + u32(im.rva(oa)))
    im.syms, im.fn = syms, fn
    imp = 0
    if variant == "imports":
        d = im.alloc(40)
        if not d:
            return None
        im.put(d, u32(im.sec[0][0] + 16) + u32(0) * 2 + u32(im.sec[0][0]) + u32(im.sec[0][0] + 64) + bytes(20))
        imp = im.rva(d)
    if variant == "emptyimports":
        d = im.alloc(20)
        if not d:
            return None
        im.put(d, bytes(20))
        imp = im.rva(d)
    # the file
    pe = R.choice([0x40, 0x80, 0xE8, 0x1F8])
    dos = bytearray(b"MZ" + R.randbytes(pe - 2))
    dos[0x3C:0x40] = u32(pe)
    nsec = len(im.sec)
    coff = u16(0x14C) + u16(nsec) + R.randbytes(12) + u16(0xE0) + u16(0x2102)
    opt = u16(0x10B) + R.randbytes(14) + u32(R.choice([0, 0x1000])) + R.randbytes(8) + u32(im.base) + u32(0x1000) + u32(0x200) + R.randbytes(16) + R.randbytes(4) + R.randbytes(4)
    opt += R.randbytes(0x5C - len(opt)) + u32(16)
    dirs = [(0, 0)] * 16
    dirs[0] = (im.rva(e), 40)
    dirs[1] = (imp, 40 if imp else 0)
    dirs[5] = (reloc_rva, reloc_size)
    opt += b"".join(u32(a) + u32(b) for a, b in dirs)
    hdr = bytes(dos) + b"PE\0\0" + coff + opt
    fpos = (len(hdr) + 40 * nsec + 511) // 512 * 512
    tab, body = b"", b""
    order = list(range(nsec))
    if R.random() < .3:
        R.shuffle(order)           # the file order of the data need not be the order of the table
    pos = {}
    for i in order:
        pos[i] = fpos + len(body) if im.sec[i][2] else 0
        body += bytes(im.mem[i][:im.sec[i][2]])
        body += bytes(R.choice([0, 512 - len(body) % 512 if len(body) % 512 else 0]))
    for i, (rva, vs, raw) in enumerate(im.sec):
        nm = R.choice([b".text", b".data", b"8charsec", b".reloc", b"CODE", b"/4"]).ljust(8, b"\0")
        tab += nm + u32(vs) + u32(rva) + u32(raw) + u32(pos[i]) + bytes(12) + u32(R.getrandbits(32))
    f = hdr + tab
    f += bytes(fpos - len(f)) + body
    im.file, im.sites, im.pe, im.tab = f, sites, pe, len(hdr)
    im.end = max(pos[i] + im.sec[i][2] for i in range(nsec))
    return im


def session(exe, lines, timeout=120):
    rc, out, err = vf.run([exe], timeout=timeout, input=("\n".join(lines) + "\n").encode())
    return rc, out.decode("latin-1").split("\n")[:-1]


def check(ctx):
    ctx.rule = "one evaluation = one image given to the loader in a 32-bit process; distinct = (image contents, compiler options)"
    R = ctx.rng
    exes = [build_driver(["-O1"]), build_driver(["-O3", "-march=i686"])]
    jobs, variants = [], ["many", "plain", "plain", "plain", "alias", "noreloc", "tight", "bss", "ordinals", "emptyimports", "imports"]
    for k in range(ctx.scale(700, 12000)):
        v = variants[k % len(variants)]
        im = make(R, v)
        if im:
            jobs.append((k, v, im))

    def one(j):
        k, v, im = j
        path = "%s/i%d.dll" % (ctx.tmp, k)
        open(path, "wb").write(im.file)
        what = "image with %d sections (%s), %d symbols, %d relocations, base %x" % (len(im.sec), v, len(im.syms), len(im.sites), im.base)
        rp = {"variant": v, "file_hex": im.file.hex() if len(im.file) < 60000 else im.file[:3000].hex(), "sections": im.sec}
        ctx.case(im.file[:4096] + bytes([k % 2]), sample=what if k % 90 == 0 else None)
        names = sorted(im.syms)
        q = ["open " + path]
        q += ["addr " + n for n in names]
        q += ["mem S%d %d" % (i, min(im.sec[i][1], len(im.mask[i]))) for i in range(len(im.sec))]
        q += ["call " + n for n, _ in im.fn]
        miss = [names[0] + "x", "nosuch", names[-1][:-1], names[0].swapcase(), names[len(names) // 2] + "0", names[len(names) // 2][1:]]
        miss = [m for m in miss if m and m not in im.syms]
        q += ["addr " + m for m in miss] + ["close", "open " + path, "addr " + names[0], "close"]
        rc, out = session(exes[k % 2], q)
        os.unlink(path)
        if v == "imports":
            ctx.count("refused_imports")
            if rc != 0 and not (out and out[0].startswith("ERR")) or not out or not re.match(r"ERR open=0 \S", out[0]):
                ctx.violation("imports", "%s: an image with imports is answered %r (rc=%r)" % (what, out[:1], rc), rp)
            return
        if rc != 0 or not out or not out[0].startswith("OK"):
            ctx.violation("load", "%s: %r, exit %r after %d of %d answers" % (what, out[:1], rc, len(out), len(q)), rp)
            return
        if out[0] != "OK open=0":
            ctx.violation("file-left-open", "%s: %s" % (what, out[0]), rp)
        it = iter(out[1:])
        adr = {n: next(it) for n in names}
        try:
            bases = {n: (int(a, 16) - im.syms[n]) & 0xFFFFFFFF for n, a in adr.items()}
        except ValueError:
            bad = [n for n in names if not re.fullmatch("[0-9a-f]+", adr[n])][:3]
            ctx.violation("symbol", "%s: %s -> %s" % (what, bad, [adr[n] for n in bad]), rp)
            return
        base = max(set(bases.values()), key=list(bases.values()).count)
        ctx.count("symbols", len(names))
        bad = [n for n in names if bases[n] != base]
        if bad:
            ctx.violation("symbol", "%s: %s resolves to %s, expected %x (image at %x)" % (what, bad[0], adr[bad[0]], (base + im.syms[bad[0]]) & 0xFFFFFFFF, base), rp)
            return
        # expected contents
        exp = {i: bytearray(im.mem[i]) for i in im.mem}
        d = (base - im.base) & 0xFFFFFFFF
        for s, o in im.sites:
            val = struct.unpack_from("<I", im.mem[s], o)[0]
            exp[s][o:o + 4] = u32(val + d)
        ctx.count("relocations", len(im.sites))
        for i in range(len(im.sec)):
            got = bytes.fromhex(next(it))
            ctx.count("bytes_compared", len(got))
            diff = [o for o in range(len(got)) if im.mask[i][o] and got[o] != exp[i][o]]
            if diff:
                ctx.violation("contents", "%s: section %d differs at offset %x (%d bytes): %s, expected %s" % (what, i, diff[0], len(diff), got[diff[0]:diff[0] + 8].hex(), exp[i][diff[0]:diff[0] + 8].hex()), rp)
                return
        for n, val in im.fn:
            a = next(it)
            ctx.count("calls")
            if a != "%x" % val:
                ctx.violation("call", "%s: calling %s gives %s, expected %x" % (what, n, a, val), rp)
                return
        for m in miss:
            a = next(it)
            ctx.count("unknown_symbols")
            if not re.match(r"NULL \S", a):
                ctx.violation("unknown-symbol", "%s: unknown symbol %r -> %s" % (what, m, a), rp)
        rest = list(it)
        if len(rest) != 4 or rest[0] != "CLOSED live=0 bad=0" or not rest[1].startswith("OK") or rest[3] != "CLOSED live=0 bad=0":
            ctx.violation("close", "%s: closing and opening again: %r" % (what, rest), rp)
    vf.pmap(one, jobs)

    # images that cannot be loaded
    def refuse(name, data, k, path=None):
        p = path or "%s/r%d.dll" % (ctx.tmp, k)
        if data is not None:
            open(p, "wb").write(data)
        rc, out = session(exes[k % 2], ["open " + p, "close"])
        ctx.case(("refuse", name, k))
        ctx.count("refusals")
        if rc != 0 or len(out) != 2 or not re.match(r"ERR open=0 \S", out[0]) or out[1] != "CLOSED live=0 bad=0":
            ctx.violation("refusal:" + name, "%s: exit %r, %r" % (name, rc, out), {"name": name, "file_hex": data[:4096].hex() if data is not None else None})
    k = 0
    for _ in range(ctx.scale(25, 400)):
        im = None
        while not im:
            im = make(R, "plain")
        f, pe = im.file, im.pe
        pat = lambda o, b: f[:o] + b + f[o + len(b):]
        cases = [("no MZ signature", pat(0, R.choice([b"ZM", b"\x7fE", b"\0\0"]))), ("no PE signature", pat(pe, R.choice([b"NE\0\0", b"PE\1\0", b"LE\0\0"]))),
                 ("other machine", pat(pe + 4, u16(R.choice([0x8664, 0xAA64, 0x1C0, 0])))), ("PE32+", pat(pe + 0x18, u16(R.choice([0x20B, 0x107, 0])))),
                 ("header position outside of the file", pat(0x3C, u32(R.choice([len(f), len(f) + 100, 0x7FFFFFF0])))),
                 ("no sections", pat(pe + 6, u16(0))), ("truncated DOS header", f[:R.randint(0, 0x3F)]), ("truncated PE header", f[:R.randint(0x40, pe + 0x77)]), ("truncated section table", f[:R.randint(pe + 0x80, im.tab + 39)]),
                 ("truncated section data", f[:im.end - R.choice([1, 2, 16, min(300, im.end - im.tab - 60)])])]
        for name, data in cases:
            refuse(name, data, k)
            k += 1
    refuse("missing file", None, k, ctx.tmp + "/nosuch.dll")
    refuse("empty file", b"", k + 1)

    # real plugins of the tree, compiled and linked as Windows DLLs
    names = vf.gen_names()
    R.shuffle(names)
    nat = vf.build("natdrv", "fast", [M32 + "/pe32drv.c"], extra_flags=["-DNATIVE"], link=["-ldl"])
    plain = {}

    def plugin(n):
        if ctx.counters.get("plugins_loaded", 0) >= ctx.scale(40, 10 ** 6):
            return
        o, dll = "%s/%s.obj" % (ctx.tmp, n), "%s/%s.dll" % (ctx.tmp, n)
        fl = ["--target=i686-pc-windows-gnu", "-march=i686", "-mno-sse", "-ffreestanding", "-fno-stack-protector", "-O2", "-w", "-DNO_CUSTOM_DLLENTRY", "-DNO_X86_EXTENSIONS", "-DNO_CPU_EXTENSIONS", "-I%s/include" % vf.REPO, "-I" + M32]
        if subprocess.run(["clang"] + fl + ["-c", "%s/generators/%s.c" % (vf.REPO, n), "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            ctx.count("plugins_not_for_32_bits")
            return
        m = ctx.tmp + "/mem.obj"
        if subprocess.run(["lld-link", "/lldmingw", "/machine:x86", "/dll", "/noentry", "/safeseh:no", "/out:" + dll, o, m], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            ctx.count("plugins_not_for_32_bits")
            return
        # the same compiler for both: generators call for seeds in unspecified order
        so = "%s/%s.so" % (ctx.tmp, n)
        if subprocess.run(["clang", "-O2", "-w", "-shared", "-fPIC", "-std=c99", "-march=native", "-I%s/include" % vf.REPO, "%s/generators/%s.c" % (vf.REPO, n), "-o", so, "-lm"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            ctx.count("plugins_not_for_32_bits")
            return
        rc, out = session(exes[0], ["open " + dll, "gen 300", "close"])
        rc2, ref = session(nat, ["open " + so, "gen 300", "close"])
        os.unlink(dll)
        os.unlink(o)
        ctx.case(("plugin", n))
        if len(ref) < 2 or not ref[1].startswith("GEN") or rc == 0 and out[1:2] in (["NOSTATE"], ["NOGEN"]):
            ctx.count("plugins_without_this_processor")
            return
        ctx.count("plugins_loaded")
        ctx.count("plugin_words", 300)
        if rc != 0 or len(out) != 3 or out[0] != "OK open=0" or out[1].split(" self=")[0] != ref[1].split(" self=")[0] or (" self=0" in out[1] and " self=1" in ref[1]) or not out[2].startswith("CLOSED live=0 bad=0"):
            ctx.violation("plugin:" + n, "%s as a Windows DLL: exit %r, %s, native plugin %s" % (n, rc, [q[:120] for q in out], ref[1][:120]), {"plugin": n})
    open(ctx.tmp + "/mem.c", "w").write("typedef unsigned s;void*memcpy(void*d,const void*p,s n){volatile char*a=d;const char*b=p;while(n--)*a++=*b++;return d;}"
                                        "void*memset(void*d,int c,s n){volatile char*a=d;while(n--)*a++=c;return d;}"
                                        "void*memmove(void*d,const void*p,s n){volatile char*a=d;const char*b=p;if(a<b)while(n--)*a++=*b++;else while(n--)a[n]=b[n];return d;}\n")
    subprocess.run(["clang", "--target=i686-pc-windows-gnu", "-march=i686", "-ffreestanding", "-O1", "-fno-builtin", "-w", "-c", ctx.tmp + "/mem.c", "-o", ctx.tmp + "/mem.obj"], check=True)
    vf.pmap(plugin, names)
    ctx.require("symbols", 2000)
    ctx.require("relocations", 2000)
    ctx.require("refusals", 200)
    ctx.require("plugins_loaded", 10)
    ctx.assumptions = ["the loader runs in a 32-bit process with a small freestanding C library (harness/m32) whose heap blocks are fenced by inaccessible pages",
                       "images are well formed: a plugin is code the user chose to run, hostile images are out of scope"]


vf.main("C29", check)
