"""Running generator plugins in the stand-alone host (harness/vh_host.c)."""
import vf


def build(flavour="fast"):
    x = {"asan": ["-DVH_ASAN"], "msan": ["-DVH_ASAN", "-DVH_MSAN"]}.get(flavour, [])
    return vf.build("vh_host", flavour, [vf.HARN + "/vh_host.c"], extra_flags=x, cc="clang" if flavour == "msan" else "gcc")


class Answer:
    def __init__(self, rc, lines, err):
        self.rc, self.lines, self.err = rc, lines, err


def kv(line):
    return dict(q.split("=", 1) for q in line.split()[1:] if "=" in q)


def session(exe, plugin, cmds, timeout=120, env=None):
    rc, out, err = vf.run([exe, plugin], input=("\n".join(cmds) + "\n").encode(), timeout=timeout, env=env)
    if rc == 77:
        raise vf.HarnessError("plugin host: %s %s" % (plugin, err.decode("utf-8", "replace")[-300:]))
    return Answer(rc, out.decode("utf-8", "replace").split("\n")[:-1], err.decode("utf-8", "replace"))


def ghash(words):
    """the hash of G / Q"""
    h = 0
    M = (1 << 64) - 1
    for u in words:
        h = ((h ^ int(u)) * 0x9FB21C651E98DF25) & M
        h ^= h >> 28
    return h
