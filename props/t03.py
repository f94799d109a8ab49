"""T03: byte pair encoding"""
import random
from vlib.core import *


def token(r):
    k = r.random()
    if k < .1:
        return b""
    if k < .6:
        return bytes(r.choice(b"aab b") for _ in range(r.randint(1, 8)))
    if k < .8:
        return r.choice(["the", " the", "then", "héé", "ünü", "aaaa", "abab", "\xfe\xfe", " \n", "0.5"]).encode("utf-8")
    return bytes(r.choice([0, 1, 97, 98, 127, 128, 129, 195, 254, 255]) for _ in range(r.randint(1, 6)))


def xh(b):
    return "x" + b.hex()


def gen(r, n):
    out = []
    for i in range(n):
        ops = []
        for _ in range(r.randint(4, 14)):
            s = r.choice([0, 0, 1, 2])
            k = r.choice(["train", "train", "train", "file", "folder", "enc", "enc", "enc", "enc", "save", "load"])
            if k == "train":
                ts = [token(r) for _ in range(r.randint(0, 12))]
                ts += ts[:r.randint(0, len(ts))]
                ops.append("train %d %d %d %s" % (s, r.choice([-1, -1, 1, 2, 3]), len(ts), " ".join(xh(t) for t in ts)))
            elif k == "file":
                ops.append("file %d %s" % (s, xh(b" ".join(token(r) for _ in range(r.randint(0, 12))))))
            elif k == "folder":
                m = r.randint(1, 3)
                ops.append("folder %d %d %s" % (s, m, " ".join(xh(b" ".join(token(r) for _ in range(r.randint(0, 8)))) for _ in range(m))))
            elif k == "enc":
                for _ in range(r.randint(1, 4)):
                    ops.append("enc %d %s" % (s, xh(token(r))))
            else:
                ops.append("%s %d %s" % (k, s, r.choice(["k0", "k0", "k1"])))
        for s in range(3):
            ops.append("enc %d %s" % (s, xh(token(r))))
        out.append(dict(name="t03-%d" % i, cmd="bpe " + " ".join(ops)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 43)
    mc, cov = model_check(sc, "MC_BytePair.tla", "MC_BytePair.cfg", ["Learn", "Save", "Load"])
    rep.add_mc(mc, "MC_BytePair.tla", cov)
    exe = compile_driver(sc, "utils")
    tr = conform(rep, sc, exe, "T_T03.tla", "T_T03.cfg", gen(r, 500 if tier == "quick" else 10000), group=2000)

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "enc" and len(e["x"]) > 3:
                e["x"].pop(1)
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_T03.tla", "T_T03.cfg", tr, mut, want=5)
