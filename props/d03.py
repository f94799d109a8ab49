"""D03: file sorting"""
import random
from vlib.core import *

POOL = ["", "a", "b", "aa", "ab", "a b", " a", "A", "z", "\xff", "\x01", "a,1", "\"q\"", "10", "9", "1", "\x00", "a\r", "a\x00", "aaaa", "header"]


def gen(r, n):
    out = []
    for i in range(n):
        k = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40])
        pool = r.sample(POOL, r.choice([2, 4, len(POOL)]))
        lines = [r.choice(pool) for _ in range(k)]
        if r.random() < .3:
            lines = [str(r.randrange(30)) for _ in range(k)]
        hdr = r.random() < .5
        if hdr and not lines:
            lines = ["h"]
        text = "\n".join(lines) + ("\n" if lines and r.random() < .6 else "")
        m = len(lines)
        chunk = r.choice([1, 2, 3, 4, 7, max(1, m - 1), max(1, m), m + 1, 10000])
        sibs = []
        for nm in ["chunk_0.txt", "chunk_1.txt", "other.txt", "in.csv", "in.sorted.csv"]:
            if r.random() < .3:
                sibs.append((nm, r.choice(["", "keep\nme\n", "\x00\x01"])))
        on = r.choice(["out.txt", "in.sorted.csv", "zz"])
        cmd = [hx(text), str(int(hdr)), str(chunk), str(int(r.random() < .7)), hx(on), str(len(sibs))]
        for a, bb in sibs:
            cmd += [hx(a), hx(bb)]
        out.append(dict(name="d03-%d" % i, cmd=" ".join(cmd)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 3)
    mc, cov = model_check(sc, "MC_FileSort.tla", "MC_FileSort.cfg", ["Fill", "Flush", "StartMerge", "SNext", "Done"])
    rep.add_mc(mc, "MC_FileSort N=5 lines, chunk 1..3", cov)
    exe = compile_driver(sc, "d03")
    tr = conform(rep, sc, exe, "T_D03.tla", "T_D03.cfg", gen(r, 400 if tier == "quick" else 5000))

    def mut(t):
        e = t["ev"][1]
        ls = bytes(e["out"]).split(b"\n")
        if len(ls) < 4 or ls[1] == ls[2]:
            return None
        ls[1], ls[2] = ls[2], ls[1]
        e["out"] = list(b"\n".join(ls))
        return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_D03.tla", "T_D03.cfg", tr, mut, want=5)
