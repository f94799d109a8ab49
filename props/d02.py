"""D02: delimited text"""
import random
from vlib.core import *

DELIMS = [44, 9, 58, 59, 124]
FRAG = ["a", "b", "\"", "\"\"", "<", "<_", "<_<", "<~", "<~D>", "<~N>", ">", "_", "~", ",", ":", "\t", "|", ";", "\n", " ", "1", "12", "-3.5",
        "3 apples", "e5", "1e5", "inf", "nan", ".", "D", "N", "\r", "\xe9", "\x00", "0x1", "\"x\"", "a\"b", "''", "\\"]


def strip(s):
    return s.strip(" \t\n\r\x0b\x0c")


def cell(r):
    k = r.choice([0, 1, 1, 2, 3, 5])
    return strip("".join(r.choice(FRAG) for _ in range(k)))


def rt(r, name, d, recs):
    t = ["rt", str(d), str(len(recs))]
    for x in recs:
        t += [str(len(x)), *[hx(c) for c in x]]
    return dict(name=name, cmd=" ".join(t))


def gen(r, n):
    out = []
    i = 0
    # every fragment, and every pair of fragments, as a cell
    pairs = [strip(a + b) for a in FRAG for b in FRAG] + [strip(a) for a in FRAG]
    for d in DELIMS:
        for j in range(0, len(pairs), 12):
            recs = [[x, "t"] if (k % 3) else [x] for k, x in enumerate(pairs[j:j + 12])]
            out.append(rt(r, "d02-p%d-%d" % (d, j), d, recs))
    for i in range(n):
        out.append(rt(r, "d02-r%d" % i, r.choice(DELIMS), [[cell(r) for _ in range(r.choice([1, 1, 2, 3, 6]))] for _ in range(r.choice([0, 1, 2, 5]))]))
    HF = ["a", "b", "\"", "\"", "\"\"", ",", ",", "\n", "\n", " ", "x\"y", "\r\n", "12", "<", "<~D>", "<~x", "<_z", "<_<", "<~N>", "<__", "\"q,q\"", "\"l\nl\"", ":", "\xff"]
    for i in range(n):
        t = "".join(r.choice(HF) for _ in range(r.choice([0, 1, 2, 4, 8, 15, 30])))
        out.append(dict(name="d02-h%d" % i, cmd=" ".join(["hand", str(r.choice([44, 44, 58])), str(int(r.random() < .4)), hx(t)])))
    for i in range(n // 3):
        fs = [r.choice(["", "h\n", "h", "\n", "h\na\nb\n", "x\ny", "h\n\n", "\n\nz"]) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        out.append(dict(name="d02-d%d" % i, cmd=" ".join(["dir", str(int(r.random() < .5)), str(len(fs)), *[hx(f) for f in fs]])))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 2)
    mc, cov = model_check(sc, "MC_DelimText.tla", "MC_DelimText.cfg", ["Eat"])
    rep.add_mc(mc, "MC_DelimText cells over 9 characters up to length 4", cov)
    exe = compile_driver(sc, "d02")
    tr = conform(rep, sc, exe, "T_D02.tla", "T_D02.cfg", gen(r, 500 if tier == "quick" else 6000))

    def mut(t):
        for e in t["ev"]:
            if e["e"] in ("read", "hand") and e["recs"] and e["recs"][-1][-1]:
                e["recs"][-1][-1][-1] ^= 1
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_D02.tla", "T_D02.cfg", tr, mut, want=6)
