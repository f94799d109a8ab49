"""T02: 8 and 16 bit floats"""
import random, struct
from vlib.core import *

NANS = ["7fc00000", "ffc00000"]


def probe(r, b):
    """float bits near the numbers of a bias"""
    B = b or 1
    k = r.random()
    if k < .6:
        q = r.randrange(0, 121)
        m = (q << 20) + ((127 - B) << 23) + r.choice([0, 1, -1, 0x7ffff, 0x80000, 0x80001, 0xfffff, r.randrange(1 << 20), r.randrange(1 << 20)])
    elif k < .75:
        m = ((127 - B) << 23) - r.randrange(20 << 23)
    elif k < .85:
        m = ((142 - B) << 23) + r.randrange(30 << 23)
    else:
        m = r.choice([0, 1, 0x7fffff, 0x800000, 0x7f7fffff, 0x7f800000, 0x3f800000, r.randrange(0x7f800000)])
    m = min(max(m, 0), 0x7f800000)
    return m | (r.getrandbits(1) << 31)


def floats(r, b, n):
    return "%d %s" % (n, " ".join("%08x" % probe(r, b) if r.random() < .98 else r.choice(NANS) for _ in range(n)))


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 42)
    mc, cov = model_check(sc, "MC_SmallFloat.tla", "MC_SmallFloat.cfg", ["NextCode", "Probe"])
    rep.add_mc(mc, "MC_SmallFloat.tla", cov)
    exe = compile_driver(sc, "small")
    cases = []
    num = [q for q in range(0, 248) if q <= 119 or q >= 128]
    for i, b in enumerate(list(range(-100, 111)) if tier == "thorough" else list(range(-4, 24)) + [-100, -50, 50, 110]):
        cmd = ["q %d" % b]
        for _ in range(40 if tier == "thorough" else 8):
            cmd.append("c %d %s" % (b, floats(r, b, 25)))
        cases.append(dict(name="bias%d" % b, cmd=" ".join(cmd)))
    for i in range(1000 if tier == "thorough" else 40):
        a, b, c = (r.randrange(0, 16) for _ in range(3))
        cases.append(dict(name="op%d" % i, cmd="o %d %d %d 30 %s" % (a, b, c, " ".join("%s %d %d" % (r.choice("+-*/"), r.choice(num), r.choice(num)) for _ in range(30)))))
    step = 1024
    for lo in range(0, 65536, step):
        cases.append(dict(name="half%d" % lo, cmd="h %d %d" % (lo, step)))
    for i in range(1000 if tier == "thorough" else 60):
        n = 30
        def hp():
            m = (r.randrange(0, 0x7f80) << 16) + r.choice([0, 1, 0x7fff, 0x8000, 0x8001, 0xffff, r.randrange(65536)])
            return min(m, 0x7f800000) | (r.getrandbits(1) << 31)
        cases.append(dict(name="hconv%d" % i, cmd="g %d %s" % (n, " ".join("%08x" % hp() if r.random() < .97 else r.choice(NANS + ["7f800000", "ff800000", "7f7fffff"]) for _ in range(n)))))
    tr = conform(rep, sc, exe, "T_T02.tla", "T_T02.cfg", cases)

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "codes":
                e["back"][5] = 6
                return t
            if e["e"] == "halves":
                e["f"][7]["m"] += 1
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_T02.tla", "T_T02.cfg", tr, mut, want=5)
