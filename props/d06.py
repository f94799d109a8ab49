"""D06: dataset iteration, splits and shufflers"""
import random
from vlib.core import *

SPLITS = [("0.5", "-0.5"), ("0.9", "-0.1"), ("0.8", "-0.2"), ("0.75", "-0.25"), ("0.7", "-0.3"), ("0.6", "-0.4"), ("0.1", "-0.9"),
          ("0.2", "-0.8"), ("0.3", "-0.7"), ("0.4", "-0.6"), ("0.99", "-0.01"), ("0.01", "-0.99"), ("0.333333", "-0.666667"), ("0.66", "-0.34")]


def gen(r, n):
    out = []
    # every split at every small size, read completely twice and reopened
    for (a, b) in SPLITS:
        for n0 in (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 20, 25, 50):
            ops = ["bin L l%s r%s %d %s" % (a, b, n0, a), "bin R r%s l%s %d %s" % (b, a, n0, b), "count L", "count R", "all L", "all R", "restart L", "all L",
                   "bin L2 l%s r%s %d %s" % (a, b, n0, a), "all L2", "bin R2 r%s l%s %d %s" % (b, a, n0, b), "all R2", "bin W w - %d 1" % n0, "all W"]
            out.append(dict(name="d06-s%s-%d" % (a, n0), cmd=" ".join(ops)))
    for i in range(n):
        ops, D, S = [], [], []
        n0 = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12])
        cnts = {}
        a, b = r.choice(SPLITS)
        x = int(n0 * int(round(float(a) * 1e6)) / 1000000)
        kinds = r.sample(["L", "R", "W", "M", "M2"], r.randint(1, 4))
        for k in kinds:
            if k == "L":
                ops.append("bin L l r %d %s" % (n0, a)); cnts[k] = x
            elif k == "R":
                ops.append("bin R r l %d %s" % (n0, b)); cnts[k] = n0 - x
            elif k == "W":
                ops.append("bin W w - %d 1" % n0); cnts[k] = n0
            else:
                ops.append("mem %s m%s %d" % (k, k, n0)); cnts[k] = n0
            D.append(k)
        for j in range(r.randint(0, 3)):
            s = "s%d" % j
            ops.append("newsh %s %d" % (s, r.choice(list(cnts.values()) + [n0])))
            S.append(s)
        for _ in range(r.choice([5, 15, 40])):
            o = r.choice(["next"] * 5 + ["all", "all", "restart", "restart", "shuffle", "pred", "attach", "attach", "count", "add"])
            if o in ("shuffle", "pred"):
                if S:
                    ops.append("%s %s" % (o, r.choice(S)))
            elif o == "attach":
                if S:
                    ops.append("attach %s %s" % (r.choice(D), r.choice(S)))
            elif o == "add":
                m = [d for d in D if d.startswith("M")]
                # growth after a failed attach only; a shuffler keeps its size
                if m:
                    ops.append("add %s" % r.choice(m))
            else:
                ops.append("%s %s" % (o, r.choice(D)))
        out.append(dict(name="d06-%d" % i, cmd=" ".join(ops)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 6)
    mc, cov = model_check(sc, "MC_DatasetIter.tla", "MC_DatasetIter.cfg",
                          ["DoOpen", "DoSh", "DoShuffle", "DoAttach", "DoNext", "DoEnd", "DoRestart"])
    rep.add_mc(mc, "MC_DatasetIter 3 rows, two complementary parts", cov)
    exe = compile_driver(sc, "d06")
    tr = conform(rep, sc, exe, "T_D06.tla", "T_D06.cfg", gen(r, 250 if tier == "quick" else 4000))

    def mut(t):
        ix = [i for i, e in enumerate(t["ev"]) if e["e"] == "next" and e["row"] >= 0]
        if len(ix) < 2:
            return None
        e, f = t["ev"][ix[0]], t["ev"][ix[-1]]
        if f["row"] == e["row"]:
            return None
        f["row"] = f["row2"] = -1
        return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_D06.tla", "T_D06.cfg", tr, mut, want=5)
