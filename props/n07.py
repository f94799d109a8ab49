"""N07: searches for hyperparameters with given and with real scores"""
import random
from vlib.core import *

# how many values the parts of the space have
SPACE = [11, 11, 8, 14, 7, 14, 7, 2, 2, 2, 2]


def case(r, i):
    loss = r.choice(["mse", "mae", "bin", "cat"])
    k = r.random()
    purposes = "I" if k < .12 else "".join(r.choice("NNL") for _ in range(r.choice([1, 1, 2, 3])))
    lossy = k < .04
    rows = r.choice([1, 2, 3, 5])
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 27] if r.random() < .9 else [-1, 1000000])
    factor = r.choice([2, 2, 3, 3, 4, 5] * 3 + [1, 0])
    res = r.choice([1, 2, 5, 9, 16, 27, 81])
    limits = [r.choice([0, 1, 2, 3]), r.choice([0, 1, 3]), r.choice([1, 2, 3, 4]) if purposes != "I" else 8 if lossy else r.choice([1, 2, 3]),
              r.choice([1, 2, 3]), r.choice([0, 1, 3]), r.choice([0, 1, 4]), 0, r.choice([0, 0, 1]), r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1])]
    if n in (-1, 1000000):      # the whole space
        limits = [1, 1, 1, 1, r.choice([1, 2, 3]), r.choice([1, 2, 3]), 1, 1, 1, 1, r.choice([1, 2])]
    if purposes == "I":
        limits[3] = r.choice([1, 2])
    mode = r.random()
    minimize = loss in ("mse", "mae")
    if mode < .25:
        scores, target = [], r.choice([-5000, 5000]) if not minimize else r.choice([-5000, -5000, 5000])
    else:
        pool = [str(10 * r.randint(0, 100)) for _ in range(r.choice([2, 4, 40]))]
        if mode > .7:
            pool += ["nan"] * r.randint(0, 3) + ["throw"] * r.randint(0, 3)
        if mode > .95:
            pool = ["nan", "throw"] if r.random() < .5 else ["throw"]
        scores = [r.choice(pool) for _ in range(r.choice([7, 23, 91]))]
        if mode > .7 and r.random() < .3:
            scores[0] = "nan"
        target = r.choice([10 * r.randint(0, 100) - 5, -5000 if minimize else 5000, -5000 if minimize else 5000])
    batch = r.choice([1, 4, 31, 31, 31, 32, 33, 100, 600, 2000])
    if batch > 1:
        limits[6] = 0
    if batch > 31:
        rows = batch            # a batch cannot be larger than the dataset, whose rows differ
        if "N" not in purposes:
            purposes, lossy, limits[2] = "N", False, r.choice([1, 2, 3])
    if batch > 99:
        n = 0                   # only the space
    return dict(name="n07-%d" % i, cmd="hyper %s %s %d %d %d %d %d %d %d %d %s %d %s" % (
        loss, purposes, max(rows, 1), n, res, factor, target, r.choice([1, 2, 3]), batch,
        r.choice([32, 32, 32, 16, 8]), " ".join(map(str, limits)), len(scores), " ".join(scores)))


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 17)
    mc, cov = model_check(sc, "MC_Hyperband.tla", "MC_Hyperband.cfg", ["Eval"])
    rep.add_mc(mc, "MC_Hyperband.tla", cov)
    exe = compile_driver(sc, "hyper")
    sc.in_memory()
    n = 400 if tier == "quick" else 8000
    tr = conform(rep, sc, exe, "T_N07.tla", "T_N07.cfg", [case(r, i) for i in range(n)], case_timeout=25)

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "result" and e["found"]:
                e["found"] = False
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_N07.tla", "T_N07.cfg", tr, mut, want=5)
