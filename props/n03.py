"""N03: when training stops"""
import random
from vlib.core import *


def limits(r):
    return dict(patience=r.choice([0, 1, 2, 3, 5, 50]), elapsed=r.choice([0, 5, 50, 10**9]), epochs=r.choice([0, 1, 3, 6, 100]),
                zero=r.choice([0, 0, 1, 8]), improve=r.choice([0, 1, 1, 2, 8]), min=r.choice([0, 1, 2, 4, 7]), degr=r.choice([0, 1, 4, 8, 16, 800]))


def words(m):
    return [m[k] for k in ("patience", "elapsed", "epochs", "zero", "improve", "min", "degr")]


def gen(r, n):
    out = []
    for i in range(n):
        m = limits(r)
        if r.random() < .5:  # one limit matters at a time
            m.update(dict(patience=50, elapsed=10**9, epochs=100, zero=0, degr=800, min=r.choice([0, 1, 3])))
            k = r.choice(["patience", "elapsed", "epochs", "zero", "degr", "improve"])
            m[k] = dict(patience=r.randint(1, 4), elapsed=r.randint(1, 60), epochs=r.randint(1, 9), zero=r.randint(0, 20), degr=r.randint(1, 16), improve=r.randint(1, 8))[k]
            if k == "improve":
                m["patience"] = r.randint(1, 4)
        ops = []
        for t in range(r.choice([1, 1, 2])):
            if t or r.random() < .3:
                ops.append("r")
            el, x = 0, r.randint(10, 200)
            for e in range(1, r.randint(2, 12)):
                el += r.choice([0, 1, 1, 5, 20])
                ops.append("a %d %d %d" % (e, x, el))
                x = max(0, x + r.choice([-1, -1, -2, -8, -20, 0, 0, 1, 5, 40]))
        out.append(dict(name="exit-%d" % i, cmd="exit %s %s" % (" ".join(map(str, words(m))), " ".join(ops)), spec=dict(kind="exit", limits=m)))
    return out


def trainings(r, n):
    out = []
    for i in range(n):
        m = limits(r)
        m["epochs"] = min(m["epochs"], 12)
        m["elapsed"] = r.choice([10**9, 10**9, 20, 40])
        if r.random() < .5:
            m.update(dict(patience=50, epochs=12, zero=0, degr=800, elapsed=r.choice([10**9, 25])))
        sleep = r.choice([0, 3, 6]) if m["elapsed"] < 10**9 else 0
        runs = r.choice([1, 2, 3])
        L = r.randint(5, 40)
        table = [r.randint(0, 200) for _ in range(L)]
        cmd = ["limit"] + words(m) + [sleep, runs, L] + table
        out.append(dict(name="limit-%d" % i, cmd=" ".join(map(str, cmd)), spec=dict(kind="limit", limits=m)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 73)
    mc, cov = model_check(sc, "MC_ExitStrategy.tla", "MC_ExitStrategy.cfg", ["Epoch"])
    rep.add_mc(mc, "MC_ExitStrategy.tla", cov)
    exe = compile_driver(sc, "net")
    q = tier == "quick"
    tr = conform(rep, sc, exe, "T_N03.tla", "T_N03.cfg", gen(r, 2000 if q else 20000) + trainings(r, 150 if q else 1500), group=4000)

    def mut(t):
        for e in reversed(t["ev"]):
            if e["e"] == "ask":
                e["done"] = not e["done"]
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_N03.tla", "T_N03.cfg", tr, mut, want=10)
