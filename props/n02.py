"""N02: training epochs, batches, losses and the knowledge kept"""
import random
from vlib.core import *

FILES = [codes(x) for x in ("net/", "net/other/", "net/other/p1")]


def gen(r, n, big):
    out = []
    for i in range(n):
        nodes, outs = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2])
        style = r.random()
        L = r.randint(5, 31)
        table = [r.randint(0, 60) for _ in range(L)]
        if style < .12:
            table = [r.choice([0, 1]) for _ in range(L)]
        runs, spec = [], []
        nan = r.random() < .12
        for k in range(r.choice([1, 1, 2, 3])):
            N = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10] + ([17, 25] if big else []))
            b = r.choice([1, 1, 2, 3, 4, 5, 7, N, N])
            if r.random() < .06:
                b = r.choice([0, -1, N + 1])
            ep = r.choice([1, 2, 3, 4, 5, 7])
            runs.append([ep, b, r.choice(["best", "best", "last"]), N, r.choice([0, 0, 1, 3, 5])])
        if nan:
            table[r.randrange(L)] = -1
            for q in runs:
                q[4] = 0
        cmd = ["train", nodes, outs, L] + table + [len(runs)] + [x for q in runs for x in q]
        out.append(dict(name="train-%d" % i, cmd=" ".join(map(str, cmd)),
                        spec=dict(kind="train", nodes=nodes, outs=outs, table=table, files=FILES)))
        H, W, R = r.choice([1, 1, 2]), r.choice([1, 2, 3, 5]), r.choice([1, 2, 5, 9])
        how = r.choice(["bin", "cat"])
        recs = []
        for k in range(R):
            x = [[r.choice([0, 8, 3, 5, -3, -5, 4, 9, 16]) for _ in range(W)] for _ in range(H)]
            g = [[v + r.choice([0, 0, 0, 1, -1]) if r.random() < .9 else r.choice([0, 8, 16]) for v in h] for h in x]
            if how == "cat":  # no ties: which of two equal categories is best is left open
                g, x = [r.sample(range(-20, 40), W) for _ in range(H)], [r.sample(range(-20, 40), W) for _ in range(H)]
                if r.random() < .6:
                    g = [list(h) for h in x]
            recs.append(dict(g=g, x=x))
        lim = r.choice([-1, -1, 1, R, R + 3])
        cmd = ["acc", how, H, W, lim, R] + [v for q in recs for h in q["g"] + q["x"] for v in h]
        out.append(dict(name="acc-%d" % i, cmd=" ".join(map(str, cmd)),
                        spec=dict(kind="acc", how=how, limit=lim, recs=recs, nodes=1, outs=1)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 72)
    mc, cov = model_check(sc, "MC_Train.tla", "MC_Train.cfg", ["Start", "DoLearn", "DoUpdate", "DoTest", "DoEpoch", "DoFinish", "DoFail"])
    rep.add_mc(mc, "MC_Train.tla", cov)
    exe = compile_driver(sc, "net")
    tr = conform(rep, sc, exe, "T_N02.tla", "T_N02.cfg", gen(r, 500 if tier == "quick" else 6000, tier != "quick"), group=1500)
    n = [0]

    def mut(t):
        n[0] += 1
        for k, e in enumerate(t["ev"]):
            if n[0] % 3 == 0 and e["e"] == "epoch":
                e["loss"] += 700
                return t
            if n[0] % 3 == 1 and e["e"] == "apply":
                del t["ev"][k]
                return t
            if n[0] % 3 == 2 and e["e"] == "trained" and not e["threw"]:
                e["ver"] = [x + 100 for x in e["ver"]]
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_N02.tla", "T_N02.cfg", tr, mut, want=15)
