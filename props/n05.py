"""N05: update rules, parameter by parameter"""
import random
from vlib.core import *


def gen(r, n, big):
    out = []
    for i in range(n):
        rule = r.choice(["sgd", "sgdm", "adam", "sgdmd", "adamd"])
        base = rule.replace("d", "") if False else {"sgd": "sgd", "sgdm": "sgdm", "adam": "adam", "sgdmd": "sgdm", "adamd": "adam"}[rule]
        lim = 3 if base == "adam" else 10
        lr = r.choice([1, 4, 16, 64, 102] if base == "adam" else [1, 10, 64, 256, 512])
        blr = r.choice([1, 4, 16, 64, 102] if base == "adam" else [1, 10, 64, 256, 512])
        ops, ps = [], []
        steps = r.randint(4, 40 if big else 18)
        for k in range(steps):
            if not ps or (len(ps) < 4 and r.random() < .25):
                rows, cols = r.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
                ps.append(rows * cols)
                ops.append("r %s %d %d" % (r.choice("wb"), rows, cols))
            if r.random() < .3:
                ops.append("t")
            p = r.randrange(len(ps))
            style = r.random()
            ops.append("u %d %s" % (p, " ".join(str(r.randint(-lim, lim) if style < .8 else r.choice([0, 1, lim])) for _ in range(ps[p]))))
        out.append(dict(name="opt-%d" % i, cmd="opt %s %d %d %s" % (rule, lr, blr, " ".join(ops)),
                        spec=dict(rule=base, decay=rule.endswith("d") and rule != "sgd", lr=lr * 10**7 // 1024, blr=blr * 10**7 // 1024, layer="", params=0)))
        kind = r.choice(["conv", "full", "bias"])
        rule = r.choice(["sgd", "sgdm", "adam"])
        lr = r.choice([4, 16, 64] if rule == "adam" else [10, 64, 256])
        A = r.choice([1, 4, 9]) if kind == "conv" else r.randint(1, 3)
        B = A if kind == "bias" else r.randint(1, 3)
        rounds = r.randint(1, 4)
        cmd = ["layer", rule, lr, kind, A, B, rounds]
        for _ in range(rounds):
            m = r.choice([1, 1, 2, 4])
            cmd.append(m)
            same = r.random() < .3
            for _ in range(m):
                # products are multiples of 4, so averages over 1, 2 or 4 records are whole
                if rule == "adam" and m > 1:
                    x, e = [r.choice([-1, 0, 1]) for _ in range(A)], [r.choice([0, 2 * m, -m]) for _ in range(B)]
                elif rule == "adam":
                    x, e = [r.choice([-1, 0, 1]) for _ in range(A)], [r.randint(-3, 3) for _ in range(B)]
                else:
                    x, e = [r.randint(-2, 2) for _ in range(A)], [4 * r.randint(-1, 1) for _ in range(B)]
                cmd += x + e
        out.append(dict(name="layer-%d" % i, cmd=" ".join(map(str, cmd)),
                        spec=dict(rule=rule, decay=False, lr=lr * 10**7 // 1024, blr=0, layer=kind, params=B if kind == "conv" else 1)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 75)
    mc, cov = model_check(sc, "MC_Optimizer.tla", "MC_Optimizer.cfg", ["Update"])
    rep.add_mc(mc, "MC_Optimizer.tla", cov)
    exe = compile_driver(sc, "opt")
    q = tier == "quick"
    tr = conform(rep, sc, exe, "T_N05.tla", "T_N05.cfg", gen(r, 500 if q else 6000, not q), group=2000)
    n = [0]

    def mut(t):
        n[0] += 1
        for e in reversed(t["ev"]):
            if e["e"] == "upd":
                e["d"][0] = e["d"][0] + e["d"][0] // 20 + 60
                return t
            if e["e"] == "layer":
                e["d"][0][0] += e["d"][0][0] // 20 + 60
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_N05.tla", "T_N05.cfg", tr, mut, want=12)
