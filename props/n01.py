"""N01: the network computes its graph"""
import random
from vlib.core import *


def graph(r, n):
    while True:
        ids = list(range(1, n + 1))
        r.shuffle(ids)
        shape = r.random()
        edges = []
        for j in range(1, n):
            k = r.choice([0, 1, 1, 1, 2, 2, 3]) if shape < .8 else r.choice([0, 1])
            for i in (r.sample(range(j), min(j, k)) if r.random() < .9 else [r.randrange(j) for _ in range(min(j, k))]):
                edges.append((ids[i], ids[j]))
        r.shuffle(edges)
        fan = {}
        for f, _ in edges:
            fan[f] = fan.get(f, 0) + 1
        if any(x not in (1, 2, 3, 4, 6) for x in fan.values()):
            continue
        heads = [v for v in ids if all(t != v for _, t in edges)]
        outs = [v for v in ids if all(f != v for f, _ in edges)]
        r.shuffle(heads)
        r.shuffle(outs)
        return edges, heads, outs


def gen(r, n, big):
    out = []
    for i in range(n):
        N = r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8] + ([10, 12] if big else []))
        edges, heads, outs = graph(r, N)
        clip = [v for v in range(1, N + 1) if r.random() < .15]
        loose = [v for v in range(1, N + 1) if r.random() < .2]
        R = r.choice([0, 1, 2, 3, 4, 5])
        epochs = r.choice([1, 1, 2])
        batch = r.randint(1, max(1, R))
        cols = [r.sample(range(0, 60), 8) for _ in heads]
        recs = [dict(g=[c[k] for c in cols], x=[r.randint(0, 900) for _ in outs]) for k in range(R)]
        P = r.choice([0, 1, 2, 3])
        cmd = ["graph", N, len(edges)] + [x for e in edges for x in e] + [len(heads)] + heads + [len(outs)] + outs
        cmd += [len(clip)] + clip + [len(loose)] + loose + [batch, epochs]
        ask = [[r.randint(0, 60) for _ in heads] for _ in range(P)]
        # the driver reads records before predictions
        cmd += [R] + [x for q in recs for x in q["g"] + q["x"]] + [P] + [x for q in ask for x in q]
        out.append(dict(name="graph-%d" % i, cmd=" ".join(map(str, cmd)),
                        spec=dict(n=N, edges=edges, heads=heads, outs=outs, clip=clip, recs=recs, batch=batch)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 71)
    mc, cov = model_check(sc, "MC_Network.tla", "MC_Network.cfg", ["DoBegin", "DoFire", "DoJudge", "DoReturn", "DoSettle", "DoUpdate", "DoUpdated"])
    rep.add_mc(mc, "MC_Network.tla", cov)
    if tier == "thorough":
        mc, cov = model_check(sc, "MC_Network.tla", "MC_Network5.cfg", ["DoBegin", "DoFire", "DoJudge", "DoReturn"], timeout=3000)
        rep.add_mc(mc, "MC_Network.tla (5 nodes)", cov)
    exe = compile_driver(sc, "net")
    tr = conform(rep, sc, exe, "T_N01.tla", "T_N01.cfg", gen(r, 600 if tier == "quick" else 8000, tier != "quick"), group=2000)
    kinds = [0]

    def mut(t):
        kinds[0] += 1
        want = ["bwd", "fwd", "apply"][kinds[0] % 3]
        for k, e in enumerate(t["ev"]):
            if e["e"] == want:
                if want == "apply":
                    del t["ev"][k]
                elif want == "bwd":
                    e["err"] += 100
                else:
                    e["in"][0] += 100
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_N01.tla", "T_N01.cfg", tr, mut, want=15)
