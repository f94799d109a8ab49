"""N06: gradients and errors follow the derivatives"""
import random
from vlib.core import *
from props import n04 as nets

ACTS = ["relu", "leaky", "linear", "sigmoid", "sigmoidApprox", "tanh", "tanhApprox", "softmax"]


def quarter(r, m=12):
    return r.randint(-m, m) * 250


def tens(r, s, pick=quarter):
    return [*s] + [pick(r) for _ in range(s[0] * s[1] * s[2])]


def layer(r, q):
    k = r.choice(["full", "full", "conv", "conv", "conv", "bias", "cat", "flat", "norm", "norm", "drop", "act", "act", "act"])
    spec = dict(layer=k, act="", l2=0, lr=r.choice([1000, 500, 250]), rate=0, many=False)
    small = [(1, 1, 1), (1, 3, 1), (2, 2, 1), (3, 2, 1), (2, 2, 2), (1, 4, 3), (3, 3, 2)]
    w, ins, out, make = [], None, None, []
    pick = quarter
    if k == "full":
        a, b, rows = r.randint(1, 5), r.randint(1, 5), r.choice([1, 1, 1, 2, 3])
        make = [a, b, rows]
        w = tens(r, (a, b, 1))[3:]
        ins, out = [(rows, a, 1)], (rows, b, 1)
    elif k == "conv":
        kk = r.choice([1, 2, 2, 3])
        s = (kk + r.randint(0, 3), kk + r.randint(0, 3), r.choice([1, 1, 2, 3]))
        f = r.choice([1, 2, 3])
        make = [*s, f, kk]
        w = tens(r, (kk, kk * f, s[2]))[3:]
        ins, out = [s], (s[0] - kk + 1, s[1] - kk + 1, f)
    elif k == "bias":
        s = r.choice(small)
        make = [*s]
        w = tens(r, s)[3:]
        ins, out = [s], s
    elif k == "cat":
        rows, ch, n = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2]), r.choice([2, 2, 3, 4])
        cs = [r.randint(1, 4) for _ in range(n)]
        make = [n, rows, ch] + cs
        ins, out = [(rows, c, ch) for c in cs], (rows, sum(cs), ch)
    elif k == "flat":
        s = r.choice(small)
        ins, out = [s], (1, s[0] * s[1] * s[2], 1)
    elif k == "norm":
        s = r.choice([x for x in small if x != (1, 1, 1)])
        ins, out = [s], s
    elif k == "drop":
        spec["rate"] = r.choice([0, 100, 250, 500, 800])
        if r.random() < .5:
            s = (r.choice([5, 10]), r.choice([10, 20]), 2)
            pick = lambda r: r.choice([-1, 1]) * r.randint(1, 12) * 250
            spec["many"] = True
        else:
            s = r.choice(small)
        make = [*s, spec["rate"]]
        ins, out = [s], s
    else:
        spec["act"] = r.choice(ACTS)
        s = r.choice(small)
        ins, out = [s], s
        make = [spec["act"]]
    if k in ("full", "conv") and r.random() < .4:
        spec["l2"] = r.choice([100, 500, 2000])
    ops = []
    f = lambda train: ["f", train, len(ins)] + [x for s in ins for x in tens(r, s, pick)]
    for _ in range(r.randint(1, 3)):
        if r.random() < .4:
            ops += f(0)
        for _ in range(r.randint(1, 3)):
            ops += f(1)
            if r.random() < .2:
                ops += f(0)
            ops += ["b"] + tens(r, out)
        if w:
            ops += ["a"]
    cmd = ["layer", k] + make + [spec["l2"], spec["lr"]] + w + ops
    return dict(name="layer-%d" % q, cmd=" ".join(map(str, cmd)), spec=dict(spec, loss=""))


def loss(r, q):
    name = r.choice(["mse", "mae", "smae", "smae", "bce", "cce"])
    s = r.choice([(1, 1, 1), (1, 2, 1), (1, 4, 1), (2, 3, 1), (2, 2, 2)])
    n = s[0] * s[1] * s[2]
    if name in ("bce", "cce"):
        p = [r.choice([r.randint(1, 19) * 50, r.randint(1, 19) * 50, r.randint(1, 19) * 50, 0, 1000]) for _ in range(n)]
        t = [r.choice([0, 1000]) if x in (0, 1000) or r.random() < .7 else r.choice([500, 250, 900]) for x in p]
    else:
        p = [r.choice([quarter(r, 16), quarter(r, 4), r.randint(-1500, 1500)]) for _ in range(n)]
        t = [x if r.random() < .15 else x + r.choice([1000, -1000]) if r.random() < .1 else quarter(r, 8) for x in p]
    return dict(name="loss-%d" % q, cmd=" ".join(map(str, ["loss", name, *s] + t + p)), spec=dict(loss=name, layer="", act="", l2=0, lr=0, rate=0, many=False))


def parents(v):
    x = v[11:]
    return x[1:] if v[0] == "cat" else x[:1] if v[0] in ("full", "conv", "drop", "norm") else []


def step(r, q):
    """one training step of a random smooth network (one that feeds every layer's answer to one layer only: where it feeds
    several, their errors are averaged by design)"""
    while True:
        vs, hs, os, _ = nets.program(r)
        used = [p for v in vs for p in parents(v)]
        if len(set(used)) == len(used) and not any(v[0] == "norm" for v in vs):
            break
    if r.random() < .15:    # shapes that only a chain of convolutions shows
        common = lambda: [0, "", int(r.random() < .5), 0, "0.1", 0, 0, "1.0", 32, int(r.random() < .3)]
        f1, f2, n = r.randint(1, 2), r.randint(1, 2), r.randint(1, 3)
        plain = lambda: [0, "", 0] + common()[3:]
        vs = [["inconv"] + common() + [4, 5, 2, f1, 2], ["drop"] + plain() + [1, 0], ["conv"] + common() + [2, f2, 2], ["drop"] + plain() + [3, 0],
              ["full"] + [1] + common()[1:] + [4, n]]
        hs = [(4, 5, 2)]
    name = r.choice(["mse", "mse", "mae", "smae", "bce", "cce"])
    for v in vs:
        if v[0] == "drop":
            v[-1] = 0       # drops nothing
        v[2] = r.choice(["tanh", "sigmoid", "linear", "sigmoidApprox", "tanhApprox", "tanh", "sigmoid"])
        if v[1]:
            v[2] = dict(bce="sigmoid", cce="softmax").get(name, v[2])
        v[4], v[6], v[7], v[9] = 0, 0, 0, 32     # no regularization, standardization (no step is small for it) or clipping; full precision
    lr = "0.001"
    cmd = ["step", "sgd", lr, lr, name, len(vs)]
    for v in vs:
        cmd += v
    cmd += [len(hs)] + [x for s in hs for x in s] + [r.randint(0, 50)]
    return dict(name="step-%d" % q, cmd=" ".join(map(str, cmd)), spec=dict(loss=name, layer="", act="", l2=0, lr=0, rate=0, many=False))


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 76)
    mc, cov = model_check(sc, "MC_Layers.tla", "MC_Layers.cfg", ["Probe"])
    rep.add_mc(mc, "MC_Layers.tla", cov)
    exe = compile_driver(sc, "layers")
    big = 1 if tier == "quick" else 12
    cases = [layer(r, q) for q in range(600 * big)] + [loss(r, q) for q in range(300 * big)] + [step(r, q) for q in range(150 * big)]
    tr = conform(rep, sc, exe, "T_N06.tla", "T_N06.cfg", cases, group=150)
    n = [0]

    def mut(t):
        n[0] += 1
        for e in t["ev"]:
            if e["e"] == "loss":
                e["d"]["v"][0] += 40 + abs(e["d"]["v"][0]) // 100
                return t
            if n[0] % 2 and e["e"] == "fwd" and (t["layer"] not in ("norm", "drop") or not e["train"]):
                e["y"]["v"][-1] += 100 + abs(e["y"]["v"][-1]) // 50
                return t
            if e["e"] == "apply":
                e["w"][0]["v"][0] += 100
                return t
            if e["e"] == "step" and e["q"] > 3000:
                e["q"] = e["q"] * 2
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_N06.tla", "T_N06.cfg", tr, mut, want=15)
