"""N04: saved models and knowledge come back"""
import random
from vlib.core import *

ACTS = ["relu", "tanh", "sigmoid", "leaky", "softmax", "sigmoidApprox", "tanhApprox", "linear"]


def program(r):
    """a random network: (vertex tokens, head shapes, output shapes, parameters, trainable layers)"""
    vs, heads, outs, shapes = [], [], [], []
    params = [0, 0]

    def style(kind, out, extra, shape, weights, act=None):
        trains = kind in ("in", "inconv", "full", "conv")
        bias = trains and r.random() < .5
        if trains:
            params[0] += weights + (shape[0] * shape[1] * shape[2] if bias else 0)
            params[1] += 1 + bias
        s = [kind, int(out), act or r.choice(ACTS), int(bias), int(r.random() < .4), repr(r.choice([.02, .1, .3, 1e-3, 0.123456789, 1.5e-8])),
             int(trains and r.random() < .15), int(r.random() < .3), repr(r.choice([5.0, .5, .01, .0123456789])), r.choice([32, 32, 32, 16, 8]), int(trains and r.random() < .3)]
        vs.append(s + extra)
        shapes.append(shape)
        if out:
            outs.append(shape)
        return len(vs)

    def head():
        k = r.choice(["in", "in", "in", "inconv", "inflat"])
        only = r.random() < .08
        if k == "in":
            s = r.choice([(1, 1, 1), (1, 2, 1), (1, 3, 1), (2, 2, 1), (3, 2, 1)])
            n = r.choice([1, 2, 3])
            heads.append(s)
            return style("in", only, [*s, n], (1, n, 1), s[0] * s[1] * s[2] * n), only
        if k == "inconv":
            s = r.choice([(3, 3, 1), (4, 3, 1), (4, 4, 2)])
            f, kk = r.choice([1, 2, 3]), r.choice([1, 2])
            heads.append(s)
            return style("inconv", only, [*s, f, kk], (s[0] - kk + 1, s[1] - kk + 1, f), kk * kk * s[2] * f), only
        s = r.choice([(2, 2, 1), (1, 3, 1), (2, 3, 2)])
        heads.append(s)
        return style("inflat", False, [*s], (1, s[0] * s[1] * s[2], 1), 0), False

    open_ = []
    used = set()
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        v, o = head()
        if not o:
            open_.append(v)
    for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
        if not open_:
            break
        x = r.random()
        if x < .12 and len(heads) < 3:
            v, o = head()
            if not o:
                open_.append(v)
            continue
        flat = [v for v in open_ if shapes[v - 1][0] == 1 and shapes[v - 1][2] == 1]
        if x < .4 and len(flat) >= 1:
            ps = [r.choice(flat) for _ in range(r.choice([2, 2, 3]))]
            if len(set(ps)) > 1 or r.random() < .5:
                v = style("cat", False, [len(ps)] + ps, (1, sum(shapes[p - 1][1] for p in ps), 1), 0)
                used.update(ps)
                open_.append(v)
                continue
        p = r.choice(open_)
        s = shapes[p - 1]
        used.add(p)
        y = r.random()
        if y < .15:
            v = style("drop", False, [p, repr(r.choice([.5, .25, .8]))], s, 0)
        elif y < .25:
            v = style("norm", False, [p], s, 0)
        elif y < .45 and s[0] > 1 and s[1] > 1:
            f = r.choice([1, 2])
            v = style("conv", False, [p, f, 2], (s[0] - 1, s[1] - 1, f), 4 * s[2] * f)
        else:
            n = r.choice([1, 2, 3, 4])
            v = style("full", False, [p, n], (1, n, 1), s[0] * s[1] * s[2] * n)
        open_.append(v)
    for v in open_:
        if v not in used:
            s = shapes[v - 1]
            for _ in range(r.choice([1, 1, 1, 2])):
                n = r.choice([1, 2, 3])
                style("full", True, [v, n], (1, n, 1), s[0] * s[1] * s[2] * n)
    if not outs:
        return program(r)
    return vs, heads, outs, params


def ops(r, big):
    out = [["build", 1]]
    have, models, labels = [1], ["net"], ["a"]
    tr = lambda i: ["train", i, r.choice([1, 2]), r.choice(["last", "best"])]
    # the plain story: save, load, and both go on in the same way
    x = r.random()
    if x < .5:
        if r.random() < .7:
            out.append(tr(1))
        out += [["save", 1, r.choice([0, 1])], ["load", 2, "net"], ["build", 3], ["restore", 3, "default"]]
        t = tr(2)
        out += [t, [t[0], 3] + t[2:]]
        have = [1, 2, 3]
    for _ in range(r.randint(2, 12 if big else 8)):
        i = r.choice(have)
        k = r.choice(["train", "train", "save", "saveas", "keep", "keep", "restore", "restore", "load", "load", "forget", "build"])
        lab = lambda: r.choice(["a", "a", "b", "default", "@label"])
        if k == "build":
            i = r.choice([1, 2, 3])
            out.append(["build", i])
        elif k == "train":
            out.append(tr(i))
        elif k == "save":
            out.append(["save", i, r.choice([0, 1])])
        elif k == "saveas":
            out.append(["saveas", i, r.choice(["net", "other", "other"]), r.choice([0, 1])])
        elif k == "keep":
            out.append(["keep", i, r.choice(["a", "a", "b", "default"]), r.choice([0, 1])])
        elif k == "restore":
            out.append(["restore", i, lab()])
        elif k == "forget":
            out.append(["forget", i, lab()])
        else:
            i = r.choice([1, 2, 3])
            out.append(["load", i, r.choice(["net", "net", "other", "@model"])])
            if i not in have:
                out = out[:-1] + [["build", i]] + out[-1:]
        if i not in have:
            have.append(i)
    return out


def gen(r, n, big):
    cases = []
    for q in range(n):
        vs, hs, os, (params, trainable) = program(r)
        o = ops(r, big)
        lr = r.choice(["0.005", "0.01", "1e-7", "0.0123456789"])
        if r.random() < .1:  # a tiny rate that matters because the weights are pulled to zero with great strength
            lr = "1.27e-15"
            for v in vs:
                v[4], v[5] = int(v[0] in ("in", "inconv", "full", "conv")), "1e15"
        loss = r.choice(["mse", "mse", "mae", "smae"])
        cmd = ["model", r.choice(["sgd", "sgdm", "adam"]), lr, r.choice(["0.001", "3e-8", "0.02"]), loss, len(vs)]
        for v in vs:
            cmd += v
        cmd += [len(hs)] + [x for s in hs for x in s] + [len(o)] + [x for y in o for x in y]
        cases.append(dict(name="model-%d" % q, cmd=" ".join(map(str, cmd)), spec=dict(outs=len(os), params=params, trainable=trainable)))
    return cases


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 74)
    mc, cov = model_check(sc, "MC_ModelStore.tla", "MC_ModelStore.cfg", ["DoBuild", "DoTrain", "DoSave", "DoKeep", "DoRestore", "DoForget", "DoLoad"])
    rep.add_mc(mc, "MC_ModelStore.tla", cov)
    exe = compile_driver(sc, "model")
    tr = conform(rep, sc, exe, "T_N04.tla", "T_N04.cfg", gen(r, 300 if tier == "quick" else 4000, tier != "quick"), group=400)
    n = [0]

    def mut(t):
        n[0] += 1
        seen = {}
        for k, e in enumerate(t["ev"]):
            if n[0] % 2 == 0 and e["e"] == "restore" and not e["threw"] and len(e["y"]) == 4:
                e["y"][1] += 1
                return t
            if n[0] % 2 == 1 and e["e"] in ("keep", "save") and len(e["disk"]) > 2:
                del e["disk"][0]
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_N04.tla", "T_N04.cfg", tr, mut, want=15)
