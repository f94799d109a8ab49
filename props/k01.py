"""K01: tasks - creating them and executing them on datasets and inputs"""
import os, random
from vlib.core import *

POOL = ["a", "b", "c", "red", "two words", "7up", "10", "yes", "No", "z-9"]
NAMES = ["age", "Kind", "x", "x_1", "Long Name", "y2", "Zed"]


def num(r):
    u = r.randint(-40, 40)
    return ("-" if u < 0 else "") + str(abs(u) // 2) + (".5" if u % 2 else "")


def cols(r, ng=None, nx=None):
    """columns of a dataset in source order: (use, type, name, label pool)"""
    ng = ng or r.choice([1, 2, 2, 3])
    nx = nx or r.choice([1, 1, 1, 2])
    names = r.sample(NAMES, ng + nx)
    cs = [(u, r.choice(["number", "label"]) if u == "given" else r.choice(["label", "label", "number"]), n, r.sample(POOL, r.randint(2, 4)))
          for u, n in zip(["given"] * ng + ["expected"] * nx, names)]
    r.shuffle(cs)
    return cs


def rows(r, cs, n, pools=True):
    out = []
    for i in range(n):
        row = []
        for u, t, name, pool in cs:
            row.append(pool[i % len(pool)] if t == "label" and i < len(pool) and pools else r.choice(pool) if t == "label" else num(r))
        out.append(row)
    r.shuffle(out)
    return out


def data(name, cs, rs):
    text = "".join(",".join(row) + "\n" for row in rs)
    return "data %s 0 %d %s %s" % (name, len(cs), " ".join("%s %s %s %d" % (u, t, hx(n), i) for i, (u, t, n, p) in enumerate(cs)), hx(text))


def nouts(cs, rs):
    """how many inputs and outputs the dataset has; labels are those of its rows"""
    ins, outs = 0, []
    for i, (u, t, n, p) in enumerate(cs):
        k = len({row[i] for row in rs}) if t == "label" else 1
        if u == "given":
            ins += k
        else:
            outs.append(k)
    return ins, outs


def variant(r, cs):
    """another declaration of columns, which may or may not fit a task trained with cs"""
    cs = list(cs)
    k = r.choice(["same"] * 5 + ["case", "fewer labels", "other labels", "more labels", "renamed", "type", "extra", "missing", "swapped", "no expected", "expected"])
    g = [i for i, c in enumerate(cs) if c[0] == "given"]
    i = r.choice(g)
    u, t, n, p = cs[i]
    if k == "case":
        cs[i] = (u, t, n.swapcase(), p)
    elif k == "fewer labels":
        cs = [(u, t, n, p[-1:] if u == "given" else p) for u, t, n, p in cs]
    elif k == "other labels":
        cs[i] = (u, t, n, ["quite other"])
    elif k == "more labels":
        cs[i] = (u, t, n, p + ["one more"])
    elif k == "renamed":
        cs[i] = (u, t, n + "q", p)
    elif k == "type":
        cs[i] = (u, "label" if t == "number" else "number", n, p)
    elif k == "extra":
        cs.insert(r.randint(0, len(cs)), ("given", "number", "extra", p))
    elif k == "missing" and len(g) > 1:
        del cs[i]
    elif k == "swapped" and len(g) > 1:
        j = r.choice([j for j in g if j != i])
        cs[i], cs[j] = cs[j], cs[i]
    elif k == "no expected":
        cs = [c for c in cs if c[0] == "given"]
    elif k == "expected":
        cs = [c if c[0] == "given" else (c[0], r.choice(["label", "number"]), c[2] + "v", r.sample(POOL, 3)) for c in cs]
    return cs


def given_inputs(r, cs, rs):
    row = r.choice(rs)
    ins = []
    for i, (u, t, n, p) in enumerate(cs):
        if u != "given":
            continue
        k = r.random()
        if k < .06:
            continue
        v = row[i] if t == "label" or k < .5 else num(r)
        if t == "label" and k > .94:
            v = "unheard of"
        ins.append((n.lower(), [("s" if t == "label" else "n", v)]))
    if r.random() < .15:
        ins.append(("something", [("n", "1")]))
    r.shuffle(ins)
    return ins


def execute(t, ds="-", ins=()):
    return "exec %s %s %d %s" % (t, ds, len(ins), " ".join("%s %d %s" % (hx(k), len(vs), " ".join("%s %s" % (kind, hx(v)) for kind, v in vs)) for k, vs in ins))


def planted(r, i):
    ops, sets = [], {}
    cs = cols(r)
    rs = unique_givens(cs, rows(r, cs, r.randint(4, 7)))
    sets["d0"] = (cs, rs)
    for k in range(1, r.randint(2, 4)):
        c2 = variant(r, cs)
        sets["d%d" % k] = (c2, unique_givens(c2, rows(r, c2, r.randint(1, 5), r.random() < .5)))
    for n, (c, q) in sets.items():
        ops.append(data(n, c, q))
    tasks = {}
    for k in range(r.choice([1, 1, 2])):
        d = "d0" if k == 0 else r.choice(list(sets))
        if not any(c[0] == "expected" for c in sets[d][0]):
            continue
        tasks["t%d" % k] = d
        ops.append(("plant", "t%d" % k, d))
    steps = []
    for _ in range(r.randint(4, 9)):
        t = r.choice(list(tasks) * 8 + ["nope"])
        k = r.random()
        if k < .5:
            steps.append(execute(t, r.choice(list(sets) * 6 + ["missing"])))
        elif k < .93:
            c, q = sets[tasks.get(t, "d0")]
            ins = given_inputs(r, c, q)
            if ins:
                steps.append(execute(t, "-", ins))
        elif k < .97 and t != "nope":
            steps.append("damage %s %s" % (t, r.choice(["meta", "config", "knowledge"])))
        elif t != "nope":
            # the name is taken, or the dataset is missing
            steps.append("task label %s speed %s -" % (t, "missing"))
    return dict(name="k01-plant-%d" % i, ops=ops, sets=sets, steps=steps)


def plant_cmd(r, t, d, sets):
    cs, rs = sets[d]
    ins, outs = nouts(cs, rs)
    n = ins * sum(outs)
    return "plant %s %s %s" % (t, d, " ".join(str(r.choice([-3, -2, -1, 0, 1, 1, 2, 3])) for _ in range(n)))


def flat(r, case):
    cmd = [o if isinstance(o, str) else plant_cmd(r, o[1], o[2], case["sets"]) for o in case["ops"]] + case["steps"]
    return dict(name=case["name"], cmd=" ".join(cmd))


def unique_givens(cs, rs):
    seen, out = set(), []
    for row in rs:
        k = tuple(row[i] for i, c in enumerate(cs) if c[0] == "given")
        if k not in seen:
            seen.add(k)
            out.append(row)
    return out


def created(r, i, hard):
    """tasks made by the statement itself"""
    cs = cols(r, nx=1)
    cs = [(u, "label" if u == "expected" else t, n, p) for u, t, n, p in cs]
    x = [k for k, c in enumerate(cs) if c[0] == "expected"][0]
    rs = rows(r, cs, 16, False)
    if not hard:
        for row in rs:          # nearly every record has the same label
            row[x] = cs[x][3][0]
        rs[0][x] = cs[x][3][1]
    rs = unique_givens(cs, rs)
    c2 = variant(r, cs)
    sets = {"d0": (cs, rs), "d1": (c2, rows(r, c2, 4)), "d2": (cs, rs[:max(4, len(rs) // 2)])}
    ops = [data(n, c, q) for n, (c, q) in sets.items()]
    goal = "speed" if hard else r.choice(["speed", "speed", "speed", "accuracy"])
    test = r.choice(["-", "-", "d2", "missing", "d1"]) if not hard else "-"
    if hard:
        test = r.choice(["-", "d2"])
    ops.append("task %s t0 %s d0 %s" % (r.choice(["label"] * 9 + ["other"]), goal, test))
    ops.append(execute("t0", "d0"))
    if not hard:
        ops.append("task label t0 speed %s -" % r.choice(["d0", "d1"] if any(c[0] == "expected" for c in c2) else ["d0"]))
        if r.random() < .4:
            ops.append("damage t0 " + r.choice(["meta", "config"]))
            ops.append(execute("t0", "d0"))
            ops.append("task label t0 speed d0 -")
        ops += [execute("t0", "d1"), execute("t0", "d0"), execute("t0", "-", given_inputs(r, cs, rs) or [("none", [("n", "1")])])]
        ops.append("task label t1 speed %s %s" % (r.choice(["missing", "d0"]), "missing"))
    return dict(name="k01-create-%s%d" % ("hard-" if hard else "", i), cmd=" ".join(ops))


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 11)
    mc, cov = model_check(sc, "MC_Task.tla", "MC_Task.cfg", ["Create", "Plant", "Exec", "Harm"])
    rep.add_mc(mc, "MC_Task.tla", cov)
    exe = compile_driver(sc, "task", opt="-O2")
    sc.in_memory()
    n, m, h = (300, 8, 2) if tier == "quick" else (6000, 120, 24)
    hard = [created(r, i, True) for i in range(h)]
    cases = [flat(r, planted(r, i)) for i in range(n)] + [created(r, i, False) for i in range(m)]
    tr = conform(rep, sc, exe, "T_K01.tla", "T_K01.cfg", hard + cases, case_timeout=200)

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "exec" and e["ok"] and len(e["lines"]) > 2:
                e["lines"].pop()
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_K01.tla", "T_K01.cfg", tr, mut, want=5)
