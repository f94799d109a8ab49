"""D04: binary dataset files"""
import random, struct
from vlib.core import *


def b(f):
    return struct.pack(">f", f).hex()


def q(f):
    return struct.unpack(">f", struct.pack(">f", f))[0]


SPECIAL = [0.0, 1.0, -1.0, 0.5, 1e-20, 2e-20, 3e-30, -1e-16, 1.5e-16, 3.4e38, -3.4e38, 1e10, 16777217.0, 16777216.0, 0.1,
           0.1000001, 123456.789, -0.25, 1e-45, 255.0]


def meta(r, purpose=None, small=False):
    p = purpose or r.choice("NNLIT" if not small else "NL")
    d = [r.choice([1, 1, 2, 3]) for _ in range(2)] + [r.choice([1, 1, 1, 2, 3])]
    if p == "L":
        d = [1, r.choice([1, 2, 3, 5]), 1]
    std, norm = r.randint(0, 1), r.randint(0, 1)
    m = dict(p=p, d=d, src=r.choice([1, 2, 7, 1000]), std=std, norm=norm,
             mean=r.choice(SPECIAL), sd=r.choice(SPECIAL), mn=r.choice(SPECIAL), mx=r.choice(SPECIAL))
    pool = ["", "a", "label with spaces", "x" * 300, "caf\xe9", "\x00nul\x00", "a,b\"c\n", "0", ":", "<_<"]
    m["name"] = r.choice(pool)
    m["labels"] = [r.choice(pool) + str(i) for i in range(d[1])] if p == "L" else ([] if r.random() < .8 else ["spare", ""])
    return m


def mtok(ms):
    t = [str(len(ms))]
    for m in ms:
        t += [m["p"], *map(str, m["d"]), str(m["src"]), str(m["std"]), b(m["mean"]), b(m["sd"]), str(m["norm"]), b(m["mn"]),
              b(m["mx"]), hx(m["name"]), str(len(m["labels"])), *[hx(x) for x in m["labels"]]]
    return t


def cell(r, m, narrow):
    n = m["d"][0] * m["d"][1] * m["d"][2]
    if m["p"] == "L":
        k = r.randrange(n)
        return [1.0 if i == k else 0.0 for i in range(n)]
    if m["p"] == "I":
        return [q(r.choice([0, 1, 127, 128, 254, 255, r.randrange(256)]) / 255.0) for _ in range(n)]
    if narrow:
        return [r.choice(narrow) for _ in range(n)]
    return [r.choice(SPECIAL) if r.random() < .5 else q(r.uniform(-1000, 1000)) for _ in range(n)]


def case(r, i, gs, xs, cap, nrows, narrow, reads):
    t = mtok(gs) + mtok(xs) + [str(cap), str(nrows)]
    prev = []
    for _ in range(nrows):
        if prev and r.random() < .35:
            g = r.choice(prev)
        else:
            g = [cell(r, m, narrow) for m in gs]
            if prev and r.random() < .4:      # differs from an earlier row in one column, or has two columns swapped
                g = [list(x) for x in r.choice(prev)]
                j = r.randrange(len(g))
                g[j] = cell(r, gs[j], narrow)
        prev.append(g)
        for x in g:
            t += [b(v) for v in x]
        for m in xs:
            t += [b(v) for v in cell(r, m, narrow)]
    rd = []
    for _ in range(reads):
        rd.append(r.randrange(nrows + 3))
    rd += list(range(nrows)) + [nrows, nrows + 1, 2**31 - 1]
    t += [str(len(rd)), *map(str, rd)]
    return dict(name="d04-%d" % i, cmd=" ".join(t))


def gen(r, n):
    out = []
    for i in range(n):
        k = r.random()
        gs = [meta(r) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        xs = [meta(r) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        cap = r.choice([0, 100000, 100000, 100000, 1, 2, 3, 4])
        narrow = r.choice([None, [0.0, 1.0], [1e-20, 2e-20, 0.0], [1.0, 2.0, 3.0]])
        out.append(case(r, i, gs, xs, cap, r.choice([0, 1, 2, 5, 12, 25]), narrow, r.choice([0, 3, 10])))
    # many rows of one scalar column: dedup over a longer history
    for j in range(3):
        gs, xs = [meta(r, "N", True)], [meta(r, "L")]
        gs[0]["d"] = [1, 1, 1]
        out.append(case(r, n + j, gs, xs, [100000, 0, 8][j], 120, [float(x) for x in range(40)], 20))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 4)
    mc, cov = model_check(sc, "MC_BinaryFile.tla", "MC_BinaryFile.cfg", ["Open", "DoWrite", "Reopen", "Read", "Finish"])
    rep.add_mc(mc, "MC_BinaryFile", cov)
    exe = compile_driver(sc, "d04")
    cases = gen(r, 150 if tier == "quick" else 1500)
    tr = conform(rep, sc, exe, "T_D04.tla", "T_D04.cfg", cases)

    def mut(t):
        ix = [i for i, e in enumerate(t["ev"]) if e["e"] == "read" and e["ok"] and e["g"]]
        if not ix:
            return None
        t["ev"][r.choice(ix)]["g"][0][-1] ^= 1
        return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_D04.tla", "T_D04.cfg", tr, mut, want=5)
    rep.assumptions += ["tensor element access (getValue) of plain storage tensors is checked under T01"]
