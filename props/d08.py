"""D08: printing a dataset"""
import os, random
from vlib.core import *
from props.dsgen import *
PL = [x for x in LABELS if "\n" not in x and "|" not in x]


def gen(r, n):
    out = []
    for i in range(n):
        ds, w = layout(r, 4)
        op, rows, hdr, loc = source(r, ds, w, r.choice([1, 2, 3, 4, 6]), "s", labels=r.sample(PL, 3))
        if len(ds) == 1 and width(ds[0]) == 1:
            if all(not x[ds[0]["start"]] for x in rows):
                continue
        ops = [op, create_cmd("d", loc, hdr, ds)]
        for _ in range(3):
            ops.append("print d %d %d" % (r.random() < .4, r.choice([-1, -1, 0, 1, 2, 3, 5, 100])))
        ops.append("show d")
        out.append(dict(name="d08-%d" % i, cmd=" ".join(ops)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 8)
    exe = compile_driver(sc, "ds")
    tr = conform(rep, sc, exe, "T_D08.tla", "T_D08.cfg", gen(r, 250 if tier == "quick" else 4000))

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "print" and len(e["lines"]) > 2:
                e["lines"].pop()
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_D08.tla", "T_D08.cfg", tr, mut, want=5)
