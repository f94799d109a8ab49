"""L02: the parser"""
import random
from vlib.core import *
from props.langgen import *


def gen(r, n):
    out = []
    for i in range(n):
        st, t = script(r)
        ts = [t] + [mutate(r, st) for _ in range(5)]
        if i % 10 == 0:      # every truncation of one statement
            s = statement(r)
            ts = [join(r, s[:k]) for k in range(len(s) + 1)]
        out.append(dict(name="l02-%d" % i, cmd="parse " + " ".join(hx(x) for x in ts)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 12)
    exe = compile_driver(sc, "lang")
    tr = conform(rep, sc, exe, "T_L02.tla", "T_L02.cfg", gen(r, 350 if tier == "quick" else 6000), group=1500)

    def mut(t):
        for e in t["ev"]:
            if e["ok"] and len(e["stmts"]) > 1:
                e["stmts"].pop()
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_L02.tla", "T_L02.cfg", tr, mut, want=5)
