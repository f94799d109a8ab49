"""L01: the lexer"""
import random
from vlib.core import *
from props.langgen import *


def gen(r, n):
    out = []
    for i in range(n):
        ts = []
        for _ in range(6):
            k = r.random()
            t = anytext(r) if k < .7 else script(r, r.randint(1, 2))[1] if k < .85 else mutate(r, script(r, 1)[0])
            ts.append(t[:250])
        out.append(dict(name="l01-%d" % i, cmd="lex " + " ".join("%s %s" % (hx(t), hx(r.choice(["cli", "unknown", "my file"]))) for t in ts)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 11)
    mc, cov = model_check(sc, "MC_Lexer.tla", "MC_Lexer.cfg", ["Take", "Fail"])
    rep.add_mc(mc, "MC_Lexer.tla", cov)
    exe = compile_driver(sc, "lang")
    tr = conform(rep, sc, exe, "T_L01.tla", "T_L01.cfg", gen(r, 300 if tier == "quick" else 6000), group=1500)

    def mut(t):
        for e in t["ev"]:
            if e["ok"] and len(e["toks"]) > 1:
                e["toks"][-1]["off"] += 1
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_L01.tla", "T_L01.cfg", tr, mut, want=5)
