"""L03: sessions"""
import random
from vlib.core import *
from props.langgen import case

HELP = {"": "help", "dataset": "help dataset", "datasets": "help dataset", "task": "help task", "tasks": "help task", "future": "help future"}


def stmt(r):
    c = lambda s: " ".join(case(r, w) if w.isalpha() else w for w in s.split())
    k = r.choice(["help", "help", "print", "print", "print", "print", "exit", "nods", "nofile", "noprint", "exists"])
    if k == "help":
        t = r.choice(list(HELP))
        return c("help " + t).strip(), dict(m=HELP[t], r="ok")
    if k == "print":
        d = r.randrange(3)
        return c("print " + r.choice(["raw", "pretty"])) + " d%d" % d + r.choice(["", " limit 1"]), dict(m="print d%d" % d, r="ok")
    if k == "exit":
        return c("exit"), dict(m="exit", r="exit")
    if k == "nods":
        return "create task label t using missing", dict(m="no dataset", r="fail")
    if k == "nofile":
        return "create dataset n with given number x at 0 using file://missing.csv", dict(m="no file", r="fail")
    if k == "noprint":
        return "print raw missing", dict(m="no print", r="fail")
    return "create dataset d1 with given number x at 0 using file://missing.csv", dict(m="exists", r="ok")


def block(r, sep):
    n = r.choice([0, 1, 1, 2, 3, 4])
    ss = [stmt(r) for _ in range(n)]
    text = sep.join(s[0] for s in ss)
    if r.random() < .2:
        bad = r.choice(["print", ")", "create dataset", "print raw d1 limit", "execute task x using", ";", "create task label x with goal speed"])
        k = r.randint(0, n)
        text = sep.join([s[0] for s in ss[:k]] + [bad] + [s[0] for s in ss[k:]]) if r.random() < .6 else sep.join([s[0] for s in ss] + [bad])
        return text, dict(parses=False, stmts=[])
    return text, dict(parses=True, stmts=[s[1] for s in ss])


def tree(r, depth):
    if depth == 0 or r.random() < .6:
        o = r.choice("oooooofxt")
        return o, dict(leaf=True, r={"o": "ok", "f": "fail", "x": "exit", "t": "throw"}[o], sub=[])
    ks = [tree(r, depth - 1) for _ in range(r.randint(0, 4))]
    return "(" + "".join(k[0] for k in ks) + ")", dict(leaf=False, r="ok", sub=[k[1] for k in ks])


def gen(r, n):
    out = []
    for i in range(n):
        ops, cmd = [], ["session"]
        if i % 3 == 0:
            cmd = ["block"]
            for _ in range(12):
                ks = [tree(r, 2) for _ in range(r.randint(0, 5))]
                cmd.append(hx("(" + "".join(k[0] for k in ks) + ")"))
                ops.append(dict(how="block", tree=[k[1] for k in ks], blocks=[]))
        else:
            for _ in range(r.randint(1, 5)):
                how = r.choice(["run", "run", "file", "cli", "nofile"])
                if how == "nofile":
                    t, bs = r.choice(["gone.happyml", "nowhere/x.happyml"]), []
                elif how == "cli":
                    pairs = [block(r, r.choice([" ", " \\\n", "\\\n", " # c \\\n", "\\\n#\\\n"])) for _ in range(r.randint(0, 5))]
                    lines = []
                    for p in pairs:
                        lines.append(p[0])
                        if r.random() < .3:
                            lines.append(r.choice(["", "   ", "# remark"]))
                    t = "".join(x + "\n" for x in lines)
                    bs = [p[1] for p in pairs]
                else:
                    t, b = block(r, r.choice(["\n", " ", "\n\n", " # c\n"]))
                    bs = [b]
                cmd.append("%s %s" % (how, hx(t)))
                ops.append(dict(how=how, tree=[], blocks=bs))
        out.append(dict(name="l03-%d" % i, cmd=" ".join(cmd), spec=dict(ops=ops)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 13)
    mc, cov = model_check(sc, "MC_Session.tla", "MC_Session.cfg", ["Enter", "Execute", "Leave", "Finish"])
    rep.add_mc(mc, "MC_Session.tla", cov)
    exe = compile_driver(sc, "lang")
    tr = conform(rep, sc, exe, "T_L03.tla", "T_L03.cfg", gen(r, 300 if tier == "quick" else 6000))

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "block" and len(e["log"]) > 1:
                e["log"].pop()
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_L03.tla", "T_L03.cfg", tr, mut, want=5)
