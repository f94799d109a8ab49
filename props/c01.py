"""C01: processes that end before any of their effects on files"""
import random
from vlib.core import *
from props.dsgen import *
from props import n04


def data(r, i):
    ds, w = layout(r)
    order = list(ds)
    r.shuffle(order)
    op, rows, hdr, loc = source(r, ds, w, r.choice([1, 2, 3, 5, 9]), r.choice(["src", "in/src", "../raw/s", "my.data"]))
    if len(ds) == 1 and width(ds[0]) == 1 and all(not x[ds[0]["start"]] for x in rows):
        return None
    files = [op.split()[1:]]
    if r.random() < .5:
        files.append(["other.csv", hx("a,b\n1,2\n")])
    cmd = "crash data %d %s %s" % (len(files), " ".join("%s %s" % (f[0], f[1]) for f in files), " ".join(create_cmd("d", loc, hdr, order).split()[1:]))
    return dict(name="c01-data-%d" % i, cmd=cmd, spec=dict(kind="data", decls=jdecl(order), src=jsrc(rows)))


def model(r, i):
    what = r.choice(["save", "save", "saveas", "keep", "bpe"])
    vs, hs, _, _ = n04.program(r)
    cmd = ["crash", "model", what, int(r.random() < .7), int(r.random() < .75), "sgd", "0.01", "0.01", "mse", len(vs)]
    for v in vs:
        cmd += v
    cmd += [len(hs)] + [x for s in hs for x in s]
    return dict(name="c01-%s-%d" % (what, i), spec=dict(kind="model"), cmd=" ".join(map(str, cmd)))


def task(r, i):
    return dict(name="c01-task-%d" % i, spec=dict(kind="task"),
                cmd="crash task %s %d 2 0" % (r.choice(["speed", "speed", "accuracy"]), r.choice([4, 5, 6, 7, 8])))


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 19)
    mc, cov = model_check(sc, "MC_CrashPoint.tla", "MC_CrashPoint.cfg",
                          ["Recover", "Begin", "ClearPrevious", "ClearSaving", "Start", "Write", "MoveAway", "MoveIn", "Clean", "Remove", "Removing", "Crash"])
    rep.add_mc(mc, "MC_CrashPoint.tla", cov)
    mc, cov = model_check(sc, "Pipeline.tla", "MC_Pipeline.cfg", ["Crash", "Publish"])
    rep.add_mc(mc, "Pipeline.tla", cov)
    exe = compile_driver(sc, "crash", extra=("-ldl",))
    sc.in_memory()
    n = 24 if tier == "quick" else 300
    cases = [x for x in (data(r, i) for i in range(n)) if x] + [model(r, i) for i in range(n)] + [task(r, i) for i in range(n // 4)]
    tr = conform(rep, sc, exe, "T_C01.tla", "T_C01.cfg", cases, case_timeout=90)
    rep.extra["crash_points"] = sum(e["e"] == "crash" for t in tr for e in t["ev"])

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "again" and t["kind"] == "model":
                e["found"]["loaded"] = False
                return t
            if e["e"] == "again" and t["kind"] == "task":
                e["found"]["lines"] += 1
                return t
            if e["e"] == "again":
                e["found"]["changed"] = [[120]]
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_C01.tla", "T_C01.cfg", tr[::-1] if seed % 2 else tr, mut, want=20)
