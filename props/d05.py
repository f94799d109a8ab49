"""D05: number columns, their statistics, and reopening under other columns"""
import os, random
from vlib.core import *
from props.dsgen import *


def gen(r, n):
    out = []
    for i in range(n):
        ds, w = layout(r, 5)
        if not any(d["type"] == "number" for d in ds):
            continue
        labels = r.sample(LABELS[:12], 3)
        ops = []
        k = r.choice([1, 2, 2, 3])
        for j in range(k):
            again = None
            if j == 1 and r.random() < .4:
                # the same ranges with other means: the same rows and mixtures of them
                again = [list(x) for x in rows[:6]]
                for _ in range(r.choice([1, 2])):
                    again.append([r.choice(rows)[c] for c in range(w)])
                # keep the sums within the specification's integers
                most = 0
                for d in ds:
                    if d["type"] == "number":
                        big = max([1] + [abs(float(x[d["start"] + k] or 0)) for x in again for k in range(width(d))])
                        most = max(most, big * width(d) * len(again))
                if most > 300:
                    again = None
            op, rows, hdr, loc = source(r, ds, w, r.choice([2, 2, 3, 4, 5, 6]), "s%d" % j, labels=labels, rows=again)
            if len(ds) == 1 and all(not x[ds[0]["start"]] for x in rows):
                break
            ops += [op, create_cmd("d%d" % j, loc, hdr, ds)]
        else:
            if k > 1:
                ops.append("reopen d0 d1")
            for _ in range(2 if k > 1 else 1):
                ops.append("reopen d%d d%d" % (r.randrange(k), r.randrange(k)))
            ops.append("show d0")
            out.append(dict(name="d05-%d" % i, cmd=" ".join(ops)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 5)
    exe = compile_driver(sc, "ds")
    tr = conform(rep, sc, exe, "T_D05.tla", "T_D05.cfg", gen(r, 300 if tier == "quick" else 5000))

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "show":
                for m in e["st"]["given"]:
                    if m["purpose"] == "N" and m["std"]:
                        m["mean"] += 300
                        return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_D05.tla", "T_D05.cfg", tr, mut, want=5)
