"""D07: ad hoc values against stored ones"""
import os, random
from vlib.core import *
from props.dsgen import *


def gen(r, n):
    out = []
    for i in range(n):
        ds, w = layout(r, 4)
        op, rows, hdr, loc = source(r, ds, w, r.choice([2, 3, 4, 5]), "s")
        if len(ds) == 1 and width(ds[0]) == 1:
            if all(not x[ds[0]["start"]] for x in rows):
                continue
        ops = [op, create_cmd("d", loc, hdr, ds)]
        g = sorted([d for d in ds if d["use"] == "given"], key=lambda d: d["start"])
        for c, d in enumerate(g):
            for row in rows:
                ws = [x.strip() for x in row[d["start"]:d["start"] + width(d)]]
                if d["type"] != "label":
                    ws = [x or "0" for x in ws]
                    kinds = [r.choice("sn") if "." in x else r.choice("sni") for x in ws]
                else:
                    kinds = ["s" if not x.isdigit() else r.choice("sni") for x in ws]
                m = r.random()
                if m < .12:
                    ws, kinds = ws[:-1], kinds[:-1]
                elif m < .24:
                    q = r.randrange(len(ws))
                    ws[q], kinds[q] = r.choice(["abc", "zzz", "never seen"]), "s"
                elif m < .34 and d["type"] != "label":
                    q = r.randrange(len(ws))
                    ws[q] = str(r.randint(0, 40))
                    kinds[q] = "n"
                ops.append("encode d %d %d %s" % (c, len(ws), " ".join("%s %s" % (k, hx(x)) for k, x in zip(kinds, ws))))
        out.append(dict(name="d07-%d" % i, cmd=" ".join(ops)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 7)
    exe = compile_driver(sc, "ds")
    tr = conform(rep, sc, exe, "T_D07.tla", "T_D07.cfg", gen(r, 250 if tier == "quick" else 4000))

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "encode" and e["ok"]:
                e["cell"][0] += 1000
                e["vals"][0] += 1000
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_D07.tla", "T_D07.cfg", tr, mut, want=5)
