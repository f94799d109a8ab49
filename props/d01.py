"""D01: create dataset from delimited text"""
import random
from vlib.core import *
from props.dsgen import *


def gen(r, n):
    out = []
    for i in range(n):
        ops, cr = [], []
        k = r.choice([1, 1, 1, 2, 3])
        made = []
        for j in range(k):
            nm = "d%d" % j if (not made or r.random() < .75) else r.choice(made)
            ds, w = layout(r)
            order = list(ds)
            r.shuffle(order)
            rows_n = r.choice([1, 1, 2, 3, 4, 5, 6])
            path = r.choice(["src%d" % j, "in/src%d" % j, "../raw/s%d" % j, "my.data%d" % j])
            op, rows, hdr, loc = source(r, ds, w, rows_n, path)
            if len(ds) == 1 and width(ds[0]) == 1 and all(not x[ds[0]["start"]] for x in rows):
                continue
            src = jsrc(rows)
            mode = r.choice(["ok"] * 6 + ["bad"] * 3)
            pre = [op]
            if mode == "bad":
                b = r.choice(["overlap", "overlap", "overlap1", "nogiven", "ext", "scheme", "missing", "empty", "header", "short", "num", "type", "none"])
                if b in ("overlap", "overlap1"):
                    d = r.choice(order)
                    nd = decl(r.choice(["given", "expected"]), r.choice(["label", "number", "image"]), "extra", 0)
                    if nd["type"] != "label":
                        nd["cols"] = r.randint(1, 3)
                    nd["start"] = d["start"] + width(d) - 1 if b == "overlap1" else max(0, d["start"] - r.randint(0, width(nd) - 1))
                    order.append(nd)
                    r.shuffle(order)
                elif b == "nogiven":
                    for d in order:
                        d["use"] = "expected"
                elif b == "none":
                    order = []
                elif b == "ext":
                    loc = "file://" + path + r.choice([".json", ".dat", ".CSVX"])
                    pre.append("file %s %s" % (loc[7:], op.split()[-1]))
                    src["supported"] = False
                elif b == "scheme":
                    loc = loc.replace("file://", r.choice(["http://", "s3://", "File//"]))
                    src["supported"] = False
                elif b == "missing":
                    loc = "file://nothere/" + r.choice(["x.csv", "x.tsv"])
                    src = jsrc([], exists=False)
                elif b == "empty":
                    pre = ["file %s x" % loc[7:]]
                    src = jsrc([])
                elif b == "header":
                    hdr = True
                    pre = ["file %s %s" % (loc[7:], hx("a,b,c\n"))]
                    src = jsrc([])
                elif b == "short":
                    q = r.randrange(len(rows))
                    last = max(d["start"] + width(d) for d in ds)
                    cut = r.randint(1, last - 1) if last > 1 else 1
                    rows[q] = rows[q][:cut]
                    rows[q][-1] = rows[q][-1] or "5"
                    delim = "\t" if loc.endswith("tsv") else ","
                    pre = ["file %s %s" % (loc[7:], hx(text(r, rows, delim, ["h"] * w if hdr else None)))]
                    src = jsrc(rows)
                elif b == "num":
                    nd = [d for d in ds if d["type"] != "label"]
                    if nd:
                        d = r.choice(nd)
                        q = r.randrange(len(rows))
                        rows[q][d["start"] + r.randrange(width(d))] = r.choice(["abc", "x1", "-", "n/a", "7up", "1.5.2", "12 3", "4-", "3,"])
                        delim = "\t" if loc.endswith("tsv") else ","
                        pre = ["file %s %s" % (loc[7:], hx(text(r, rows, delim, ["h"] * w if hdr else None)))]
                        src = jsrc(rows)
                elif b == "type":
                    r.choice(order)["type"] = r.choice(["scalar", "text", "", "Label"]) or "x"
            # a neighbour that a careless conversion would overwrite
            if r.random() < .5:
                base = loc.split("://")[-1].rsplit(".", 1)[0]
                ext = loc.rsplit(".", 1)[-1]
                for x in (".csv", ".tsv", ".txt", ".bak"):
                    if x[1:] != ext and (src["exists"]) and r.random() < .6:
                        pre.append("file %s%s %s" % (base, x, hx("keep,me\n1,2\n")))
            ops += pre
            ops.append(create_cmd(nm, loc, hdr, order))
            cr.append(dict(decls=jdecl(order), src=src))
            if nm not in made:
                made.append(nm)
        out.append(dict(name="d01-%d" % i, cmd=" ".join(ops), creates=cr))
    return out


N = int(os.environ.get("VERIF_N", "350"))


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 1)
    mc, cov = model_check(sc, "Pipeline.tla", "MC_Pipeline.cfg",
                          ["Begin", "Organize", "Sort", "WriteRaw", "Scale", "Publish", "DropRaw", "Crash"])
    rep.add_mc(mc, "Pipeline.tla", cov)
    exe = compile_driver(sc, "ds")
    tr = conform(rep, sc, exe, "T_D01.tla", "T_D01.cfg", gen(r, N if tier == "quick" else 5000), to_trace=enrich)

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "show" and len(e["st"]["rows"]) > 1:
                e["st"]["rows"].pop()
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_D01.tla", "T_D01.cfg", tr, mut, want=5)
