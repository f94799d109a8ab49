"""Sources and declarations for the dataset checks (what happens to them is decided by spec/Dataset.tla)."""
from vlib.core import *

LABELS = ["a", "b", "c", "A", "yes", "no", "x y", "it,em", "q\"t", "1", "2", "10", "two words", "<b>", "a<_b", "#1", "0.5", "", "\xe9", "3 apples", "line\nbreak", "7up"]
NAMES = ["age", "Pclass", "x", "x_1", "long name", "n\"q", "\xe9", ""]


def numtxt(r, lim):
    u = r.randint(-2 * lim, 2 * lim)
    if r.random() < .08:
        return ""
    s = "-" if u < 0 else ""
    w, h = divmod(abs(u), 2)
    f = r.choice(["", ".0", ".00"]) if h == 0 else r.choice([".5", ".50", ".500"])
    return s + str(w) + f


def field(r, t, delim):
    if t == "":
        return r.choice(["", "", '""']) if True else ""
    if any(ch in t for ch in (delim, '"', "\n")) or r.random() < .1:
        return '"' + t.replace('"', '""') + '"'
    # hand-written text in which '<' starts no escape needs nothing; one that would is written escaped
    return t


def esc(t):
    # the reader understands <~D> style escapes: text of that form is not generated here (D02 covers it)
    return t


def text(r, rows, delim, header):
    out = []
    if header is not None:
        out.append(delim.join(field(r, h, delim) for h in header))
    for row in rows:
        out.append(delim.join(field(r, c, delim) for c in row))
    return "".join(x + "\n" for x in out)


def decl(use, typ, name, start, rows=1, cols=1, ch=1):
    return dict(use=use, type=typ, name=name, start=start, rows=rows, cols=cols, ch=ch)


def width(d):
    return d["rows"] * d["cols"] * d["ch"]


def layout(r, maxcols=4, gap=True):
    """declarations over disjoint columns of a source, and the source's width"""
    ds, pos = [], 0
    n = r.randint(1, maxcols)
    for i in range(n):
        if gap and r.random() < .3:
            pos += r.randint(1, 2)
        t = r.choice(["number", "number", "label", "label", "image"])
        if t == "label":
            sh = (1, 1, 1)
        elif t == "image":
            sh = r.choice([(1, 2, 1), (2, 2, 1), (2, 3, 1), (1, 2, 2), (2, 1, 3), (1, 1, 1)])
        else:
            sh = r.choice([(1, 1, 1), (1, 1, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 3, 1), (1, 2, 2)])
        ds.append(decl(r.choice(["given", "given", "expected"]), t, r.choice(NAMES) + r.choice(["", "", str(i)]), pos, *sh))
        pos += width(ds[-1])
    if not any(d["use"] == "given" for d in ds):
        r.choice(ds)["use"] = "given"
    if gap and r.random() < .3:
        pos += 1
    return ds, pos


def rows_for(r, ds, w, n, labels=None):
    elems = max([width(d) for d in ds if d["type"] == "number"] + [1])
    lim = max(2, min(40, 320 // (elems * max(n, 1))))
    pool = labels or r.sample(LABELS, r.randint(1, 4))
    rows = []
    const = {i: numtxt(r, lim) for i, d in enumerate(ds) if d["type"] == "number" and r.random() < .15}
    narrow = r.random() < .3
    for _ in range(n):
        row = [r.choice(["", "junk", "9", "z,z"]) for _ in range(w)]
        for i, d in enumerate(ds):
            for k in range(width(d)):
                if d["type"] == "label":
                    v = r.choice(pool)
                elif d["type"] == "image":
                    v = str(r.choice([0, 1, 127, 128, 254, 255, r.randint(0, 255)]))
                elif i in const:
                    v = const[i]
                else:
                    v = numtxt(r, min(lim, 2) if narrow else lim)
                row[d["start"] + k] = v
        rows.append(row)
    # duplicate whole rows, and rows with the same givens but other expected values
    for _ in range(r.choice([0, 0, 1, 2])):
        if rows and len(rows) < 8:
            a = list(r.choice(rows))
            if r.random() < .5:
                for d in ds:
                    if d["use"] == "expected":
                        b = r.choice(rows)
                        for k in range(width(d)):
                            a[d["start"] + k] = b[d["start"] + k]
            rows.insert(r.randint(0, len(rows)), a)
    return rows[:8]


def create_cmd(name, loc, hdr, ds):
    t = ["create", name, loc, str(int(hdr)), str(len(ds))]
    for d in ds:
        t += [d["use"], d["type"], hx(d["name"]), str(d["start"]), str(d["rows"]), str(d["cols"]), str(d["ch"])]
    return " ".join(t)


def jdecl(ds):
    return [dict(d, name=codes(d["name"])) for d in ds]


def jsrc(rows, exists=True, supported=True):
    return dict(rows=[[codes(c) for c in row] for row in rows], exists=exists, supported=supported)


def source(r, ds, w, n, path, ext=None, labels=None, rows=None):
    """returns (file op, rows, header flag, location)"""
    ext = ext or r.choice(["csv", "csv", "csv", "tsv"])
    rows = rows or rows_for(r, ds, w, n, labels)
    hdr = r.random() < .5
    delim = "," if ext == "csv" else "\t"
    # reversed or shuffled declaration order must not matter
    txt = text(r, rows, delim, ["h%d" % i for i in range(w)] if hdr else None)
    if txt.endswith("\n") and r.random() < .2 and rows and rows[-1][-1] != "":
        txt = txt[:-1]
    p = path + "." + ext
    return "file %s %s" % (p, hx(txt)), rows, hdr, "file://" + p


def enrich(case, t):
    """put what the statement was given next to what it did"""
    if "creates" in case:
        it = iter(case["creates"])
        for e in t["ev"]:
            if e["e"] == "create":
                e.update(next(it))
    return t
