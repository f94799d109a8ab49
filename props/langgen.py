"""Scripts for the language checks.  A script is a list of statements, a statement a list of token texts."""
import random
from vlib.core import hx

KW = ("copy create delete describe execute exit help list move print refine set accuracy dataset datasets future image input label "
      "memory number speed task tasks text at expected given goal header limit pretty raw starting test to using with").split()
WORDS = ["a", "titanic", "my_task", "x1", "Data", "setter", "testing", "t", "helpme", "rawdata", "A_1", "datasetsX", "file", "withal"]
PUNCT = list("()[]=:/.%\\,_")


def case(r, w):
    k = r.random()
    return w if k < .7 else w.upper() if k < .85 else "".join(r.choice([c.lower(), c.upper()]) for c in w)


def name(r):
    return r.choice(WORDS) if r.random() < .9 else r.choice(KW)


def word(r):
    return r.choice(WORDS)


def num(r):
    return str(r.choice([0, 1, 2, 3, 5, 8, 28, 100, 784, r.randint(0, 99999)]))


def string(r):
    q = r.choice("\"'")
    body = "".join(r.choice(["a", "b c", " ", "x", "\\" + q, "\\", "'" if q == '"' else '"', ",", ":", "#", "1", "\n"]) for _ in range(r.randint(0, 5)))
    while body.endswith("\\"):
        body = body[:-1]
    return q + body + q


def value(r):
    k = r.random()
    if k < .35:
        return r.choice(["1", "0.5", "3.25", "12", ".5", "7.", "100", "0"])
    return string(r) if k < .7 else word(r)


def url(r):
    parts = ["data", "test", "raw", "set", "x1", "..", "train_2", "a", "Label", "7", "file", "to"]
    p = "/".join(r.choice(parts) for _ in range(r.randint(1, 4))) + r.choice([".csv", ".tsv", "", ".txt", "_.csv"])
    return [r.choice(["file", "file", "FILE", "http", "https", "s3"]), ":", "/", "/", "\0" + r.choice(["", "", "/", "../"]) + p]


def statement(r, kind=None):
    c = lambda w: case(r, w)
    k = kind or r.choice(["help", "help", "exit", "print", "print", "ds", "ds", "ds", "task", "task", "exd", "exi", "exi"])
    if k == "help":
        return [c("help")] + ([c(r.choice(["dataset", "datasets", "task", "tasks", "future"]))] if r.random() < .5 else [])
    if k == "exit":
        return [c("exit")]
    if k == "print":
        return [c("print"), c(r.choice(["raw", "pretty"])), name(r)] + ([c("limit"), num(r)] if r.random() < .6 else [])
    if k == "ds":
        s = [c("create"), c("dataset"), word(r)]
        for _ in range(r.randint(0, 4)):
            if r.random() < .25:
                s += [c("with"), c("header")]
            else:
                s += [c("with"), c(r.choice(["given", "expected"])), c(r.choice(["label", "number", "text", "image"])), name(r)]
                m = r.random()
                if m < .2:
                    s += ["(", str(r.randint(1, 30)), ")"]
                elif m < .4:
                    s += ["(", str(r.randint(1, 30)), ",", str(r.randint(1, 30)), ")"]
                elif m < .6:
                    s += ["(", str(r.randint(1, 9)), ",", str(r.randint(1, 9)), ",", str(r.randint(1, 4)), ")"]
                s += [c("at"), num(r)]
        return s + [c("using")] + url(r)
    if k == "task":
        s = [c("create"), c("task"), c("label"), name(r)]
        for _ in range(r.randint(0, 3)):
            s += [c("with"), c("goal"), c(r.choice(["speed", "accuracy", "memory"]))] if r.random() < .5 else [c("with"), c("test"), name(r)]
        return s + [c("using"), name(r)]
    s = [c("execute"), c("task"), word(r)]
    if r.random() < .4:
        s += [c("with"), c("label"), word(r)]
    s += [c("using")]
    if k == "exd":
        return s + [c("dataset"), word(r)]
    s += [c("input"), "("]
    n = r.randint(0, 4)
    keys = []
    for i in range(n):
        key = r.choice([word(r), string(r)])
        s += [key, ":"]
        if r.random() < .35:
            m = r.randint(0, 4)
            s.append("[")
            for j in range(m):
                s.append(value(r))
                if j < m - 1:
                    s.append(",")
            s.append("]")
        else:
            s.append(value(r))
        if i < n - 1:
            s.append(",")
    return s + [")"]


def join(r, toks, sep=None):
    out = ""
    for i, t in enumerate(toks):
        if t.startswith("\0"):           # glued to what stands before it
            out = out.rstrip(" \t\r\n") if out and not out.endswith("\n") else out
            out += t[1:]
        elif not out:
            out += t
        else:
            a, b = out[-1], t[0]
            glue = not ((a.isalnum() or a == "_" or a == ".") and (b.isalnum() or b == "_" or b == "."))
            k = r.random()
            if glue and k < .4:
                out += t
            elif k < .85:
                out += " " + t
            elif k < .9:
                out += "\t " + t
            elif k < .96:
                out += "\n" + t
            else:
                out += " # note " + r.choice(["", "print raw x", "'\""]) + "\n" + t
    return out


def script(r, n=None):
    st = [statement(r) for _ in range(n if n is not None else r.choice([0, 1, 1, 2, 2, 3, 4]))]
    return st, "\n".join(join(r, s) for s in st)


def mutate(r, st):
    toks = [t for s in st for t in s]
    if not toks:
        return join(r, toks)
    k = r.choice(["cut", "cut", "cut", "drop", "dup", "swap", "put", "put", "ins", "ins"])
    i = r.randrange(len(toks))
    anyt = lambda: r.choice([case(r, r.choice(KW)), case(r, r.choice(KW)), word(r), num(r), r.choice(PUNCT), string(r), "1.5", "99999999999", ".", "with", "using", ")", "]"])
    if k == "cut":
        toks = toks[:i]
    elif k == "drop":
        del toks[i]
    elif k == "dup":
        toks.insert(i, toks[i])
    elif k == "swap":
        j = r.randrange(len(toks))
        toks[i], toks[j] = toks[j], toks[i]
    elif k == "put":
        toks[i] = anyt()
    else:
        toks.insert(i, anyt())
    return join(r, toks)


def anytext(r):
    frag = lambda: r.choice([case(r, r.choice(KW)), r.choice(WORDS), case(r, r.choice(KW)) + r.choice(["s", "1", "_", "x"]), string(r), string(r)[:-1],
                             num(r), "1.5", ".", "..", "1..2", "1.2.3", ".5", "5.", r.choice(PUNCT), "\"", "'", "\\\"", "\\'", "\\", " ", "\n", "\t", "\r", "  ",
                             "# c", "#", "#\n", "#'x\n", "_", "_a", "a_b", "é", "\xff", "\0", "-", ";", "a-b", "file://x/y.csv", "<", "{", "\x0b"])
    return "".join(frag() for _ in range(r.randint(0, 9))).encode("latin-1", "replace").decode("latin-1")
