"""T01: tensor operations, element by element, through every accessor"""
import random
from vlib.core import *


class N:
    """what the generator knows about a tensor: shape, bounds on its elements, whether they carry no rounding"""
    def __init__(self, i, r, c, k, lo, hi, exact, apart=False):
        self.i, self.r, self.c, self.k, self.lo, self.hi, self.exact, self.apart = i, r, c, k, lo, hi, exact, apart
        self.m = max(abs(lo), abs(hi))
        self.n = r * c * k


MOVE = ["noop", "transpose", "rotate", "pad", "reshape3", "reshape2", "rowflat", "colflat", "window", "channel", "copy32", "load32"]
ONE = ["abs", "clip", "sadd", "ssub", "subfrom", "smul", "mulby", "sdiv", "divinto", "inverse1", "power", "half", "exp", "log", "log2", "sqrt",
       "round", "less", "norm", "autonorm", "denorm", "std", "autostd", "unstd", "transform", "transform2", "sumchannels", "sumto",
       "copy16", "copy8", "pixel", "load16", "load8", "loadpixel", "inverse"]
TWO = ["add", "sub", "mul", "div", "matmul", "matdiv", "dot", "outer", "valid", "full", "convolve", "concat"]


class Prog:
    def __init__(self, r):
        self.r, self.nodes, self.out = r, [], []

    def emit(self, op, a, b, d, p, node):
        i = len(self.out) + 1
        small = node is not None and node.m <= 15
        self.out.append("%s %d %d %d %d %d %d %d %s" % (op, a.i if a else 0, b.i if b else 0, d.i if d else 0,
                                                    1 if all(x.exact for x in (a, b, d) if x) else 0, 1 if node is not None and node.exact else 0, 1 if small else 0, len(p), " ".join(map(str, p))))
        if node is not None:
            node.i = i
            self.nodes.append(node)
        return node

    def leaf(self, r=None, c=None, k=None, kind=None):
        R = self.r
        given = c is not None
        r, c, k = r or R.choice([1, 1, 2, 3, 4]), c or R.choice([1, 2, 2, 3, 4]), k or R.choice([1, 1, 2, 3])
        kind = kind or R.choice(["int", "int", "half", "apart", "pos", "same", "frac", "uniform", "identity", "function", "random", "xavier"] + ([] if given else ["full1"]))
        n = r * c * k
        if kind == "full1":
            v = [R.randint(-4, 4) * 1000 for _ in range(r * c * k)]
            return self.emit("full1", None, None, None, v, N(0, 1, n, 1, -4, 4, True))
        if kind == "uniform":
            v = R.choice([0, 1000, -2500, 3000])
            return self.emit("uniform", None, None, None, [r, c, k, v], N(0, r, c, k, v / 1000, v / 1000, True, abs(v) > 0))
        if kind == "identity":
            return self.emit("identity", None, None, None, [r, c, k], N(0, r, c, k, 0, 1, True))
        if kind == "function":
            return self.emit("function", None, None, None, [r, c, k], N(0, r, c, k, -8, 10, True))
        if kind == "random":
            lo, hi = sorted((R.randint(-5, 5) * 500, R.randint(-5, 5) * 500))
            hi = hi + 500
            a, b = (lo, hi) if R.random() < .7 else (hi, lo)
            return self.emit("random", None, None, None, [r, c, k, lo, hi, R.randrange(10 ** 6)], N(0, r, c, k, lo / 1000, hi / 1000, False))
        if kind == "xavier":
            b = int((2 / (r + c)) ** .5 / 2 * 1000) + 1
            return self.emit("xavier", None, None, None, [r, c, k, -b, b, R.randrange(10 ** 6)], N(0, r, c, k, -b / 1000, b / 1000, False))
        if kind == "half":
            v = [R.randint(-8, 8) * 500 for _ in range(n)]
        elif kind == "apart":
            v = [R.choice([-4, -3, -2, -1, 1, 2, 3, 4]) * R.choice([500, 1000]) for _ in range(n)]
        elif kind == "pos":
            v = [R.randint(1, 8) * 500 for _ in range(n)]
        elif kind == "same":
            v = [R.randint(-3, 3) * 1000] * n
        elif kind == "frac":
            v = [R.randint(0, 8) * 125 for _ in range(n)]
        else:
            v = [R.randint(-4, 4) * 1000 for _ in range(n)]
        return self.emit("full3", None, None, None, [r, c, k] + v, N(0, r, c, k, min(v) / 1000, max(v) / 1000, True, kind in ("apart", "pos")))

    def solid(self, n, k):
        """a matrix with small whole elements that can be inverted well"""
        R = self.r
        while True:
            ms = [[[R.randint(-2, 2) for _ in range(n)] for _ in range(n)] for _ in range(k)]
            if R.random() < .3:
                ms[0][0][0] = 0

            def det(m):
                if len(m) == 1:
                    return m[0][0]
                return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(len(m)))
            if all(det(m) for m in ms):
                break
        v = [x * 1000 for m in ms for row in m for x in row]
        return self.emit("full3", None, None, None, [n, n, k] + v, N(0, n, n, k, -2, 2, True))

    def step(self):
        R = self.r
        a = R.choice(self.nodes)
        kind = R.random()
        if kind < .1:
            return self.leaf()
        if kind < .3:
            return self.move(R.choice(MOVE), a)
        if kind < .62:
            return self.one(R.choice(ONE), a)
        if kind < .7:
            b = self.leaf(a.r, a.c, a.k, "int")
            c = R.choice([x for x in self.nodes if (x.r, x.c, x.k) == (a.r, a.c, a.k)])
            if R.random() < .5:
                b, c = c, b
            p = R.choice([0, 500, 250, -750])
            return self.emit("select", a, b, c, [p], N(0, a.r, a.c, a.k, min(b.lo, c.lo), max(b.hi, c.hi), False))
        return self.two(R.choice(TWO), a)

    def move(self, op, a):
        R, p, sh = self.r, [], (a.r, a.c, a.k)
        lo, hi = a.lo, a.hi
        if op == "transpose":
            sh = (a.c, a.r, a.k)
        elif op == "pad":
            p = [R.randint(0, 2) for _ in range(4)]
            sh = (a.r + p[0] + p[1], a.c + p[2] + p[3], a.k)
            lo, hi = min(lo, 0), max(hi, 0)
        elif op in ("reshape3", "reshape2"):
            n = a.n if op == "reshape3" else a.r * a.c
            if R.random() < .12:
                self.emit(op, a, None, None, [n + 1, 1, 1] if op == "reshape3" else [1, n + 1], None)
                return None
            d = [x for x in range(1, n + 1) if n % x == 0]
            x = R.choice(d)
            if op == "reshape3":
                y = R.choice([q for q in d if (n // x) % q == 0])
                p = [x, y, n // x // y]
                sh = tuple(p)
            else:
                p = [x, n // x]
                sh = (x, n // x, a.k)
        elif op == "rowflat":
            sh = (1, a.n, 1)
        elif op == "colflat":
            sh = (a.n, 1, 1)
        elif op == "window":
            s = R.randrange(a.c)
            e = R.randint(s + 1, a.c)
            if R.random() < .15:
                self.emit(op, a, None, None, R.choice([[s, a.c + 1], [e, e], [e, s]]), None)
                return None
            p, sh = [s, e], (a.r, e - s, a.k)
        elif op == "channel":
            p, sh = [R.randrange(a.k)], (a.r, a.c, 1)
        if sh[0] * sh[1] * sh[2] > 48:
            return None
        return self.emit(op, a, None, None, p, N(0, *sh, lo, hi, a.exact, a.apart and op != "pad"))

    def one(self, op, a):
        R, p, sh, lo, hi, exact = self.r, [], (a.r, a.c, a.k), a.lo, a.hi, False
        if op == "abs":
            lo, hi, exact = 0, a.m, a.exact
        elif op == "clip":
            lo = R.choice([-2, -1, 0])
            hi = lo + R.choice([0, 1, 2])
            p, exact = [lo * 1000, hi * 1000], a.exact
        elif op in ("sadd", "ssub", "subfrom", "smul", "mulby", "sdiv", "divinto", "transform2"):
            x = R.choice([-3000, -1500, -250, 500, 1000, 2000, 750])
            p = [x]
            s = x / 1000
            if op == "sadd":
                lo, hi = lo + s, hi + s
            elif op == "ssub":
                lo, hi = lo - s, hi - s
            elif op == "subfrom":
                lo, hi = s - hi, s - lo
            elif op == "divinto":
                if not a.apart:
                    return None
                lo, hi = -abs(s) * 2, abs(s) * 2
            elif op == "sdiv":
                lo, hi = -a.m / abs(s), a.m / abs(s)
            else:
                lo, hi = -a.m * abs(s) - 1, a.m * abs(s) + 1
        elif op == "inverse1":
            if not a.apart:
                return None
            p, lo, hi = [R.choice([0, 250])], -4, 4
        elif op == "power":
            x = R.choice([0, 1, 2, 2, 3])
            if a.m ** max(x, 1) > 200 or a.m > 12:
                return None
            p, lo, hi = [x * 1000], -max(1, a.m ** x), max(1, a.m ** x)
            if x % 2 == 0:
                lo = 0
        elif op in ("half", "sqrt"):
            if a.lo < 0:
                return None
            lo, hi = 0, a.m ** .5 + .01
        elif op == "exp":
            if a.hi > 3.5 or a.lo < -7:
                return None
            lo, hi = 0, 40
        elif op == "log":
            lo, hi = -19, 0
        elif op == "log2":
            if not (a.lo > 0.2 and a.apart) or a.hi > 60:
                return None
            lo, hi = -4, 7
        elif op == "round":
            lo, hi = lo - 1, hi + 1
        elif op == "less":
            p, lo, hi = [R.choice([0, 500, -250, 1000])], 0, 1
        elif op == "norm":
            x = R.choice([-4000, -1000, 0, 1500])
            p = [x, x + R.choice([500, 1000, 4000])]
            q = (a.m + 6) / .5
            lo, hi = -q, q
        elif op == "autonorm":
            if a.k * a.r * a.c < 2 or not a.exact:
                return None
            lo, hi = -1, 1
        elif op == "denorm":
            x = R.choice([-4000, -1000, 0, 1500])
            p = [x, x + R.choice([500, 1000, 4000])]
            lo, hi = -a.m * 4 - 4, a.m * 4 + 6
        elif op in ("std", "unstd"):
            p = [R.choice([-1500, 0, 2000]), R.choice([500, 1000, 2500])]
            q = (a.m + 2) * 2.5
            lo, hi = -q, q
        elif op == "autostd":
            if a.m > 20 or not a.exact or a.n < 2:
                return None
            lo, hi = -7, 7
        elif op == "transform":
            lo, hi = 2 * lo + 1, 2 * hi + 1
        elif op == "sumchannels":
            sh, lo, hi = (a.r, a.c, 1), -a.m * a.k, a.m * a.k
        elif op == "sumto":
            k = R.randint(1, 3)
            p, sh, lo, hi = [R.randrange(k), k], (a.r, a.c, k), -a.m * a.k, a.m * a.k
        elif op in ("copy16", "load16", "copy8", "load8"):
            q = a.m * 1.2 + .1
            lo, hi = (-q if lo < 0 else 0), q
            if a.m > 200:
                return None
        elif op in ("pixel", "loadpixel"):
            lo, hi = 0, 1
        elif op == "inverse":
            b = self.solid(R.choice([1, 2, 2, 3]), R.choice([1, 2]))
            self.emit(op, b, None, None, [], N(0, b.r, b.c, b.k, -8, 8, False))
            return None
        if max(abs(lo), abs(hi)) > 1000 or (a.m > 40 and op in ("smul", "mulby", "sdiv", "norm", "denorm", "std", "unstd", "transform2")):
            return None
        if sh[0] * sh[1] * sh[2] > 48:
            return None
        return self.emit(op, a, None, None, p, N(0, *sh, lo, hi, exact, op in ("exp",) and a.lo > -1))

    def two(self, op, a):
        R = self.r
        if a.m > 40 and op not in ("add", "sub", "concat"):
            return None
        same = lambda kind=None: R.choice([x for x in self.nodes if (x.r, x.c, x.k) == (a.r, a.c, a.k)] + [self.leaf(a.r, a.c, a.k, kind)])
        if R.random() < .08 and op in ("add", "sub", "mul", "div", "matmul", "concat", "dot"):
            b = R.choice(self.nodes)
            bad = {"matmul": a.c != b.r or a.k != b.k, "concat": a.r != b.r,
                   "dot": a.r != 1 or b.r != 1 or a.k != 1 or b.k != 1 or a.c != b.c}.get(op, (a.r, a.c, a.k) != (b.r, b.c, b.k))
            if bad:
                self.emit(op, a, b, None, [], None)
            return None
        if op in ("add", "sub"):
            b = same()
            if a.m + b.m > 1000:
                return None
            return self.emit(op, a, b, None, [], N(0, a.r, a.c, a.k, -(a.m + b.m), a.m + b.m, False))
        if op == "mul":
            b = same()
            if b.m > 40 or a.m * b.m > 1000:
                return None
            return self.emit(op, a, b, None, [], N(0, a.r, a.c, a.k, -a.m * b.m, a.m * b.m, False))
        if op == "div":
            b = self.leaf(a.r, a.c, a.k, "apart")
            return self.emit(op, a, b, None, [], N(0, a.r, a.c, a.k, -a.m * 2, a.m * 2, False))
        if op == "matmul":
            b = R.choice([x for x in self.nodes if x.r == a.c and x.k == a.k] + [self.leaf(a.c, None, a.k, "int")])
            q = a.m * b.m * a.c
            if b.m > 40 or q > 1000 or a.r * b.c * a.k > 48:
                return None
            return self.emit(op, a, b, None, [], N(0, a.r, b.c, a.k, -q, q, False))
        if op == "matdiv":
            b = self.solid(R.choice([1, 2, 2, 3]), R.choice([1, 2]))
            x = self.leaf(b.r, b.c, b.k, R.choice(["int", "half", "identity"]))
            self.emit(op, x, b, None, [], N(0, b.r, b.c, b.k, -100, 100, False))
            return None
        if op == "dot":
            if a.r != 1 or a.k != 1:
                return None
            b = same()
            q = a.m * b.m * a.c
            if b.m > 40 or q > 1000:
                return None
            return self.emit(op, a, b, None, [], N(0, 1, 1, 1, -q, q, False))
        if op == "outer":
            x, y = self.leaf(None, 1, a.k, "half"), self.leaf(1, None, a.k, "int")
            return self.emit(op, x, y, None, [], N(0, x.r, y.c, a.k, -16, 16, False))
        if op in ("valid", "full", "convolve"):
            b = self.leaf(R.randint(1, a.r if op == "valid" else 4), R.randint(1, a.c if op == "valid" else 4), a.k, R.choice(["int", "half", "int"]))
            q = a.m * b.m * b.r * b.c
            sh = (a.r - b.r + 1, a.c - b.c + 1, a.k) if op == "valid" else (a.r + b.r - 1, a.c + b.c - 1, a.k)
            if q > 1000 or sh[0] * sh[1] * sh[2] > 60:
                return None
            return self.emit(op, a, b, None, [], N(0, *sh, -q, q, False))
        b = R.choice([x for x in self.nodes if x.r == a.r and x.k == a.k])
        if (a.c + b.c) * a.r * a.k > 48:
            return None
        return self.emit(op, a, b, None, [], N(0, a.r, a.c + b.c, a.k, min(a.lo, b.lo), max(a.hi, b.hi), a.exact and b.exact, a.apart and b.apart))


def gen(r, n):
    out = []
    for i in range(n):
        p = Prog(r)
        p.leaf()
        p.leaf()
        for _ in range(r.randint(4, 14)):
            p.step()
        out.append(dict(name="tensor-%d" % i, cmd=" ".join(p.out), spec={}))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 51)
    mc, cov = model_check(sc, "MC_Tensor.tla", "MC_Tensor.cfg", ["Apply"])
    rep.add_mc(mc, "MC_Tensor.tla", cov)
    exe = compile_driver(sc, "tensor")
    tr = conform(rep, sc, exe, "T_T01.tla", "T_T01.cfg", gen(r, 400 if tier == "quick" else 8000), group=100)

    def mut(t):
        for e in reversed(t["ev"]):
            if e["e"] == "op" and not e["err"] and e["a"]:
                e["v"][-1] += 600
                e["off"][-1] += 600
                e["again"][-1] += 600
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_T01.tla", "T_T01.cfg", tr, mut, want=10)
