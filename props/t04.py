"""T04: cache, prefix dictionary, one-hot vectors"""
import random
from vlib.core import *


def key(r):
    return "".join(r.choice("aab\xe9") for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])))


def gen(r, n):
    out = []
    for i in range(n):
        cap = r.choice([0, 1, 1, 2, 3, 5, 8])
        ops = []
        span = cap + r.randint(1, 3)
        for _ in range(r.randint(5, 40)):
            ops.append("%s %d" % (r.choice("iic"), r.randrange(span)))
        ops += ["c %d" % k for k in range(span)]
        out.append(dict(name="lru-%d" % i, cmd="lru %d %s" % (cap, " ".join(ops)), spec=dict(kind="lru", cap=cap)))
        ops = []
        for _ in range(r.randint(3, 20)):
            ops.append("i %s %s" % (hx(key(r)), hx(key(r))) if r.random() < .4 else "a %s" % hx(key(r)))
        out.append(dict(name="trie-%d" % i, cmd="trie " + " ".join(ops), spec=dict(kind="trie", cap=0)))
        ops = []
        labels = list(dict.fromkeys(key(r) for _ in range(r.randint(1, 6))))
        asked = [r.choice(labels) if r.random() < .8 else key(r) for _ in range(r.randint(0, 6))]
        ops.append("words %d %d %s" % (len(labels), len(asked), " ".join(hx(x) for x in labels + asked)))
        ops.append("chars " + "x" + bytes(r.choice([0, 1, 65, 127, 128, 254, 255, r.randrange(256)]) for _ in range(r.randint(0, 5))).hex())
        L = r.randint(1, 9)
        ops.append("bpe %d x%s" % (L, ",".join(str(r.choice([0, L - 1, L, L + 1, r.randrange(12), 65535])) for _ in range(r.randint(0, 4)))))
        m = r.randint(1, 9)
        ops.append("top %d %d %s" % (m, r.randint(0, m + 1), " ".join(str(r.randint(-20, 20)) for _ in range(m))))
        ops.append("pad %d %d %d" % (r.randint(0, 5), r.randint(0, 5), r.randint(1, 3)))
        out.append(dict(name="hot-%d" % i, cmd="hot " + " ".join(ops), spec=dict(kind="hot", cap=0)))
    return out


def run(rep, sc, tier, seed):
    r = random.Random(seed * 1000003 + 44)
    mc, cov = model_check(sc, "MC_Containers.tla", "MC_Containers.cfg", ["Insert", "Add"])
    rep.add_mc(mc, "MC_Containers.tla", cov)
    exe = compile_driver(sc, "utils")
    tr = conform(rep, sc, exe, "T_T04.tla", "T_T04.cfg", gen(r, 250 if tier == "quick" else 5000), group=2000)

    def mut(t):
        for e in t["ev"]:
            if e["e"] == "contains":
                e["r"] = not e["r"]
                return t
            if e["e"] == "ask":
                e["starts"] = not e["starts"]
                return t
            if e["e"] == "chars" and e["t"]:
                e["at"][0] += 1
                return t
    if not rep.violations:
        binding_selftest(rep, sc, "T_T04.tla", "T_T04.cfg", tr, mut, want=10)
