"""C05: custom data survives a save and load."""
import random
from . import core, gen, quants
from .num import bits, val, f32
from .p_c02 import codes
from .p_c17 import ALIKE

NAMES = ["a", "b", "a ", "A", "weights", "žluťoučký kůň", "𝔘", "x" * 255, "x" * 254, "é" * 127, "y" + "é" * 127, "\u0000", "tab\t", "1"]


def array(rng, n, name):
    kind = rng.choice(["index", "int", "float", "rgba"])
    cnt = rng.choice([0, 1, 2, rng.randrange(1, n + 1), n])
    if kind in ("index", "int"):
        return dict(gen.custom_data(rng, name, n, kind), name=name)
    c = {"name": name, "kind": kind}
    if kind == "float":
        p = f32(rng.choice([.01, .5, .125, 1, 100, 1e-4, 1e-20, 1e20, rng.uniform(.001, 10)]))
        if p != f32(.01) or rng.random() < .5:
            c["prec"] = bits(p)
        shape = rng.randrange(5)
        if shape == 0:      # constant
            x = rng.uniform(-1000, 1000) * p
            c["data"] = [bits(x)] * cnt
        else:               # boxes at changes of the number of bits
            span = p * 2 ** rng.randrange(1, 13) * rng.choice([1, 1, .999, 1.001])
            lo = rng.choice([0, -span / 2, -span, 1000 * p, -5000 * p])
            if rng.random() < .1:       # much finer than 32 bits
                span, lo = min(1e38, span * 2.0 ** rng.randrange(13, 64)), 0
            c["data"] = [bits(lo + span * rng.random()) for _ in range(cnt)]
            if cnt > 1 and shape < 4:
                i, j = rng.sample(range(cnt), 2) if shape > 1 else (0, cnt - 1)
                c["data"][i], c["data"][j] = bits(lo), bits(f32(lo) + span)
    else:
        p = f32(rng.choice([.01, .5, 1, 2, .25, .125, 1 / 255, .001, 2.0 ** -12, rng.uniform(.001, 1),
                         10.0 ** -rng.randrange(5, 46)]))
        if p != f32(.01) or rng.random() < .5:
            c["prec"] = bits(p)
        k = max(1, int(1 / p))
        c["data"] = [[bits(rng.choice([0, 1, rng.random(), min(1, (rng.randrange(k + 1) + .5) / k)])) for _ in range(4)] for _ in range(cnt)]
    return c


def scenario(rng, n, arrays):
    names = [rng.choice(NAMES) for _ in range(rng.choice([1, 2, 4]))] if rng.random() < .5 else NAMES
    m = {"c": [array(rng, n, rng.choice(names)) for _ in range(arrays)]}
    if rng.random() < .3:
        m["v"] = [[0, 0, 0], [bits(1)] * 3]
        m["vt"] = [0, 1, 0]
    ask = sorted({c["name"] for c in m["c"]}) + ["not there"]
    return quants.scenario(m, {}, names=ask, edge=3 ** .5)


def run(chk):
    rng = random.Random(core.seed() * 7919 + 5)
    deep = chk.tier == "thorough"
    chk.build()
    codes(chk, deep)
    scen = [scenario(rng, rng.choice([2, 8, 40]), rng.choice([0, 1, 1, 2, 3, 6, 12])) for i in range(1500 if not deep else 20000)]
    # Every width of integers
    for w in range(33):
        for d in (-1, 0, 1):
            x = min(max(0, 2 ** w + d), 2 ** 32 - 1)
            for kind in ("index", "int"):
                m = {"c": [{"name": "a", "kind": kind, "data": [0, x, x // 2, x]}, {"name": "b", "kind": kind, "data": [x]},
                           {"name": "c", "kind": kind, "data": [x - 1 if x else 0, x], "max": rng.choice([0, x, 2 ** 40])}]}
                scen.append(quants.scenario(m, {}, names=["a", "b", "c"]))
    # Names that differ in one place
    for names in ALIKE:
        for i in range(4 if not deep else 40):
            some = rng.sample(names, rng.randrange(1, len(names) + 1))
            scen.append(quants.scenario({"c": [array(rng, 3, n) for n in some]}, {}, names=sorted(names), edge=3 ** .5))
    # Many arrays
    for n in (100, 255, 256, 257, 300, 1000) if not deep else (255, 256, 257, 1000, 5000, 20000):
        m = {"c": [array(rng, 3, "w%d" % (j % (n - rng.choice([0, 0, 1, 40])))) for j in range(n)]}
        ask = ["w0", "w1"] + ["w%d" % j for j in range(n) if n <= 300 or rng.random() < 200 / n or n - j < 40 or abs(j - 256) < 4]
        scen.append(quants.scenario(m, {}, names=sorted(set(ask)) + ["w%d" % n], edge=3 ** .5))
    # Long arrays
    for i in range(16 if not deep else 60):
        c = array(rng, 40, "long")
        n = rng.choice(gen.LONG)
        if c["kind"] in ("index", "int"):
            c["data"] = gen.cycled(rng, c["data"] or [1], n, c["data"][:1])
        else:
            n = min(n, 12289) if not deep else n
            c["data"] = gen.cycled(rng, c["data"] or [c["data"]], n, c["data"][:1]) if c["data"] else []
        m = {"c": [c, {"name": "after", "kind": "int", "data": [3, 4, 5]}]}
        scen.append(quants.scenario(m, {}, names=["long", "after"], edge=3 ** .5))
    quants.check(chk, scen, chunk=4000)
