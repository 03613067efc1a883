"""C21: saving is deterministic, and repeated saves do not drift."""
import math, random
from . import core, gen, quants
from .num import bits, val, f32
from .p_c02 import arrange, codes, points, triangles
from .p_c03 import direction
from .p_c05 import array, NAMES

GENS = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Accurate NoDrift Stable\n"
        "CONSTANTS Part = \"gens\" L = 1 B = 5 Q = %d Spans = {%s} Steps = %d Rounding = TRUE\n")


def mesh(rng, n):
    m, p, kw = {}, {}, {}
    if rng.random() < .85:
        pts = points(rng, rng.choice([3, 4, 8, n]))
        u = rng.uniform(.01, 50) if rng.random() < .7 else 2.0 ** rng.randrange(-8, 8)
        m["v"] = quants.lattice(rng, pts, u, [0, 0, 0])
        t = triangles(rng, len(pts))
        if t is not None:
            m["vt"] = t
        kw = {"unit": u, "edge": quants.edge2(pts, t or []) ** .5}
        p["v"] = bits(rng.choice([.1, .1, .0625, .05, .01, rng.uniform(.005, .1)]))
        # Up to 16 bits per component
        big = 2 * max([1] + [abs(x) for q in pts for x in q])
        edge = kw["edge"] or .1 / u
        while big / (edge * val(p["v"])) > 60000 and val(p["v"]) < .1:
            p["v"] = bits(min(.1, val(p["v"]) * 2))
        if big / (edge * val(p["v"])) > 60000:
            del m["v"]
            m.pop("vt", None)
            kw = {}
    for k in "nt":
        if rng.random() < .6:
            deg = rng.choice([.005, .01, .1, 1, 1, 3, 10, 45, 90, 90 / 2 ** rng.randrange(1, 13)])
            p[k + "_deg"] = bits(deg)
            if deg < .5:
                kw["skip"] = ["full"]     # finer than the approximate sine
            m[k] = [[bits(x) for x in direction(rng, min(1, deg / 90))] + ([bits(rng.choice([1.0, -1.0]))] if k == "t" else [])
                    for _ in range(rng.randrange(1, n + 1))]
            if rng.random() < .7:
                m[k + "t"] = gen.indices(rng, rng.randrange(0, 20))
    if rng.random() < .6:
        p["u"] = [bits(rng.choice([16, 256, 1024, 4096, 16384])), bits(rng.choice([.25, .3, .5, 1, 2]))]
        m["u"] = [[bits(rng.choice([0, 1, rng.random()])) for _ in range(2)] for _ in range(rng.randrange(1, n + 1))]
        if rng.random() < .7:
            m["ut"] = gen.indices(rng, rng.randrange(0, 20))
    m["c"] = [array(rng, 8, rng.choice(NAMES)) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
    if rng.random() < .2:
        m[rng.choice("nut")] = []
    return m, p, kw


def run(chk):
    rng = random.Random(core.seed() * 7919 + 21)
    deep = chk.tier == "thorough"
    chk.build()
    chk.model("QuantMC", GENS % (8, "0, 3255, 6510, 9765", 465 if not deep else 105), heap="16g", tag="8")
    if deep:
        codes(chk, deep)
        chk.model("QuantMC", GENS % (16, "0, 3255, 6510, 9765, 13020", 217), heap="16g", tag="16")
    scen = []
    for i in range(900 if not deep else 12000):
        m, p, kw = mesh(rng, rng.choice([2, 6, 20]))
        names = sorted({c["name"] for c in m["c"]})
        scen.append(quants.scenario(m, p, names, gens=rng.choice([2, 3, 3, 5]) if rng.random() < .95 else 12, twice=True, **kw))
    for i in range(10 if not deep else 60):
        m, p, kw = mesh(rng, 20)
        for k in "vnut":
            if m.get(k) and (k != "v" or rng.random() < .6):
                m[k] = gen.cycled(rng, m[k], rng.choice(gen.LONG), m[k][:rng.randrange(3)])
        names = sorted({c["name"] for c in m["c"]})
        scen.append(quants.scenario(m, p, names, gens=rng.choice([2, 3]), twice=True, **kw))
    quants.check(chk, scen, chunk=2000)
