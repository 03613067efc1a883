"""C04: uv coordinates stay within the requested pixel tolerance."""
import random
from . import core, gen, quants
from .num import bits, val
from .p_c02 import codes


def scenario(rng, n):
    res = rng.choice([1, 2, 16, 64, 256, 1024, 2048, 4096, 16384, 100, 333, 1000])
    dev = rng.choice([1, .5, .25, .125, .1, .01, 2.0 ** -6, 2.0 ** -10, rng.uniform(.01, 2), res, res / 2])
    k = max(1, round(res / dev))
    out = []
    for _ in range(n):
        e = []
        for _ in range(2):
            c = rng.randrange(8)
            x = (rng.choice([0, 1]) if c == 0 else rng.choice([2.0 ** -24, 1 - 2.0 ** -24, .5, 1e-30]) if c == 1 else
                 min(1, (rng.randrange(k + 1) + rng.choice([0, .25, .49, .5, .51, .75, .99])) / k) if c < 4 else
                 min(1, (rng.randrange(k) + rng.choice([0, .49, .5, .51])) / max(1, 2 ** (k - 1).bit_length() - 1)) if c < 6 else rng.random())
            e.append(bits(x))
        out.append(e)
    p = {"u": [bits(res), bits(dev)]} if rng.random() < .93 else {}
    return quants.scenario({"u": out}, p)


def run(chk):
    rng = random.Random(core.seed() * 7919 + 4)
    deep = chk.tier == "thorough"
    chk.build()
    codes(chk, deep)
    scen = [scenario(rng, rng.choice([0, 1, 2, 8, 30, 30])) for i in range(2000 if not deep else 30000)]
    for b in range(14, 64):     # finer than the floats: nothing but rounding is left
        for i in range(2 if not deep else 12):
            sc = scenario(rng, 30)
            r = rng.choice([1, 16, 1024, 16384, 65536, 2 ** 20])
            sc["prec"] = sc["ops"][1]["prec"] = {"u": [bits(r), bits(r / 2 ** (b - rng.choice([0, .3, .9])))]}
            scen.append(sc)
    for b in range(0, 14):      # every number of bits: all codes' borders, as far as there are few
        m = 2 ** b
        g = max(1, m - 1)
        us = sorted({min(1.0, max(0.0, (i + d) / g)) for i in range(0, g + 1, max(1, g // 100)) for d in (0, .499, .501)})
        scen.append(quants.scenario({"u": [[bits(x), bits(y)] for x, y in zip(us, us[::-1])]}, {"u": [bits(m), bits(1)]}))
    for i in range(12 if not deep else 40):
        sc = scenario(rng, 30)
        m = sc["ops"][0]["mesh"]
        m["u"] = gen.cycled(rng, m["u"], rng.choice(gen.LONG), m["u"][:rng.randrange(3)])
        scen.append(sc)
    quants.check(chk, scen, chunk=4000)
