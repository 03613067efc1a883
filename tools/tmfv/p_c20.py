"""C20: triangulation of a polygon covers it exactly."""
import math, random
from . import core, gen, objs
from .num import bits


def polygon(rng, n):
    """Corners of a polygon: regular, star shaped, concave, collinear, flat, degenerate, in any plane, either way round."""
    c = rng.randrange(9)
    a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n)) if c != 0 else [2 * math.pi * i / n for i in range(n)]
    r = [1.0] * n if c in (0, 1) else [rng.uniform(.1, 1) for _ in range(n)]
    p = [(x * math.cos(y), x * math.sin(y)) for x, y in zip(r, a)]
    if c == 3:
        p = [(float(i), 0.0) for i in range(n)]
    elif c == 4:
        p = [(float(rng.randrange(3)), float(rng.randrange(3))) for _ in range(n)]
    elif c == 5:
        p = [(1.0, 1.0)] * n
    elif c == 6:
        p = [(i / n, (i % 2) * 1.0) for i in range(n)]
    elif c == 7:
        p = [(rng.uniform(-1, 1) * 10 ** rng.randrange(-20, 19), rng.uniform(-1, 1)) for _ in range(n)]
    if rng.random() < .5:
        p.reverse()
    u, v = gen.unit(rng), gen.unit(rng)
    o = [rng.choice([0, 5, 1000]) for _ in range(3)]
    pts = [[bits(o[k] + x * u[k] + y * v[k]) for k in range(3)] for x, y in p]
    if c == 8 and rng.random() < .5:
        pts[rng.randrange(n)][rng.randrange(3)] = bits(1e38)
    return pts


def text(rng, faces):
    lines, n = [], 0
    nu = rng.randrange(1, 9)
    nn = rng.randrange(1, 9)
    lines += ["vt %s %s" % (i / 16, i / 8) for i in range(nu)] + ["vn %d 0 1" % i for i in range(nn)]
    style = rng.choice(["v", "vt", "vn", "vtn"])
    for k in range(faces):
        cnt = rng.choice([3, 4, 4, 4, 5, 5, 6, 7, 8, 9, 10, 12, 17, 30, 64, 100][:13 if rng.random() < .93 else 16])
        pts = polygon(rng, cnt)
        lines += ["v " + " ".join(objs.number(rng, b) for b in p) for p in pts]
        ix = [n + 1 + i for i in range(cnt)]
        c = rng.random()
        if c < .15:     # a corner twice
            ix[rng.randrange(cnt)] = ix[rng.randrange(cnt)]
        elif c < .18:   # there and back
            ix = [n + 1 + i % rng.choice([2, 3, max(2, cnt // 2)]) for i in range(cnt)]
        elif c < .2:
            ix = [n + 1 + rng.randrange(cnt) for _ in range(cnt)]
        elif c < .26:   # not defined, or not yet
            ix[rng.randrange(cnt)] = n + cnt + rng.choice([1, 1, 2, 1000, 2 ** 32 - 1 - n - cnt])
        if rng.random() < .2:
            style = rng.choice(["v", "vt", "vn", "vtn"])
        shift = rng.randrange(8)
        lines.append("f " + " ".join(objs.corner(rng, (v, 1 + (i + shift) % nu if rng.random() < .8 else rng.randrange(1, nu + 1),
                                                          1 + (3 * i + shift) % nn), style) for i, v in enumerate(ix)))
        n += cnt
        if rng.random() < .2:
            lines.append("o m%d" % k)
    return "\n".join(lines + ["v 9 9 9"] * rng.randrange(4))


def run(chk):
    rng = random.Random(core.seed() * 7919 + 20)
    deep = chk.tier == "thorough"
    chk.build(["full"])
    chk.model("EarClip", "INIT Init\nNEXT Next\nINVARIANT Covered\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxCorners = %d Points = %d\n" % (
        (5, 4) if not deep else (6, 5)), heap="12g")
    scen = []
    for i in range(1500 if not deep else 30000):
        scen.append({"ops": [{"op": "obj_load", "text": text(rng, rng.choice([1, 1, 2, 4]))}]})
    objs.check(chk, scen, variants=("full",), chunk=4000)
