"""C02: vertex positions stay within the requested tolerance."""
import random
from . import core, gen, quants
from .num import bits

CODES = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS CodesRight\nCONSTANTS Part = \"codes\" L = %d B = %d Q = 8 Spans = {} Steps = 1 Rounding = TRUE\n"


def codes(chk, deep):
    """The design of codes on every value of a fine grid."""
    chk.model("QuantMC", CODES % ((9765, 6) if not deep else (1240155, 7)), heap="12g")


def arrange(rng, pts):
    """Puts extremes first, last or anywhere."""
    c = rng.randrange(4)
    if c == 0:
        pts.sort(key=lambda p: sum(p))
    elif c == 1:
        pts.sort(key=lambda p: -sum(p))
    elif c == 2:
        pts.sort(key=lambda p: p[rng.randrange(3)])
    else:
        rng.shuffle(pts)
    return pts


def points(rng, n):
    """Points of a lattice."""
    c = rng.randrange(9)
    if c == 0:      # one point, maybe repeated
        return [[rng.randrange(-1000, 1000) for _ in range(3)]] * rng.choice([1, 1, 2, 5])
    size = [rng.choice([1, 2, 7, 64, 100, 1000, 12000]) if c >= 5 else rng.choice([100, 1000, 12000]) for _ in range(3)]
    if c == 1:
        size[rng.randrange(3)] = 0
    elif c == 2:
        a = rng.randrange(3)
        size = [0 if i == a else s for i, s in enumerate([0, 0, 0])]
        size[rng.randrange(3)] = rng.choice([1, 100, 12000])
    elif c == 3:
        size = [1, 1, 1]
        size[rng.randrange(3)] = 12000
    off = [rng.choice([0, 0, s, -s, 500]) for s in size]
    off = [max(-12900 + s, min(12900 - s, o)) for o, s in zip(off, size)]
    pts = [[rng.randrange(-s, s + 1) + o for s, o in zip(size, off)] for _ in range(n)]
    if rng.random() < .3:
        pts += [list(rng.choice(pts)) for _ in range(rng.randrange(3))]
    return arrange(rng, pts)


def triangles(rng, n):
    c = rng.randrange(10)
    if c == 0:
        return None
    if c == 1:
        return []
    k = rng.choice([1, 1, 2, 5, 12])
    t = [rng.randrange(n) for _ in range(3 * k)]
    if c == 2:
        t[0] = t[1]
    elif c == 3:
        t = [t[0]] * 3 + (t if rng.random() < .5 else [])
    elif c == 4:
        t += [rng.randrange(n) for _ in range(rng.randrange(1, 3))]
    elif c == 5:
        t[rng.randrange(len(t))] = rng.choice([n, n + 5, 2 ** 32 - 1])
    return t


def unit(rng):
    """The lattice and an origin in which all coordinates are floats."""
    c = rng.randrange(5)
    if c < 2:
        return rng.uniform(.001, 100), [0, 0, 0]
    if c == 2:
        return 2.0 ** rng.randrange(-30, 20), [0, 0, 0]
    u = 2.0 ** rng.randrange(-20, 10)
    return u, [u * rng.choice([0, 1, 1, -1]) * rng.choice([2 ** 16, 2 ** 20, 2 ** 22]) for _ in range(3)]


def scenario(rng, pts, tris, p, u=None):
    u, o = u or unit(rng)
    m = {"v": quants.lattice(rng, pts, u, o)}
    if tris is not None:
        m["vt"] = tris
    e = quants.edge2(pts, tris or []) ** .5
    return quants.scenario(m, {"v": bits(p)}, unit=u, origin=o, off=max(map(abs, o)), edge=e)


def boundary(rng):
    """Boxes at and next to sizes which need one bit more, filled with points."""
    e = rng.choice([64, 100, 128, 1000, 1024, 960])
    p = rng.choice([1, .5, .25, .125, .0625, 1 / 32])
    pts, size = [[0, 0, 0], [e, 0, 0]], []
    for a in range(3):
        b = rng.randrange(1, 10)
        s = int(e * p * 2 ** b) + rng.choice([-1, 0, 0, 0, 1])
        size.append(max(e if a == 0 else 0, min(s, 12900)))
    pts += [[rng.choice([0, rng.randrange(s + 1), s]) for s in size] for _ in range(rng.choice([6, 20, 40]))]
    for a in range(3):
        pts[rng.randrange(2, len(pts))][a] = size[a]
    perm = rng.sample(range(3), 3)
    pts = [[q[perm.index(a)] for a in range(3)] for q in pts]
    return scenario(rng, pts, [0, 1, 0] if rng.random() < .5 else [0, 1, 1], p)


def split(rng):
    """Many points near the origin, then others far away: the array is split."""
    near = rng.choice([10, 50, 300])
    n = rng.choice([40, 80, 150])
    pts = [[0, 0, 0]] + [[rng.randrange(-near, near + 1) for _ in range(3)] for _ in range(n)]
    pts += [[rng.choice([-1, 1]) * rng.randrange(3000, 12900) for _ in range(3)] for _ in range(rng.choice([1, 3, 20]))]
    if rng.random() < .4:
        pts += [[rng.randrange(-near, near + 1) for _ in range(3)] for _ in range(10)]
    if rng.random() < .2:
        pts = [[4 * x // 5 for x in q] for q in pts]
    return scenario(rng, pts, triangles(rng, len(pts)), rng.choice([.1, .05, .01]), (rng.choice([.01, .1, 1, 5]), [0, 0, 0]))


def large(rng, deep):
    """Many vertices and triangles. What decides (the shortest edge, the extremes) may come anywhere."""
    n = rng.choice(gen.LONG[:6] if not deep else gen.LONG + [262145])
    u = rng.choice([.001, .01, 1, 2])
    base = [[rng.randrange(-12000, 12001) for _ in range(3)] for _ in range(rng.choice([3, 20, 60]))]
    c = rng.randrange(4)
    if c == 0:      # the shortest edge is that of one triangle among many
        base += [[0, 0, 0], [rng.choice([1, 5, 40]), 0, 0], [9000, 0, 0]]
        m = len(base)
        tris = [0, 1, 2] * (n if n < 70000 else 70000)
        at = 3 * rng.choice([0, len(tris) // 3 - 1, rng.randrange(len(tris) // 3), min(4096, len(tris) // 3 - 1)])
        tris[at:at + 3] = rng.choice([[m - 3, m - 2, m - 1], [m - 1, m - 3, m - 2], [m - 2, m - 1, m - 3]])
        return scenario(rng, base, tris, rng.choice([.1, .5, .01]), (u, [0, 0, 0]))
    last = [[rng.randrange(-12900, 12901) for _ in range(3)] for _ in range(rng.choice([1, 2, 5]))]
    near = [[x // rng.choice([1, 10, 300]) for x in p] for p in base]
    pts = gen.cycled(rng, near, n, last)
    k = len(pts)
    t = [[0, 1, 2], [k - 1, 0, 1], [k - 2, k - 3, 0], [k - 1, k - 1, k - 2], [k, k + 1, 0], [min(k - 1, 65535), 0, 1]]
    tris = rng.choice([None, [], sum([rng.choice(t) for _ in range(4)], [])])
    return scenario(rng, pts, tris, rng.choice([.1, .5, .01]), (u, [0, 0, 0]))


def run(chk):
    rng = random.Random(core.seed() * 7919 + 2)
    deep = chk.tier == "thorough"
    chk.build()
    codes(chk, deep)
    scen = []
    k = 1 if not deep else 12
    for i in range(700 * k):
        pts = points(rng, rng.choice([1, 2, 3, 4, 8, 25]))
        p = rng.choice([.1, .1, .5, 1, .25, .05, .01, .001, rng.uniform(.001, 1)])
        scen.append(scenario(rng, pts, triangles(rng, len(pts)), p))
    scen += [boundary(rng) for i in range(600 * k)]
    scen += [split(rng) for i in range(80 * k)]
    scen += [large(rng, deep) for i in range(24 if not deep else 80)]
    # Finer than the floats: nothing but rounding is left
    for e in range(10, 72):
        for i in range(3 if not deep else 20):
            pts = points(rng, rng.choice([1, 2, 4, 8, 25]))
            scen.append(scenario(rng, pts, triangles(rng, len(pts)), 2.0 ** -e * rng.choice([1, 1, rng.uniform(.5, 1)])))
    quants.check(chk, scen, chunk=2000)
