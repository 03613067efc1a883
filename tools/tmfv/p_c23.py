"""C23: written files follow the published layout."""
import math, random
from fractions import Fraction
from . import core, gen, files
from .num import bits, val, fix

K = 10          # units of lengths are 2^-K
Q = 2 ** 18     # units of angles (of a quarter turn), components and uvs


def direction(v, step):
    """<<sign x, sign y, sign z, azimuth, z, free, hand>> of a unit vector; components below `step` have either sign."""
    x, y, z = v[:3]
    xy = math.hypot(x, y)
    az = math.asin(min(1.0, abs(x) / xy)) / (math.pi / 2) if xy > 0 else 0
    sg = [2 if abs(c) <= step else int(c < 0) for c in (x, y, z)]
    return sg + [round(az * Q), round(abs(z) * Q), int(xy < max(.03, 2 * step)), int(math.copysign(1, v[3]) < 0) if len(v) > 3 else 0]


def shortest(mesh):
    """Shortest triangle edge, as the documentation of precisions has it."""
    v, t, edge2 = [[val(b) for b in e] for e in mesh.get("v") or []], mesh.get("vt") or [], None
    for i in range(0, len(t) - 2, 3):
        if max(t[i:i + 3]) < len(v):
            c = [v[j] for j in t[i:i + 3]]
            for a, b in ((0, 1), (1, 2), (2, 0)):
                d = sum((Fraction(x) - Fraction(y)) ** 2 for x, y in zip(c[a], c[b]))
                if d > 0 and (edge2 is None or d < edge2):
                    edge2 = d
    return .1 if edge2 is None else math.sqrt(edge2)


def saved_values(m, mesh, op):
    """Adds to the abstract mesh the values and the tolerances asked for."""
    p = op.get("prec", {})
    m["k"] = K
    pv = val(p["v"]) if "v" in p else .1
    v = [[val(b) for b in e] for e in mesh.get("v") or []]
    edge = shortest(mesh)
    m["v"]["x"] = [[fix(x, 2 ** K) for x in e] for e in v]
    m["vtol"] = math.ceil(pv * edge * 2 ** K * 1.0001) + 1
    for k, a in (("n", "n"), ("t", "t")):
        deg = val(p[a + "_deg"]) if a + "_deg" in p else math.degrees(val(p[a + "_rad"])) if a + "_rad" in p else 1.0
        m[a + "atol"] = math.ceil(deg / 90 * Q) + 3
        m[a + "ztol"] = math.ceil(math.radians(deg) * Q) + 3
        m[k]["x"] = [direction([val(b) for b in e], math.radians(deg)) for e in mesh.get(k) or []]
    res, px = [val(b) for b in p["u"]] if "u" in p else (1024, .1)
    m["u"]["x"] = [[fix(val(b), Q) for b in e] for e in mesh.get("u") or []]
    m["utol"] = math.ceil(px / res * Q) + 2
    for c, j in zip(m["c"], mesh.get("c") or []):
        c["k"], c["x"], c["tol"] = K, [], 0
        pr = val(j["prec"]) if "prec" in j else .01
        if c["kind"] == "float":
            c["x"] = [fix(val(b), 2 ** K) for b in j["data"]]
            c["tol"] = math.ceil(pr * 2 ** K) + 2
        elif c["kind"] == "rgba":
            c["x"] = [[fix(val(b), Q) for b in e] for e in j["data"]]
            c["tol"] = math.ceil(pr * Q) + 2


def ufix(x, scale):
    """As fix, and NaN is an ordinary extreme: differences of what this gives fit TLC's integers."""
    return min(fix(x, scale), 2 ** 30)


def loaded_values(m, mesh, variant):
    """The same for a mesh that was loaded: exact but for floating point and fast trigonometry."""
    m["k"], m["vtol"], m["utol"] = K, 3, 40
    m["natol"] = m["tatol"] = 60 if variant == "std" else 2500
    m["nztol"] = m["tztol"] = 60
    m["v"]["x"] = [[ufix(val(b), 2 ** K) for b in e] for e in mesh.get("v") or []]
    for k in ("n", "t"):
        m[k]["x"] = [direction([val(b) for b in e], 1e-6) for e in mesh.get(k) or []]
    m["u"]["x"] = [[ufix(val(b), Q) for b in e] for e in mesh.get("u") or []]
    for c, j in zip(m["c"], mesh.get("c") or []):
        c["k"], c["x"], c["tol"] = K, [], 3
        if c["kind"] == "float":
            c["x"] = [ufix(val(b), 2 ** K) for b in j["data"]]
        elif c["kind"] == "rgba":
            c["x"], c["tol"] = [[ufix(val(b), Q) for b in e] for e in j["data"]], 40


def nice(rng, n, big=False):
    """A mesh whose coordinates are dyadic numbers with few digits."""
    m = gen.mesh(rng, n, valid=rng.random() < .8, custom=0)
    step = rng.choice([1, 2, 8, 64, 256])
    lim = 2 ** rng.choice([3, 7, 10])
    off = [rng.choice([0, 0, 0, lim, -3 * lim]) for _ in range(3)]
    pt = lambda: [bits(min(2 ** 16, (rng.randrange(-lim, lim + 1) + o)) * step / 2 ** K) for o in off]
    if "v" in m:
        flat = rng.random() < .2
        m["v"] = [pt() for _ in m["v"]]
        if flat:
            for e in m["v"]:
                e[rng.randrange(3)] = m["v"][0][0]
    for j in range(rng.randrange(4)):
        cnt = rng.choice([0, 1, 2, 7, 20])
        kind = rng.choice(["index", "int", "float", "rgba"])
        c = gen.custom_data(rng, rng.choice(["w", "w", "x" * 255, "ä"]), max(1, cnt), kind)
        if kind == "float":
            c["data"] = [bits(rng.randrange(-2 ** 12, 2 ** 12) / 2 ** K) for _ in range(cnt)]
            c["prec"] = bits(rng.choice([.01, .1, 1 / 64, 1 / 128, .5]))
        elif kind == "rgba":
            c["data"] = [[bits(rng.choice([0, 1, rng.randrange(256) / 255])) for _ in range(4)] for _ in range(cnt)]
        m.setdefault("c", []).append(c)
    if big:
        # Many points close to the origin, then a few far away: stored in several parts
        near = [[bits(rng.randrange(-16, 17) / 2 ** K) for _ in range(3)] for _ in range(160)]
        m["v"] = near + [[bits(rng.randrange(-2 ** 16, 2 ** 16) / 2 ** K) for _ in range(3)] for _ in range(20)]
        m["vt"] = [0, 1, 2]
    return m


def run(chk):
    rng = random.Random(core.seed() * 7919 + 23)
    deep = chk.tier == "thorough"
    chk.build()
    files.file_model(chk, 1, 1)
    scen = []
    for i in range(700 if not deep else 8000):
        k = rng.choice([0, 1, 1, 1, 2, 4])
        ops, lst = [], []
        for j in range(k):
            m = nice(rng, rng.choice([1, 3, 9, 30]), big=rng.random() < .08)
            if rng.random() < .3:
                m.update(gen.index_mesh(rng, lambda: rng.randrange(50)))
            ops.append({"op": "mesh", "m": "a%d" % j, "mesh": m})
            lst.append(["a%d" % j, rng.choice(gen.NAMES)])
        p = gen.prec(rng)
        if rng.random() < .6:
            p["v"] = bits(rng.choice([.5, .25, .1, .125, 1.0]))
        ops += [{"op": "save", "list": lst, "prec": p, "one": len(lst) == 1 and rng.random() < .5}]
        scen.append({"ops": ops})
    files.check(chk, scen, read=True, values=saved_values, chunk=2000)
    # The other way round: files of any layout have the meaning the layout gives them
    scen = []
    for i in range(900 if not deep else 10000):
        g, d = gen.random_file(rng, n=rng.choice([2, 10, 30]))
        scen.append(files.raw(d, names=["w", "weights", "x" * 255, ""]))
    files.check(chk, scen, read=True, loaded=loaded_values, tag="conv", chunk=3000)
