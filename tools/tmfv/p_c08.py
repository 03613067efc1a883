"""C08: verification accepts exactly the well-formed meshes."""
import itertools, math, random
from . import core, gen, meshes
from .num import bits, val
from .p_c17 import OF

NAN, INF = 0x7fc00000, 0x7f800000
DENORMAL = 1
UVS = [0, 0x80000000, bits(1.0), bits(1.0) + 1, bits(1.0) - 1, 0x80000001, DENORMAL, bits(.5), bits(-.5), bits(2), NAN,
       NAN | 1 << 31, INF, INF | 1 << 31, bits(1.0 + 1e-6), bits(-1e-6), bits(1e30), 0x7f800001]


def normal(rng, kind):
    """A normal whose length is right, wrong or close to the bounds."""
    v = gen.unit(rng)
    f = {"good": lambda: rng.choice([1, 1, 1.0005, .9995, 1.0009, .9991, 1.00095, .99905]),
         "bad": lambda: rng.choice([0, .5, .99, .998, .9985, 1.0015, 1.002, 1.01, 1.1, 2, 3, 1e10, 1e-10, 1e25, -0.0, -2, -1.002]),
         "close": lambda: 1 + rng.choice([-1, 1]) * rng.uniform(.00098, .00102)}[kind]()
    b = gen.b3([x * f for x in v])
    if kind == "bad" and rng.random() < .25:
        b[rng.randrange(3)] = rng.choice([NAN, INF, INF | 1 << 31, NAN | 1 << 31])
    return b


def idx(rng, ln, n, bad):
    a = [rng.randrange(max(1, ln)) for _ in range(n)] if ln or not n else [0] * n
    if not ln and not bad:
        return []
    if bad and n:
        for _ in range(rng.choice([1, 1, 2])):
            a[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([ln, ln, ln + 1, ln + 7, gen.U32, 2 ** 31, 2 ** 31 + ln, 2 ** 16 + ln, 2 ** 8 + ln])
    return a


def data(rng, k, n, bad):
    if k == "v":
        return [[rng.choice([bits(rng.uniform(-9, 9)), NAN, INF, 0]) for _ in range(3)] for _ in range(n)]
    if k == "t":
        return [[rng.getrandbits(32) for _ in range(4)] for _ in range(n)]
    if k == "n":
        a = [normal(rng, "close" if rng.random() < .05 else "good") for _ in range(n)]
        if bad and n:
            a[rng.choice([0, n - 1, rng.randrange(n)])] = normal(rng, "bad" if rng.random() < .8 else "close")
        return a
    a = [[rng.choice([0, bits(1.0), bits(rng.random()), 0x80000000]) for _ in range(2)] for _ in range(n)]
    if bad and n:
        a[rng.choice([0, n - 1, rng.randrange(n)])][rng.randrange(2)] = rng.choice(UVS)
    return a


def mesh(rng, faults, n, bad_t=False):
    """faults: per attribute one of ok, absent, nodata, index, value, empty, both, noidx."""
    m = {}
    for (k, kt), f in zip(OF.items(), faults):
        if f == "absent":
            continue
        ln = rng.randrange(1, n + 1) if f != "empty" else 0
        if f != "nodata":
            m[k] = data(rng, k, ln, f in ("value", "both"))
        if f != "noidx":
            m[kt] = idx(rng, ln, rng.choice([0, 1, 3, 3, n]) if f not in ("index", "both") else rng.randrange(1, n + 1),
                        f in ("index", "both"))
            if f == "empty" and rng.random() < .3:
                m[kt] = [0]
    m["c"] = [gen.custom_data(rng, "c", 4) for _ in range(rng.randrange(2))]
    for c in m["c"]:
        c.setdefault("max", 5) if c["kind"] in ("index", "int") else c.setdefault("prec", bits(.25))
    return m


def factor(rng, spec, n):
    """spec: per attribute (state of the data, state of the indices), which vary independently."""
    m = {"c": []}
    for (k, kt), (d, t) in zip(OF.items(), spec):
        ln = 0 if d == "empty" else rng.randrange(1, n + 1)
        if d != "absent":
            m[k] = data(rng, k, ln, d == "fault")
        if t != "absent":
            cnt = 0 if t == "empty" or not ln and t == "ok" else rng.randrange(1, n + 1)
            m[kt] = idx(rng, ln, cnt, t == "fault")
    return m


FACTORS = list(itertools.product(["absent", "empty", "ok", "fault"], ["absent", "empty", "ok", "fault"]))


def large(rng, n, k):
    """A long array, with one fault at the first, the last or any place, or none."""
    unit = [[bits(1.0), 0, 0], [0, bits(-1.0), 0]]
    d = {"v": [[1, 2, 3]], "t": [[1, 2, 3, 4]], "u": [[0, bits(1.0)], [bits(.5), 0]], "n": unit}[k]
    m = {"c": [], k: [list(d[i % len(d)]) for i in range(n)], OF[k]: [(i * 7) % n for i in range(n)] if rng.random() < .5 else
         [rng.choice([0, 1, n - 1, n - 2, n // 2, rng.randrange(n)]) for _ in range(rng.choice([1, 3, 100]))]}
    at, what = rng.choice([0, n - 1, rng.randrange(n)]), rng.choice(["none", "none", "index", "value"])
    if what == "index":
        m[OF[k]][rng.choice([0, -1])] = rng.choice([n, n + 1, gen.U32])
    elif what == "value" and k in "nu":
        m[k][at] = [bits(2.0)] + m[k][at][1:]
    return m


def scenario(m):
    return {"ops": [{"op": "mesh", "m": "a", "mesh": m}, {"op": "verify", "m": "a"}, {"op": "snap", "m": "a", "names": ["c"]}]}


def run(chk):
    rng = random.Random(core.seed() * 7919 + 8)
    deep = chk.tier == "thorough"
    chk.build()
    meshes.layouts(chk, ["v", "u"], emit=False)
    scen = []
    kinds = ["ok", "absent", "nodata", "index", "value", "empty", "both", "noidx"]
    for combo in itertools.product(kinds, repeat=3):
        for i in range(3 if not deep else 30):
            scen.append(scenario(mesh(rng, combo + (rng.choice(kinds),), rng.choice([1, 3, 10]))))
    # One attribute at fault, every place of the fault
    for k in (0, 1, 2):
        for f in ("index", "value"):
            for i in range(60 if not deep else 1000):
                c = ["ok"] * 4
                c[k] = f
                scen.append(scenario(mesh(rng, c, rng.choice([1, 2, 9, 40]))))
    # What is wrong in one attribute, with every combination of what others have
    for f in FACTORS:
        for at in range(4):
            for i in range(6 if not deep else 100):
                rest = [rng.choice(FACTORS) if rng.random() < .3 else rng.choice([("absent", "absent"), ("ok", "ok"), ("ok", "absent")]) for _ in range(4)]
                rest[at] = f
                scen.append(scenario(factor(rng, rest, rng.choice([1, 2, 5, 20]))))
    for f, g in itertools.product(FACTORS, FACTORS):
        for i in range(2 if not deep else 20):
            rest = [("ok", "ok")] * 4
            a, b = rng.sample(range(4), 2)
            rest[a], rest[b] = f, g
            scen.append(scenario(factor(rng, rest, 3)))
    # Every kind of uv, every length of normals around the bounds
    for x in UVS:
        for y in UVS:
            scen.append(scenario({"u": [[bits(.5), bits(.5)], [x, y]]}))
    for i in range(300 if not deep else 6000):
        v = gen.unit(rng)
        f = rng.choice([.999, 1.001]) + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -3)
        scen.append(scenario({"n": [gen.b3(v), gen.b3([x * f for x in v])]}))
    meshes.check(chk, scen, chunk=6000)
    sizes = [255, 257, 4097, 65535, 65536, 65537] if not deep else [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536,
                                                                    65537, 131073, 200000] * 3
    meshes.check(chk, [scenario(large(rng, n, k)) for n in sizes for k in "vnut"], full=4, tag="large")
