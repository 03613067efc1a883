"""C07: a mesh that verifies can be saved, and loads back as one that verifies."""
import random
from . import core, gen, meshes
from .num import bits
from .p_c17 import OF

ODD = [bits(x) for x in (0, -1, 1e-30, 1e30, 1e-7, .001, .1, .5, 1, 2, 100, 3.3)] + [0x7fc00000, 0x7f800000, 0xff800000, 0x80000000]


def prec(rng):
    """Any precision setting, the meaningless ones included."""
    p = gen.prec(rng)
    pick = lambda: rng.choice(ODD) if rng.random() < .5 else bits(10 ** rng.uniform(-6, 3))
    if rng.random() < .5:
        p["v"] = pick()
    if rng.random() < .4:
        p.pop("n_deg", None)
        p[rng.choice(["n_deg", "n_rad"])] = pick()
    if rng.random() < .4:
        p["u"] = [pick(), pick()]
    if rng.random() < .4:
        p.pop("t_rad", None)
        p[rng.choice(["t_deg", "t_rad"])] = pick()
    return p


def coords(rng, n):
    """Points: flat, elongated, equal, far away, tiny, close to each other."""
    c = rng.randrange(8)
    size = 10 ** rng.uniform(-6, 6) if rng.random() < .5 else rng.choice([1, 100])
    off = [rng.choice([0, 0, 1, -1e3, 1e6]) * rng.choice([1, size]) for _ in range(3)]
    scale = [size] * 3
    if c == 0:
        scale[rng.randrange(3)] = 0
    elif c == 1:
        scale = [0, 0, 0]
        scale[rng.randrange(3)] = size
    elif c == 2:
        scale = [0, 0, 0]
    elif c == 3:
        scale = [size * 10 ** rng.uniform(-6, 6) for _ in range(3)]
    lim = 1e15
    out = [gen.b3([max(-lim, min(lim, rng.uniform(-1, 1) * s + o)) for s, o in zip(scale, off)]) for _ in range(n)]
    if c == 4:
        out = [list(rng.choice(out)) for _ in out]
    if c == 5:
        out = [[x if rng.random() < .5 else rng.choice([0, 0x80000000]) for x in e] for e in out]
    return out


def mesh(rng, n):
    m = {}
    for k, kt in OF.items():
        c = rng.random()
        if c < .2:
            continue
        cnt = 0 if rng.random() < .1 else rng.randrange(1, n + 1)
        if k == "v":
            m[k] = coords(rng, cnt)
        elif k == "n":
            m[k] = [gen.b3([x * rng.choice([1, 1, 1.0008, .9992]) for x in gen.unit(rng)]) for _ in range(cnt)]
        elif k == "u":
            m[k] = [[rng.choice([0, bits(1.0), 0x80000000, 1, bits(rng.random())]) for _ in range(2)] for _ in range(cnt)]
        else:
            m[k] = [gen.b3(gen.unit(rng)) + [bits(rng.choice([1.0, -1.0]))] for _ in range(cnt)]
        if c < .35:
            continue
        m[kt] = [] if cnt == 0 else [rng.randrange(cnt) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 6, n]))]
        if m[kt] and rng.random() < .2:
            m[kt] = [m[kt][0]] * len(m[kt])
    m["c"] = [gen.custom_data(rng, rng.choice("abc"), 6) for _ in range(rng.choice([0, 0, 1, 3]))]
    return m


def run(chk):
    rng = random.Random(core.seed() * 7919 + 7)
    deep = chk.tier == "thorough"
    chk.build()
    meshes.layouts(chk, ["v", "u"], emit=False)
    scen = []

    def add(ms, p):
        ops = []
        for i, m in enumerate(ms):
            ops += [{"op": "mesh", "m": "a%d" % i, "mesh": m}, {"op": "verify", "m": "a%d" % i}]
        ops += [{"op": "save", "list": [["a%d" % i, "m%d" % i] for i in range(len(ms))], "prec": p, "out": "f", "bytes": False},
                {"op": "load", "src": "f", "out": "b", "quiet": True}]
        ops += [{"op": "verify", "m": "b%d" % i} for i in range(len(ms))]
        # and once more
        ops += [{"op": "save", "list": [["b%d" % i, "m%d" % i] for i in range(len(ms))], "prec": p, "out": "g", "bytes": False},
                {"op": "load", "src": "g", "out": "d", "quiet": True}]
        ops += [{"op": "verify", "m": "d%d" % i} for i in range(len(ms))]
        scen.append({"ops": ops})
    for i in range(2500 if not deep else 40000):
        add([mesh(rng, rng.choice([1, 3, 8, 8, 30])) for _ in range(rng.choice([1, 1, 1, 2]))], prec(rng))
    # Sizes around those at which vertices are stored in parts
    for i in range(40 if not deep else 400):
        m = mesh(rng, 10)
        far = 10 ** rng.uniform(0, 5)
        m["v"] = ([gen.b3([rng.uniform(-1, 1) for _ in range(3)]) for _ in range(rng.choice([30, 200, 1000]))]
                  + [gen.b3([rng.uniform(-far, far) for _ in range(3)]) for _ in range(rng.choice([1, 5, 200]))])
        m["vt"] = [rng.randrange(len(m["v"])) for _ in range(3 * rng.randrange(1, 4))]
        add([m], {"v": bits(rng.choice([.1, .01, 1]))})
    meshes.check(chk, scen, chunk=5000)
    # Long arrays
    scen = []
    for n in ([257, 1025, 4097, 65537, 70000] if not deep else [255, 257, 1023, 1025, 4097, 8193, 32769, 65535, 65537, 100000, 200000] * 2):
        m = mesh(rng, 5)
        k = rng.choice("vnut")
        base = [e[:] for e in (m.get(k) or [])] or {"v": [[0, 0, 0], [bits(1.0)] * 3], "n": [[bits(1.0), 0, 0]], "u": [[0, bits(1.0)]],
                                                    "t": [[0, bits(1.0), 0, bits(1.0)]]}[k]
        m[k] = [list(base[i % len(base)]) if k != "v" else gen.b3([i % 97, i % 11, i % 3]) for i in range(n)]
        m[OF[k]] = [(i * 3) % n for i in range(n)]
        for kt in OF.values():
            if kt != OF[k] and m.get(kt) and rng.random() < .5:
                m[kt] = [m[kt][i % len(m[kt])] for i in range(n)]
        add([m], {})
    meshes.check(chk, scen, tag="large", full=2)
