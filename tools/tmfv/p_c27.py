"""C27: builds with other types of indices and floats read, write and mean the same files."""
import math, random
from . import core, gen, files, meshes, objs, quants, p_c02, p_c03, p_c04, p_c05, p_c08, p_c15, p_c17, p_c18
from .num import bits, bits64, val
from .p_c23 import saved_values, loaded_values, nice

OTHER = ("short", "wide")
TOP = {"std": gen.U32, "short": 65535, "wide": 2 ** 63 - 1}
LISTS = ("vt", "nt", "ut", "tt")
TOPS = [3, 300, 65534, 65535, 65536, 70000, gen.U32, gen.U32 + 1, 2 ** 33, 2 ** 48 + 1, 2 ** 63 - 1, 2 ** 64 - 1]


def index_lists(m):
    return [m[k] for k in LISTS if m.get(k)] + [c["data"] for c in m.get("c") or [] if c["kind"] in ("index", "int")]


def suit(rng, m, variant):
    """Changes a mesh so that its indices are about those which a build can hold."""
    top = TOP[variant]
    if variant == "wide" and rng.random() < .6:
        shift, low = rng.choice([0, 1, 16, 31, 32, 33, 40, 60]), rng.choice([0, 0, 1, 2 ** 32, 2 ** 40, 2 ** 62])
        for a in index_lists(m):
            if rng.random() < .7:
                a[:] = [min(top, low + (i << shift)) for i in a]
    for a in index_lists(m):
        a[:] = [i if i <= top else i & top for i in a]
    return m


def meshes_of(sc):
    return [op["mesh"] for op in sc["ops"] if op["op"] == "mesh"]


def held(sc, variant):
    return all(i <= TOP[variant] for m in meshes_of(sc) for a in index_lists(m) for i in a)


def writing(rng, variant):
    k = rng.choice([0, 1, 1, 1, 2, 4])
    ops, lst = [], []
    for j in range(k):
        m = nice(rng, rng.choice([1, 3, 9, 30]), big=rng.random() < .05)
        if rng.random() < .5:
            m.update(gen.index_mesh(rng, lambda: rng.randrange(50), TOP[variant]))
        ops.append({"op": "mesh", "m": "a%d" % j, "mesh": suit(rng, m, variant)})
        lst.append(["a%d" % j, rng.choice(gen.NAMES)])
    p = gen.prec(rng)
    if rng.random() < .6:
        p["v"] = bits(rng.choice([.5, .25, .1, .125, 1.0]))
    return {"ops": ops + [{"op": "save", "list": lst, "prec": p, "out": "f", "one": len(lst) == 1 and rng.random() < .5},
                          {"op": "load", "src": "f", "names": NAMES}]}


def too_wide(rng):
    """Indices of 64 bits, which have no form in a file."""
    sc = writing(rng, "wide")
    ms = [m for m in meshes_of(sc) if index_lists(m)]
    if ms:
        a = rng.choice(index_lists(rng.choice(ms)))
        if a:
            a[rng.randrange(len(a))] = rng.choice([2 ** 63, 2 ** 63 + 1, 2 ** 64 - 2, 2 ** 64 - 1])
            sc["fits"] = False
            del sc["ops"][-1]
    return sc


NAMES = ["w", "weights", "x" * 255, "ä", ""]


def double(rng, n):
    """Vertices, uvs and custom floats which only double precision can keep apart, for the build which has it."""
    pts = p_c02.points(rng, n)
    u = rng.choice([rng.uniform(.001, 100), 2.0 ** rng.randrange(-60, 40)])
    o = [u * rng.choice([0, 0, 1, -1]) * rng.choice([2 ** 20, 2 ** 32, 2 ** 38]) for _ in range(3)] if math.frexp(u)[0] == .5 else [0, 0, 0]
    tris = p_c02.triangles(rng, len(pts))
    m = {"v": quants.lattice(rng, pts, u, o, bits64)}
    if tris is not None:
        m["vt"] = tris
    p = 2.0 ** -rng.randrange(0, 30) * rng.choice([1, rng.uniform(.5, 1)])
    prec = {"v": bits(p)}
    if rng.random() < .5:
        r, b = rng.choice([1, 1024, 2 ** 20]), rng.randrange(4, 40)
        m["u"] = [[bits64(rng.choice([0.0, 1.0, rng.random()])) for _ in range(2)] for _ in range(n)]
        prec["u"] = [bits(r), bits(r / 2 ** b)]
    if rng.random() < .5:
        p = 2.0 ** -rng.randrange(0, 20)
        lo = rng.choice([0, 1, 1000, -2 ** 30, 2 ** 40]) * p
        m["c"] = [{"name": "w", "kind": "float", "prec": bits(p),
                   "data": [bits64(lo + p * rng.uniform(0, 2 ** rng.choice([1, 5, 12, 18]))) for _ in range(n)]}]
    if rng.random() < .5:
        m.setdefault("c", []).append({"name": "c", "kind": "rgba", "prec": bits(2.0 ** -rng.uniform(4, 34)),
                                      "data": [[bits64(rng.choice([0.0, 1.0, rng.random(), rng.random()])) for _ in range(4)] for _ in range(n)]})
    e = quants.edge2(pts, tris or []) ** .5
    return quants.scenario(m, prec, names=["w", "c"], unit=u, origin=o, off=max(map(abs, o)), edge=e, fine=True)


def directions(rng, n):
    """Normals and tangents at angles which only double precision can keep apart."""
    m, p = {}, {}
    for k in "nt":
        p[k + "_rad"] = bits(2.0 ** -rng.uniform(18, 34))
        if rng.random() < .3:
            p[k + "_rad"] = bits(math.pi / 2 / 2 ** rng.randrange(18, 34))
        m[k] = []
        for _ in range(n):
            v = [rng.gauss(0, 1) * rng.choice([1, 1, 1, 1e-5, 0]) for _ in range(3)]
            l = math.sqrt(sum(x * x for x in v))
            v = [x / l for x in v] if l else [0.0, 0.0, 1.0]
            m[k].append([bits64(x) for x in v] + [bits64(rng.choice([1.0, -1.0]))] * (k == "t"))
    return quants.scenario(m, p, fine_dirs=True)


def values(rng, deep):
    k = 1 if not deep else 10
    out = []
    for i in range(150 * k):
        pts = p_c02.points(rng, rng.choice([1, 2, 3, 4, 8, 25]))
        out.append(p_c02.scenario(rng, pts, p_c02.triangles(rng, len(pts)), rng.choice([.1, .5, 1, .25, .05, .01, .001, rng.uniform(.001, 1)])))
    out += [p_c02.boundary(rng) for i in range(100 * k)]
    out += [p_c02.split(rng) for i in range(20 * k)]
    out += [p_c03.scenario(rng, rng.choice([0, 1, 2, 8, 30])) for i in range(150 * k)]
    out += [p_c04.scenario(rng, rng.choice([0, 1, 2, 8, 30])) for i in range(150 * k)]
    out += [p_c05.scenario(rng, rng.choice([2, 8, 40]), rng.choice([0, 1, 2, 3, 6])) for i in range(200 * k)]
    return out


TOTALS = [(33000, 2), (40000, 2), (50000, 2), (22000, 3), (65530, 1), (65535, 1), (65535, 2)]


def totals(rng, n, k):
    """.obj lists whose meshes are within the limits of short indices, and the list is not."""
    ms = [(p_c18.large(rng, 9, n), "big%d" % i) for i in range(k)] + [(suit(rng, p_c18.mesh(rng, 5, faces=True), "short"), "z")]
    return dict(p_c18.scenario(ms), longest=100000)


def ints_of(op):
    """The index arrays and integers which an operation is given."""
    m = op.get("mesh") or {}
    cs = m.get("c", []) + ([op["c"]] if "c" in op else [])
    return [m[k] for k in LISTS if m.get(k)] + [c["data"] for c in cs if c["kind"] in ("index", "int")] + (
        [op["data"]] if op.get("attr") in LISTS and "data" in op else [])


def outside(rng, n):
    """Uvs in, and barely out of, the range, which only double precision can tell apart."""
    good = [0.0, -0.0, 1.0, 5e-324, 1 - 2.0 ** -53, rng.random()]
    m = {"c": [], "u": [[bits64(rng.choice(good)) for _ in range(2)] for _ in range(n)]}
    if rng.random() < .6:
        m["u"][rng.randrange(n)][rng.randrange(2)] = bits64(rng.choice(
            [1 + 2.0 ** -52, 1 + 2.0 ** -rng.randrange(20, 52), -5e-324, -2.0 ** -rng.randrange(20, 900), 1e300, math.inf, math.nan]))
    if rng.random() < .5:
        m["ut"] = [rng.randrange(n) for _ in range(3)]
    return m


def working(rng, deep, variant):
    """Meshes made, verified, unified and reordered as in the default build."""
    out = []
    kinds = ["ok", "ok", "ok", "absent", "nodata", "index", "value", "empty", "both", "noidx"]
    for i in range(300 if not deep else 5000):
        sc = p_c08.scenario(p_c08.mesh(rng, [rng.choice(kinds) for _ in range(4)], rng.choice([1, 3, 10])))
        for a in [a for op in sc["ops"] for a in ints_of(op)] if variant == "wide" else []:
            far = rng.choice([2 ** 32, 2 ** 33, 2 ** 63, 2 ** 64 - 2 ** 32])
            a[:] = [far + i % 8 if i >= 2 ** 16 and rng.random() < .7 else i for i in a]
        out.append(sc)
    for i in range(400 if not deep else 6000):
        m = p_c15.mesh(rng, rng.choice([1, 4, 4, 12, 40])) if i % 3 else p_c15.correlated(rng, rng.choice([1, 4, 12]))
        out.append(p_c15.scenario(m, rng.choice([["unify", "unify"], ["reorder", "reorder"], ["reorder", "unify"], ["unify", "reorder"]])))
    out += [p_c17.session(rng, rng.choice([5, 20])) for i in range(200 if not deep else 3000)]
    if variant == "wide":
        out += [p_c08.scenario(outside(rng, rng.choice([1, 2, 9]))) for i in range(100 if not deep else 2000)]
    for op in [op for sc in out for op in sc["ops"]] if variant == "short" else []:
        for a in ints_of(op):
            a[:] = [i if i <= 65535 else 65535 - i % 3 for i in a]
    return out


def crowded(rng, n, k):
    """As many elements as an index array of 16 bits can tell apart, and more."""
    out = []
    for a in "vnu":
        sc = p_c08.scenario(p_c08.large(rng, n, a))
        out.append(sc)
    for main in ("unify", "reorder"):
        out.append(p_c15.scenario(p_c15.large(rng, n, main), [main, main]))
    out.append(p_c17.large(rng, n))
    if n == 65536:      # every index in use, and again
        t = list(range(n))
        if k or rng.random() < .5:
            rng.shuffle(t)
        m = {"c": [], "v": [[i, 0, 0] for i in range(n)], "vt": t + [rng.choice(t[-2:]) for _ in range(5)] + [t[-1], t[0], 65535]}
        out.append(p_c15.scenario(m, ["reorder", "reorder"]))
    for op in [op for sc in out for op in sc["ops"]]:
        for a in ints_of(op):
            a[:] = [i if i <= 65535 else i % 65536 for i in a]
    return out


def run(chk):
    rng = random.Random(core.seed() * 7919 + 27)
    deep = chk.tier == "thorough"
    chk.build(["std"])
    other = []
    for v in OTHER:     # the claim is about builds there are
        try:
            b = core.build([v])
        except core.ToolError as e:
            chk.assumptions.append("the %s build does not compile and was not judged: %s" % (v, str(e)[-200:]))
            continue
        chk.runners[v] = core.Runner(b[v], chk.work)
        other.append(v)
    variants = ["std"] + other
    for v in OTHER:
        files.file_model(chk, 1, 1, tag="-" + v, bits=files.BITS[v])
    made = files.file_model(chk, 1 if not deep else 2, 1, emit=True, tag="-emit", bits=64)
    # Files of any origin, read by every build
    scen = [files.raw(d, names=NAMES) for d in made]
    for i in range(500 if not deep else 8000):
        g, d = gen.random_file(rng, n=rng.choice([2, 10, 30]), tops=TOPS)
        scen.append(files.raw(d, names=NAMES))
    # Single values at the limits, in every kind of array
    for old in (False, True):
        for ty in (2, 4, 6, 10, 15, 24, 25):
            for top in TOPS:
                for vals in ([top], [top, 0], [max(0, top - 1), top], [top] * 3):
                    g = gen.FileGen(rng, old)
                    w, need = None, max(v.bit_length() for v in vals)
                    base = 0 if old else rng.choice([0, min(vals)])
                    if need > 63 and base == 0:
                        continue
                    p, marks = g.idx(vals, max(v - base for v in vals).bit_length(), base)
                    if ty in (15, 24):
                        p, marks = g.custom(b"w", (p, marks))
                    elif ty == 25:
                        p = bytes([7]) + p
                    scen.append(files.raw(g.file([(b"m", [(ty, 0, p, [])])]), names=NAMES))
    files.check(chk, scen, read=True, loaded=loaded_values, tag="conv", chunk=3000, variants=variants)
    # Files written by one build, read by itself and by the others
    for v in other:
        scen = [writing(rng, v) for i in range(400 if not deep else 6000)]
        if v == "wide":
            scen += [too_wide(rng) for i in range(60 if not deep else 600)]
        out = files.check(chk, scen, read=True, values=saved_values, tag="write", chunk=2000, variants=[v])
        cross = [files.raw(bytes.fromhex(r["bytes"]), names=NAMES) for s, rs in zip(*out[v]) for r in rs[-2:-1] if r.get("bytes") and s.get("fits", True)]
        files.check(chk, cross, read=True, loaded=loaded_values, tag="from-" + v, chunk=3000,
                    variants=[x for x in variants if x != v])
    out = chk.runners["std"].run([writing(rng, "std") for i in range(300 if not deep else 4000)], "stdwrite")
    cross = [files.raw(bytes.fromhex(r["bytes"]), names=NAMES) for rs in out for r in rs[-2:-1] if r.get("bytes")]
    files.check(chk, cross, read=True, loaded=loaded_values, tag="from-std", chunk=3000, variants=other)
    # The tolerances hold in every build
    scen = values(rng, deep)
    for v in other:
        quants.check(chk, [s for s in scen if held(s, v)], tag="v", chunk=2000, variants=[v])
    if "wide" in other:
        quants.check(chk, [double(rng, rng.choice([1, 2, 4, 8, 25])) for i in range(300 if not deep else 5000)] +
                     [directions(rng, rng.choice([1, 4, 12])) for i in range(120 if not deep else 2000)], tag="d", chunk=2000, variants=["wide"])
    # .obj
    scen = []
    for i in range(300 if not deep else 5000):
        k = rng.choice([0, 1, 1, 1, 2, 3, 5])
        ms = [(p_c18.mesh(rng, rng.choice([1, 2, 3, 8, 25])), rng.choice(p_c18.NAMES)) for _ in range(k)]
        scen.append(p_c18.scenario([(suit(rng, m, "short"), n) for m, n in ms], k == 1 and rng.random() < .3))
    objs.check(chk, scen, tag="obj", chunk=3000, variants=other)
    objs.check(chk, [totals(rng, n, k) for n, k in TOTALS for i in range(1 if not deep else 6)], tag="total", chunk=20, variants=other)
    # Meshes of other builds
    for v in other:
        meshes.check(chk, working(rng, deep, v), tag="ops", chunk=4000, variants=[v])
    big = [s for n in ((65536, 65537, 70000) if not deep else (65534, 65535, 65536, 65537, 70000)) for i in range(1 if not deep else 4) for s in crowded(rng, n, i)]
    for v in other if deep else other[:1]:
        meshes.check(chk, big, tag="crowd", chunk=6, variants=[v])
