"""C18: exporting to .obj and importing again keeps the geometry."""
import random
from . import core, gen, objs
from .num import bits

NAMES = ["", "a", "cube 1", "žluťoučký kůň", "#x", "o", "f 1 2 3", "v", "a\tb", "x" * 300, "𝔘", "a#b", "a/b", "a  b", "1", "\"q\"", "back\\slash", "g x"]


def fbits(rng):
    c = rng.randrange(12)
    if c == 0:
        return rng.choice([0, 0x80000000, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, bits(1e-45), bits(16777217), bits(.1)])
    if c < 4:
        b = rng.getrandbits(32)
        return b if (b >> 23) & 255 != 255 else bits(1.0)
    return bits(rng.choice([rng.uniform(-1, 1), rng.uniform(-1000, 1000), rng.randrange(-50, 50), rng.gauss(0, 1e6)]))


def mesh(rng, n, faces=None):
    m = {}
    faces = rng.random() < .8 if faces is None else faces
    corners = 3 * rng.randrange(1, n + 1) if faces else 0
    for k, kt, w, p in (("v", "vt", 3, .95), ("n", "nt", 3, .6), ("u", "ut", 2, .6)):
        if rng.random() >= p and not (k == "v" and faces):
            continue
        cnt = rng.randrange(1, n + 1)
        m[k] = [[fbits(rng) for _ in range(w)] for _ in range(cnt)]
        if corners and (k == "v" or rng.random() < .85):
            lo = rng.randrange(cnt) if rng.random() < .3 else 0       # unused elements in front
            m[kt] = [rng.randrange(lo, cnt) for _ in range(corners)]
        elif not corners and rng.random() < .3 and (k == "v" or "vt" in m):
            m[kt] = []
    if rng.random() < .2:
        m["t"], m["c"] = [gen.b3(gen.unit(rng)) + [bits(1.0)]], [gen.custom_data(rng, "c", 3)]
    return m


def large(rng, n, cnt):
    """Many elements and corners; the numbers grow longer in the text."""
    m = {"v": [[bits(float(i)), bits(-i / 4), bits(1e-3)] for i in range(cnt)], "vt": [(i * 5) % cnt for i in range(3 * (n // 3))]}
    k = len(m["vt"])
    if rng.random() < .6:
        m["n"] = [[0, bits(1.0), bits(float(i))] for i in range(rng.choice([1, cnt, cnt // 2 + 1]))]
        m["nt"] = [(k - i) % len(m["n"]) for i in range(k)]
    if rng.random() < .6:
        m["u"] = [[bits(1.0), bits(1 / (i + 1))] for i in range(rng.choice([1, cnt, cnt // 2 + 1]))]
        m["ut"] = [(i * 3) % len(m["u"]) for i in range(k)]
    return m


def scenario(ms, one=False):
    ops = [{"op": "mesh", "m": "a%d" % i, "mesh": m} for i, (m, n) in enumerate(ms)]
    ops += [{"op": "obj_save", "list": [["a%d" % i, n] for i, (m, n) in enumerate(ms)], "out": "f", "one": one},
            {"op": "obj_load", "src": "f"}]
    return {"ops": ops}


def run(chk):
    rng = random.Random(core.seed() * 7919 + 18)
    deep = chk.tier == "thorough"
    chk.build()
    chk.model("ObjMC", "INIT Init\nNEXT Next\nINVARIANTS Sound WriteRead\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLines = 0 MaxMeshes = %d Emit = FALSE\n" % (
        2 if not deep else 3), heap="12g")
    scen = []
    for i in range(900 if not deep else 15000):
        k = rng.choice([0, 1, 1, 1, 2, 3, 5])
        ms = [(mesh(rng, rng.choice([1, 2, 3, 8, 8, 25]) if rng.random() < .98 else 300), rng.choice(NAMES)) for _ in range(k)]
        scen.append(scenario(ms, k == 1 and rng.random() < .3))
    # Meshes without triangles in every place
    for pat in range(1, 16):
        for i in range(6 if not deep else 60):
            ms = [(mesh(rng, 4, faces=bool(pat >> j & 1)), "m%d" % j) for j in range(4)]
            scen.append(scenario(ms))
    # Meshes of the general kind, most of which writing may refuse: no panics where they are triangle meshes
    for i in range(200 if not deep else 3000):
        ms = [(gen.mesh(rng, 6), "m%d" % j) for j in range(rng.choice([1, 2]))]
        scen.append(scenario(ms))
    objs.check(chk, scen, chunk=3000)
    # Sizes at which indices get longer, in lists
    scen = []
    for n in (9, 10, 99, 100, 255, 256, 257, 1000, 9999, 10001, 65537) if not deep else (9, 10, 99, 100, 255, 256, 257, 1000, 9999, 10001, 65535, 65536, 65537, 99999, 100001, 200000) * 3:
        ms = [(large(rng, rng.choice([9, n]), n), rng.choice(NAMES)), (large(rng, n, rng.choice([3, n])), rng.choice(NAMES)), (mesh(rng, 5), "z")]
        scen.append(dict(scenario(ms[:rng.choice([1, 2, 3])]), longest=100000))
    for k in (100, 1000) if not deep else (100, 1000, 5000):
        scen.append(dict(scenario([(mesh(rng, 3), rng.choice(NAMES)) for _ in range(k)]), longest=200000))
    objs.check(chk, scen, tag="large", full=1, chunk=20)
