"""C26: exporting .obj refuses exactly what is no list of triangle meshes."""
import random
from . import core, gen, objs
from .p_c18 import NAMES, fbits, mesh as triangles, scenario

LENS = [None, 0, 1, 2, 3, 4, 5, 6, 7]


def lengths(rng, vt, nt, ut, data=None):
    """A mesh with index arrays of these lengths, None for those that are not there."""
    m = {}
    for k, kt, w, n in (("v", "vt", 3, vt), ("n", "nt", 3, nt), ("u", "ut", 2, ut)):
        if n is None and rng.random() < .5:
            continue
        cnt = rng.randrange(1, 5)
        m[k] = [[fbits(rng) for _ in range(w)] for _ in range(cnt)]
        if n is not None:
            m[kt] = [rng.randrange(cnt) for _ in range(n)]
    if rng.random() < .2:      # tangents, which .obj has not, of any length
        m["t"] = [gen.b3(gen.unit(rng)) + [0x3f800000]]
        m["tt"] = [0] * rng.randrange(8)
    return m


def near(rng, n):
    """Lengths which are about the same."""
    one = lambda: rng.choice([n] * 5 + [n + 1, n + 3, max(0, n - 1), max(0, n - 3), 0])
    return [x if rng.random() < .8 else None for x in (one(), one(), one())]


def run(chk):
    rng = random.Random(core.seed() * 7919 + 26)
    deep = chk.tier == "thorough"
    chk.build()
    chk.model("ObjMC", "INIT Init\nNEXT Next\nINVARIANTS Sound WriteRead Refused Writable\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLines = 0 MaxMeshes = %d Emit = FALSE\n" % (
        1 if not deep else 2), heap="12g")
    scen = []
    # All combinations of short arrays: alone, in front of and behind a good mesh
    for vt in LENS:
        for nt in LENS:
            for ut in LENS:
                m = lambda: (lengths(rng, vt, nt, ut), rng.choice(NAMES))
                good = lambda: (triangles(rng, 4, faces=True), rng.choice(NAMES))
                for i in range(1 if not deep else 3):
                    scen.append(scenario([m()], True))
                    scen.append(scenario(rng.choice([lambda: [m()], lambda: [m(), good()], lambda: [good(), m()], lambda: [good(), m(), good()]])()))
    # Longer ones, in longer lists of which few are odd
    for i in range(500 if not deep else 12000):
        k = rng.choice([1, 1, 2, 4, 8])
        odd = rng.randrange(k) if rng.random() < .7 else None
        ms = []
        for j in range(k):
            n = 3 * rng.choice([0, 1, 2, 3, 5, 20]) + (rng.choice([0, 0, 1, 2]) if j == odd else 0)
            ms.append((lengths(rng, *near(rng, n)) if j == odd else triangles(rng, 6), rng.choice(NAMES)))
        scen.append(scenario(ms, k == 1 and rng.random() < .5))
    objs.check(chk, scen, chunk=3000)
    # Arrays of many lengths, with another remainder or with arrays that differ
    scen = []
    for n in (255, 256, 257, 999, 1024, 1025, 4096, 65535, 65536, 65537) if not deep else (255, 256, 257, 511, 512, 513, 999, 1024, 1025, 2048, 4096, 4097, 9999, 16384, 32768, 65535, 65536, 65537, 99999, 100001) * 4:
        for d in ((0, 0, 0), (1, 1, 1), (0, 3, 0), (0, 0, -3)):
            n3 = n // 3 * 3 + (n % 3 if d[0] else 0)
            a = [n3 + x for x in d]
            if rng.random() < .4:
                a[rng.choice([1, 2])] = None
            scen.append(dict(scenario([(lengths(rng, *a), "big")], rng.random() < .5), longest=100000))
    objs.check(chk, scen, tag="large", full=1, chunk=20)
