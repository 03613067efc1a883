"""C28: a saved file spends no more bits than its values and its precision ask for."""
import math, random
from . import core, gen, files, p_c23
from .num import bits, val, fix

K, Q = p_c23.K, p_c23.Q


def mant(x):
    """x as mantissa in 2048..4095 and exponent, rounded down."""
    m, e = math.frexp(x)
    return [math.floor(m * 4096), e - 12]


def most(x, least=1):
    """Bits which make steps of 1/x; of doubtful cases the wider."""
    return max(least, min(63, math.ceil(math.log2(x) + 1e-4)))


def values(m, mesh, op):
    p_c23.saved_values(m, mesh, op)
    p = op.get("prec", {})
    pv = val(p["v"]) if "v" in p else .1
    m["vinc"] = mant(pv * p_c23.shortest(mesh) * 2 ** K * .9999)
    for a in "nt":
        rad = val(p[a + "_rad"]) if a + "_rad" in p else math.radians(val(p[a + "_deg"]) if a + "_deg" in p else 1.0)
        m[a + "most"] = most(math.pi / 2 / rad)
    res, px = [val(b) for b in p["u"]] if "u" in p else (1024, .1)
    m["umost"] = most(res / px, 0)
    for c, j in zip(m["c"], mesh.get("c") or []):
        pr = val(j["prec"]) if "prec" in j else .01
        c["asked"] = (j.get("max") or 0).bit_length()
        c["inc"] = mant(pr * 2 ** K * .9999) if c["kind"] == "float" else [0, 0]
        c["most"] = most(1 / min(pr, 1)) if c["kind"] == "rgba" else 0


def run(chk):
    rng = random.Random(core.seed() * 7919 + 28)
    deep = chk.tier == "thorough"
    chk.build()
    chk.model("CompactMC", "INIT Init\nNEXT Next\nINVARIANTS Enough NotLess\nCHECK_DEADLOCK FALSE\n"
              "CONSTANTS Top = %d MaxLen = %d IdxBits = 32\n" % ((4, 3) if not deep else (8, 4)))
    scen = []
    for i in range(1500 if not deep else 15000):
        k = rng.choice([1, 1, 1, 2, 4])
        ops, lst = [], []
        for j in range(k):
            m = p_c23.nice(rng, rng.choice([1, 3, 9, 30]), big=rng.random() < .05)
            if rng.random() < .5:
                top = rng.choice([1, 2, 3, 8, 50, 255, 256, 65535, 70000, 2 ** 31, 2 ** 32])
                lo = rng.choice([0, 0, 0, 1, 2, 255, 70000])
                m.update({x: [i + lo for i in a] if top < 2 ** 31 else a
                          for x, a in gen.index_mesh(rng, lambda: rng.randrange(50), min(top, 2 ** 32 - 1)).items()})
            same = [x for x in ("vt", "nt", "ut", "tt") if rng.random() < .5]
            if rng.random() < .4 and same and m.get(same[0]) is not None:     # equal arrays
                for x in same:
                    m[x] = m[same[0]]
            if rng.random() < .1:       # worth splitting
                a = [rng.randrange(rng.choice([2, 3, 9])) for _ in range(rng.randrange(30, 300))]
                b = [rng.randrange(2 ** 20) for _ in range(rng.randrange(1, 90))]
                m[rng.choice(["vt", "nt", "ut", "tt"])] = a + b if rng.random() < .7 else b + a
            ops.append({"op": "mesh", "m": "a%d" % j, "mesh": m})
            lst.append(["a%d" % j, rng.choice(gen.NAMES)])
        p = gen.prec(rng)
        if rng.random() < .6:
            p["v"] = bits(rng.choice([.5, .25, .1, .125, 1.0]))
        ops += [{"op": "save", "list": lst, "prec": p, "one": len(lst) == 1 and rng.random() < .5}]
        scen.append({"ops": ops})
    # Long arrays, some of them equal
    for i in range(24 if not deep else 150):
        n = rng.choice([255, 256, 257, 1000, 3000, 4096] + ([20000] if i < 2 or deep else []))
        m, pool = {}, []
        for x in ("vt", "nt", "ut", "tt"):
            c = rng.randrange(4)
            if c == 0 and pool:
                m[x] = rng.choice(pool)
            elif c < 3:
                top, lo = rng.choice([1, 7, 255, 256, 65535, n]), rng.choice([0, 0, 1, 300])
                m[x] = [lo + rng.randrange(top + 1) for _ in range(n)]
                if pool and rng.random() < .3:      # nearly equal
                    m[x] = list(pool[-1])
                    m[x][rng.choice([0, n - 1, n // 2])] ^= 1
                pool.append(m[x])
        if rng.random() < .5:
            d = m.get("vt") or [rng.randrange(9) for _ in range(n)]
            m["c"] = [{"name": "c", "kind": rng.choice(["index", "int"]), "data": d, "max": rng.choice([0, max(d), 2 * max(d)])}]
        scen.append({"ops": [{"op": "mesh", "m": "a", "mesh": m}, {"op": "save", "list": [["a", "long"]], "prec": {}, "one": False}]})
    files.check(chk, scen, read=True, values=values, chunk=2000)
