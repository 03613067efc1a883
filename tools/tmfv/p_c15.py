"""C15 and C16: unifying and reordering change the layout only."""
import random
from . import core, gen, meshes
from .num import bits
from .p_c17 import ELEM, elems, OF
from .meshes import DATA, IDX


def mesh(rng, n):
    """In-range indices; arrays equal, nearly equal and unrelated, of equal or different lengths, some without data."""
    m, pool = {}, {}
    corners = rng.choice([0, 1, 3, 6, n])
    arrays = []
    for k, kt in OF.items():
        c = rng.random()
        if c < .18:
            continue
        cnt = 0 if rng.random() < .12 else rng.choice([1, 2, 3, 5, n])
        if c < .9:
            m[k] = elems(rng, k, cnt, pool)
            if rng.random() < .3 and cnt:        # equal values under different indices
                m[k] += [m[k][rng.randrange(cnt)] for _ in range(rng.randrange(cnt + 1))]
                cnt = len(m[k])
        if rng.random() < .15:
            continue
        if k in m and cnt == 0:
            m[kt] = []
            continue
        top = cnt if k in m else n
        fit = [a for a in arrays if all(i < top for i in a)]
        if fit and rng.random() < .5:
            a = list(rng.choice(fit))
            if a and rng.random() < .3:
                a[rng.randrange(len(a))] = rng.randrange(top)
        else:
            ln = corners if rng.random() < .93 else rng.choice([0, corners + 1, corners + 3, max(0, corners - 1)])
            few = rng.randrange(1, top + 1)
            a = [rng.randrange(few) if rng.random() < .7 else rng.randrange(top) for _ in range(ln)]
        arrays.append(a)
        m[kt] = a
    m["c"] = [gen.custom_data(rng, rng.choice("abc"), 5) for _ in range(rng.randrange(3))]
    for c in m["c"]:
        c.setdefault("max", 5) if c["kind"] in ("index", "int") else c.setdefault("prec", bits(.25))
    return m


def correlated(rng, n):
    """Corners which often differ in a single attribute only: what distinguishes combinations."""
    used = rng.choice([["v", "n", "u", "t"], ["v", "n", "u", "t"], ["v", "n", "u"], ["v", "t"], ["n", "u", "t"], ["v", "u", "t"]])
    m, pool = {}, {}
    low = rng.choice([0, 0, 1])             # are first elements used?
    cnt = {k: low + rng.choice([1, 2, 3, n]) for k in used}
    for k in used:
        m[k] = elems(rng, k, cnt[k], pool)
    protos = [{k: rng.randrange(low, cnt[k]) for k in used} for _ in range(rng.choice([1, 2, 5]))]
    cs = []
    for _ in range(rng.choice([2, 3, 6, 3 * n])):
        c = dict(rng.choice(protos))
        if rng.random() < .5:
            k = rng.choice(used)
            c[k] = rng.randrange(low, cnt[k])
        cs.append(c)
    for k in used:
        m[OF[k]] = [c[k] for c in cs]
    m["c"] = []
    return m


def large(rng, n, main):
    """Many combinations and elements: beyond 16 bits, and around powers of two."""
    used = rng.choice([["v", "n"], ["v", "n", "u", "t"], ["u", "t"], ["v", "u"]] if main == "unify" else [["v"], ["n", "u"], ["v", "t"], ["u"]])
    m = {"c": []}
    for j, k in enumerate(used):
        cnt = n if j == 0 else rng.choice([1, 3, 7])
        w = {"v": 3, "n": 3, "u": 2, "t": 4}[k]
        m[k] = [[i] + [j] * (w - 1) for i in range(cnt)]
        a = [i % cnt for i in range(n)]
        if j == 0 and rng.random() < .7:
            a.reverse()
        if j and cnt > 1:
            a[rng.randrange(n)] = 0
        m[OF[k]] = a
    return m


def scenario(m, seq):
    ops = [{"op": "mesh", "m": "a", "mesh": m}]
    for i, o in enumerate(seq):
        ops += [{"op": o, "m": "a", "again": i > 0 and seq[i - 1] == o}, {"op": "snap", "m": "a", "names": ["a", "b", "c", "d"]}]
    return {"ops": ops}


def run(chk, main="unify", other="reorder", salt=15):
    rng = random.Random(core.seed() * 7919 + salt)
    deep = chk.tier == "thorough"
    chk.build()
    scen = []
    used = [["v", "n", "u"], ["n", "u", "t"], ["v", "t"]] if not deep else [["v", "n", "u", "t"]]
    for u in used:
        for m in meshes.layouts(chk, u, tag="-" + "".join(u)):
            scen.append(scenario(meshes.concrete(m, ELEM), [main, main]))
    for i in range(900 if not deep else 20000):
        n = rng.choice([1, 4, 4, 12, 12, 40]) if rng.random() < .97 else 300
        scen.append(scenario(mesh(rng, n) if i % 3 else correlated(rng, n), rng.choice([[main, main], [other, main, main], [main, other, main], [main, other, other, main, main]])))
    meshes.check(chk, scen, chunk=6000)
    # Sizes at which numbers take more bits
    meshes.check(chk, [scenario(large(rng, n, main), [main, main]) for n in ([255, 256, 257, 4097, 65536, 70000] if not deep else
                       [255, 256, 257, 4095, 4096, 4097, 8193, 32769, 65535, 65536, 65537, 70000, 100000, 131073, 200000] * 2)], full=2, tag="large")
