"""C06: a file keeps every mesh, its name and its set of attributes."""
import itertools, random
from . import core, gen, files


def scenario(meshes, prec, alone):
    ops, lst = [], []
    for i, (m, n) in enumerate(meshes):
        ops.append({"op": "mesh", "m": "a%d" % i, "mesh": m})
        lst.append(["a%d" % i, n])
    names = sorted({c["name"] for m, _ in meshes for c in m.get("c") or []}) + ["absent", "c"]
    ops.append({"op": "save", "list": lst, "prec": prec, "out": "f"})
    ops.append({"op": "load", "src": "f", "names": names})
    if alone:
        for i, (m, n) in enumerate(meshes):
            ops.append({"op": "save", "list": [lst[i]], "prec": prec, "out": "g", "alone": True})
            ops.append({"op": "load", "src": "g", "names": names, "alone": i + 1})
    return {"ops": ops}


def run(chk):
    rng = random.Random(core.seed() * 7919 + 6)
    deep = chk.tier == "thorough"
    chk.build()
    files.file_model(chk, 1, 2)
    scen = []
    # Every set of attributes; empty or not
    keys = ["v", "n", "u", "t", "vt", "nt", "ut", "tt"]
    full = {"v": [gen.b3((0, 0, 0)), gen.b3((1, 2, 3)), gen.b3((1, 0, 3))], "n": [gen.b3((0, 0, 1))],
            "u": [[0, 0]], "t": [gen.b3((1, 0, 0)) + [gen.bits(-1.0)]],
            "vt": [0, 1, 2], "nt": [0, 0, 0], "ut": [0, 0, 0], "tt": [0, 0, 0]}
    for mask in range(256):
        m = {k: full[k] for i, k in enumerate(keys) if mask >> i & 1}
        scen.append(scenario([(m, "m%d" % mask)], {}, False))
        scen.append(scenario([({k: [] if rng.random() < .5 else v for k, v in m.items()}, "")], {}, False))
        if mask % 5 == 0:
            m = dict(m, c=[gen.custom_data(rng, "c%d" % (i % 3), 4) for i in range(4)])
            scen.append(scenario([(m, "x"), ({}, "x"), (m, "x")], {}, True))
    names = gen.NAMES + [["é", 32767], ["n", 65535], "TMF", "\n", "\ufeff", "\U0010ffff", "\u0800"]
    for i in range(350 if not deep else 4000):
        k = rng.choice([0, 1, 2, 2, 3, 5, 20])
        ms = [(gen.mesh(rng, rng.choice([1, 3, 10]), valid=rng.random() < .7), rng.choice(names)) for _ in range(k)]
        scen.append(scenario(ms, gen.prec(rng), rng.random() < .6))
    # Empty meshes at any place
    one = {"v": full["v"], "vt": full["vt"]}
    for k in range(1, 5):
        for mask in range(1 << k):
            ms = [(one if mask >> i & 1 else {}, rng.choice(["", "e%d" % i, "x"])) for i in range(k)]
            scen.append(scenario(ms, {}, mask % 3 == 0))
    # Names of every length
    lens = list(range(0, 530)) + sorted({min(65535, (1 << k) * j + d) for k in range(9, 17) for j in (1, 3) for d in (-1, 0, 1) if (1 << k) * j + d < 65537})
    for i in range(0, len(lens), 40):
        scen.append(scenario([({} if rng.random() < .7 else one, ["n", n]) for n in lens[i:i + 40]], {}, False))
    for i in range(0, 530, 60):
        scen.append(scenario([({} if rng.random() < .7 else one, [rng.choice("éࠀ𐀀"), n]) for n in range(i + rng.randrange(3), i + 60, 3)], {}, False))
    # Meshes of very different sizes and densities in one file, each as if it were alone
    for i in range(60 if not deep else 500):
        p, ms = gen.prec(rng), []
        for j in range(rng.choice([2, 2, 3, 5])):
            k, size, at = rng.randrange(3, 9), 10 ** rng.uniform(-3, 3), rng.choice([0, 0, 50])
            vs = [gen.b3([size * (at + rng.uniform(-1, 1)) for _ in range(3)]) for _ in range(k)]
            m = {"v": vs, "vt": [x for f in range(3 * k // 3) for x in rng.sample(range(k), 3)]}
            if rng.random() < .5:
                m["u"] = [[gen.bits(rng.random()), gen.bits(rng.random())] for _ in range(rng.choice([1, 4, 30]))]
                m["ut"] = [rng.randrange(len(m["u"])) for _ in range(rng.choice([3, 6, 300]))]
            if rng.random() < .3:
                m["n"] = [gen.b3(rng.choice([(0, 0, 1), (1, 0, 0), (.6, .8, 0)])) for _ in range(rng.choice([1, 7]))]
                m["nt"] = [rng.randrange(len(m["n"])) for _ in range(6)]
            if rng.random() < .4:
                m["c"] = [gen.custom_data(rng, "c", 4)]
            ms.append((m, "m%d" % j))
        scen.append(scenario(ms, rng.choice([p, {}]), True))
    # Many custom arrays, large arrays
    for n in (254, 255, 256, 257, 700) if not deep else (255, 256, 257, 3000, 20000):
        m = dict(one, c=[{"name": "c%d" % i, "kind": "int", "data": [i]} for i in range(n)])
        scen.append(scenario([(m, "many"), (one, "next")], {}, False))
    for n in (4097, 65535, 65536, 70000):
        big = {"v": full["v"] * (n // 3), "vt": gen.cycled(rng, [0, 1, 2], n), "nt": gen.cycled(rng, [0, 1, 2], n, [1 << 20] * 9)}
        scen.append(scenario([({}, ""), (big, "big"), ({}, "x"), (one, "next")], {}, False))
    # Many meshes
    for k in (100, 300) if not deep else (100, 1000, 3000):
        scen.append(scenario([(gen.mesh(rng, 2, custom=1), "n%d" % i) for i in range(k)], {}, False))
    files.check(chk, scen, chunk=1500)
