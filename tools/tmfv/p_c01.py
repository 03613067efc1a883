"""C01: triangle index arrays survive a save and load exactly."""
import random
from . import core, gen, files


def run(chk):
    rng = random.Random(core.seed() * 7919 + 1)
    deep = chk.tier == "thorough"
    chk.build()
    chk.model("SplitMC", "INIT Init\nNEXT Next\nINVARIANTS Rejoined\nCHECK_DEADLOCK FALSE\n"
              "CONSTANTS MaxLen = %d Values = {%s}\n" % ((2, "0, 1, 5") if not deep else (3, "0, 1, 5")))
    scen = []

    def add(m, prec=None):
        op = {"op": "save", "list": [["a", "m"]], "out": "f"}
        if prec:
            op["prec"] = prec
        scen.append({"ops": [{"op": "mesh", "m": "a", "mesh": m}, op, {"op": "load", "src": "f"}]})
    # Every width with every alignment to it, bounds of widths, one attribute at a time
    keys = ["vt", "nt", "ut", "tt"]
    for w in range(33):
        for base in (0, 1, 1000, 2 ** 31):
            lo = base
            hi = min(gen.U32, base + (1 << w) - 1)
            for n in (1, 2, 3, 7, 8, 9, 33):
                a = [rng.choice([lo, hi, rng.randrange(lo, hi + 1)]) for _ in range(n)]
                a[0] = lo
                a[-1] = hi
                add({keys[(w + n) % 4]: a})
    # Equal arrays in every combination of attributes
    for mask in range(16):
        for same in range(16):
            a, b = gen.indices(rng, 12), gen.indices(rng, 12)
            add({k: (a if same >> i & 1 else b) for i, k in enumerate(keys) if mask >> i & 1})
            add({k: (a if same >> i & 1 else []) for i, k in enumerate(keys) if mask >> i & 1})
    for shape in range(10):
        for i in range(40 if not deep else 300):
            n = rng.choice([1, 2, 5, 20, 60, 150])
            a = gen.indices(rng, n, shape=shape)
            add({keys[i % 4]: a})
    for i in range(500 if not deep else 8000):
        lens = rng.choice([(0, 4), (1, 30), (20, 200)])
        m = gen.index_mesh(rng, lambda: rng.randrange(*lens), rng.choice([3, 20, 255, 70000, gen.U32]))
        if rng.random() < .3:
            m["v"] = [gen.b3([rng.uniform(-9, 9) for _ in range(3)]) for _ in range(rng.randrange(0, 9))]
            m["n"] = [gen.b3(gen.unit(rng)) for _ in range(rng.randrange(0, 9))]
        add(m, gen.prec(rng))
    # Long arrays
    for n in (1000, 5000, 20000) if not deep else (1000, 5000, 20000, 70000, 131073):
        for shape in (0, 2, 4, 5, 8):
            a = gen.indices(rng, n, shape=shape)
            add({"vt": a, "nt": a if n % 3 else a[:-1]})
    # Long arrays which are split, at places around every power of two a counter might have
    for n in gen.LONG if not deep else gen.LONG + [262145, 1048577, 3000000]:
        for k in range(3 if not deep else 6):
            top = rng.choice([3, 255, 256])
            head = gen.cycled(rng, [rng.randrange(top) for _ in range(rng.choice([3, 50]))], n)
            tail = [rng.randrange(1 << 20, 1 << rng.choice([21, 24, 32])) for _ in range(50)]
            a = head + gen.cycled(rng, tail, rng.choice([1, 7, n // 2, n]))
            if k == 2:
                a += head
            add({keys[k % 4]: a, keys[(k + 1) % 4]: rng.choice([a, a[:-1], head, a[::-1]])})
    for v in ("std", "full"):
        part = scen if v == "std" or deep else scen[::3]
        res = chk.runners[v].run(part, v)
        E = files.Episodes()
        eps = [E.episode(s, r) for s, r in zip(part, res)]
        if v == "std":
            chk.sample(eps[0])
            chk.sample(eps[-30])
        chk.validate("TmfTrace", eps, part, variant=v)
