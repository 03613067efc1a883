"""C25: saves that do not fit the format are refused, never silently altered."""
import random
from . import core, gen, files


def run(chk):
    rng = random.Random(core.seed() * 7919 + 25)
    deep = chk.tier == "thorough"
    chk.build()
    files.file_model(chk, 1, 1)
    scen = []
    # Names around the limit: text and number of its repetitions
    for t in ["a", "ab", "é", "€", "𝔘", "abc"]:
        k = len(t.encode())
        for n in sorted({65535 // k - 1, 65535 // k, 65535 // k + 1, 65536 // k + 1, 2 * (65536 // k), 131071 // k, 255 // k,
                         256 // k, 257 // k, 70000 // k}):
            for lst in ([["a", [t, n]]], [["a", "x"], ["a", [t, n]], ["a", "y"]]):
                m = {"v": [gen.b3((0, 1, 2))], "vt": [0, 0, 0]}
                scen.append({"fits": n * k <= 65535, "ops": [
                    {"op": "mesh", "m": "a", "mesh": m},
                    {"op": "save", "list": lst, "out": "f", "one": len(lst) == 1 and n % 2 == 0},
                    {"op": "load", "src": "f"}]})
    # Ordinary meshes: success means that everything is there
    for i in range(400 if not deep else 4000):
        k = rng.choice([0, 1, 2, 4])
        ops, lst = [], []
        names = set()
        for j in range(k):
            m = gen.mesh(rng, rng.choice([1, 5, 20]), valid=False)
            if rng.random() < .3:
                m.update(gen.index_mesh(rng, lambda: rng.randrange(90)))
            names |= {c["name"] for c in m.get("c") or []}
            ops.append({"op": "mesh", "m": "a%d" % j, "mesh": m})
            lst.append(["a%d" % j, rng.choice(gen.NAMES)])
        ops += [{"op": "save", "list": lst, "prec": gen.prec(rng), "out": "f"},
                {"op": "load", "src": "f", "names": sorted(names)}]
        scen.append({"ops": ops})
    # Index arrays which split into many segments
    for parts in (10, 300) if not deep else (10, 300, 3000):
        a = []
        for i in range(parts):
            a += [rng.randrange(2) + (2 ** 31 if i % 2 else 0) for _ in range(12)]
        scen.append({"ops": [{"op": "mesh", "m": "a", "mesh": {"vt": a, "nt": a, "ut": a, "tt": a}},
                             {"op": "save", "list": [["a", "m"]], "out": "f"}, {"op": "load", "src": "f"}]})
    # Meshes: as many as are saved
    for n in (255, 256, 257, 65535, 65536, 65537, 70000) if not deep else (255, 256, 257, 4096, 65535, 65536, 65537, 70000, 131073):
        m = rng.choice([{}, {"vt": [1]}, {"n": []}])
        scen.append({"ops": [{"op": "mesh", "m": "a", "mesh": m}, {"op": "mesh", "m": "b", "mesh": {"vt": [2, 3]}},
                             {"op": "save", "list": [["a", ""]] * (n - 1) + [["b", "z"]], "out": "f", "bytes": False}, {"op": "load", "src": "f"}]})
    files.check(chk, scen, full=2)
    # Segments around the limit: the arrays are looked up at random and counted by the lookups
    scen = []
    for n, extra in [(65535, False), (65536, False), (65534, True), (65535, True), (65533, True), (65000, False), (66000, False)]:
        probe = ["p0", "p1", "p255", "p256", "p%d" % (n // 2), "p%d" % (n - 2), "p%d" % (n - 1), "p%d" % n]
        ops = [{"op": "mesh", "m": "a", "mesh": {"vt": [1, 2, 3]} if extra else {}},
               {"op": "many_custom", "m": "a", "prefix": "p", "n": n},
               {"op": "save", "list": [["a", "m"], ["a", "z"]] if n == 65000 else [["a", "m"]], "out": "f", "bytes": False},
               {"op": "load", "src": "f", "names": probe}]
        scen.append({"fits": n + extra <= 65535, "ops": ops})
    for v in ("std", "full"):
        scen = scen if v == "std" or deep else scen[:4]
        chk.runners[v].timeout = 200        # the time to save grows with the square of the number of segments
        res = chk.runners[v].run(scen, "many" + v, shards=len(scen))
        E = files.Episodes()
        eps = []
        for s, r in zip(scen, res):
            n, names = s["ops"][1]["n"], s["ops"][3]["names"]
            e = E.episode(s, r)
            # What was added, as far as the probes see it
            for x in e["ev"]:
                if x["op"] == "save":
                    for m in x["meshes"]:
                        m["c"] = [{"name": files.name_text_token(p), "kind": "index", "n": 1, "a": [int(p[1:])]}
                                  for p in dict.fromkeys(names) if int(p[1:]) < n]
            eps.append(e)
        chk.validate("TmfTrace", eps, scen, variant=v, tag="many")
