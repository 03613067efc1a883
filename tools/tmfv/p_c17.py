"""C17: a mesh holds exactly what was set, appended and added."""
import random
from . import core, gen, meshes
from .num import bits
from .meshes import DATA, IDX

# Elements for the small tokens of the design model
ELEM = {"v": lambda i: [bits(float(i)), bits(i + .5), bits(-float(i))], "n": lambda i: gen.b3([(1, 0, 0), (0, 1, 0), (0, 0, 1)][i % 3]),
        "u": lambda i: [bits(i / 4), bits(1 - i / 4)], "t": lambda i: gen.b3((1, 0, 0)) + [bits(float(1 - 2 * (i % 2)))]}
OF = dict(zip(DATA, IDX))
WORDS = ["a", "b", "ab", "A", "a ", "weights", "žluťoučký", "a\u0000", "\u0000"]
# Names that differ in one place, of the same number of bytes and of another
ALIKE = [["žluťoučký", "žluťoučkí", "žluťoučkýý", "žlutoučký", "zluťoučký"], ["é1", "é2", "éé", "e\u0301", "é"], ["ab", "ac", "bb", "ba", "abc"],
         ["日本語", "日本誤", "月本語", "日本", "日本e"], ["𝔘a", "𝔘b", "𝔙a", "𝔘", "𝔘\u0000"], ["x" * 200 + "a", "x" * 200 + "b", "y" + "x" * 200, "x" * 200, "x" * 100 + "y" + "x" * 100],
         ["é" * 100 + "a", "é" * 100 + "b", "é" * 100 + "à", "é" * 99 + "èa", "é" * 100], ["weights", "Weights", "weight", "weights\u0000", "weightz"]]


def long_name(n):
    return ["x", n]


def replay(seq):
    """The operations of a sequence of the design model, observing everything after each."""
    ops = [{"op": "mesh", "m": "a", "mesh": {}}]
    names = sorted({o["n"] for o in seq if o["op"] == "custom"})
    for i, o in enumerate(seq):
        if o["op"] == "custom":
            ops.append({"op": "custom", "m": "a", "c": {"name": long_name(o["n"]), "kind": "index", "data": [i], "max": 100}})
        elif o["op"] in ("set", "append"):
            k = o["k"]
            d = [ELEM[k](x) if k in DATA else x for x in o["a"]]
            ops.append({"op": o["op"], "m": "a", "attr": k, "data": d})
        else:
            ops.append({"op": o["op"], "m": "a"})
        ops.append({"op": "snap", "m": "a", "names": ["x" * n for n in names]})
        ops += [{"op": "buffer", "m": "a", "attr": k} for k in "vnu" if any(p.get("k", "")[:1] == k for p in seq)]
    return {"ops": ops}


def elems(rng, k, n, pool):
    if k in IDX:
        top = rng.choice([1, 3, 3, gen.U32])
        return [rng.randrange(top + 1) for _ in range(n)]
    out = []
    for _ in range(n):
        if pool.get(k) and rng.random() < .4:
            out.append(rng.choice(pool[k]))
        else:
            w = {"v": 3, "n": 3, "u": 2, "t": 4}[k]
            out.append([rng.choice([bits(rng.uniform(-5, 5)), rng.getrandbits(32) & 0xff7fffff, 0, 0x80000000]) for _ in range(w)])
            pool.setdefault(k, []).append(out[-1])
    return out


def session(rng, length, regs=2):
    ops = [{"op": "mesh", "m": "a", "mesh": {}}, {"op": "mesh", "m": "b", "mesh": gen.mesh(rng, 5, custom=0)}]
    have = {"a": set(), "b": set(DATA + IDX)}
    pool, names = {}, rng.sample(WORDS, 4)
    ops[1]["mesh"]["c"] = []
    have["b"] = {k for k in ops[1]["mesh"] if k != "c"}
    longs = [["é", 127], ["é", 128], ["x", 255], ["x", 256], ["yz", 127], "", ["x", 65536], ["x", 254], ["x", 511], ["x", 512]]
    for _ in range(length):
        m = rng.choice("ab")
        c = rng.random()
        k = rng.choice(DATA + IDX)
        if c < .3:
            ops.append({"op": "set", "m": m, "attr": k, "data": elems(rng, k, rng.choice([0, 1, 2, 3, 9]), pool)})
            have[m].add(k)
        elif c < .5:
            n = rng.choice([0, 1, 2, 3, 30]) if k in have[m] else rng.choice([1, 2, 5])
            ops.append({"op": "append", "m": m, "attr": k, "data": elems(rng, k, n, pool)})
            have[m].add(k)
        elif c < .62:
            ops.append({"op": "get", "m": m, "attr": k})
        elif c < .75:
            ops.append({"op": "buffer", "m": m, "attr": rng.choice("vnu")})
        elif c < .88:
            d = gen.custom_data(rng, "", rng.choice([1, 4]))
            if d["kind"] not in ("index", "int"):
                d.setdefault("prec", bits(.25))
            elif rng.random() < .4:
                d["max"] = max(d["data"], default=0) + rng.choice([0, 0, 1, 5, 100])
            else:
                d.pop("max", None)
            d["name"] = rng.choice(longs) if rng.random() < .35 else rng.choice(names)
            ops.append({"op": "custom", "m": m, "c": d})
        elif c < .95:
            ops.append({"op": "lookup", "m": m, "name": rng.choice(longs) if rng.random() < .3 else rng.choice(names)})
        else:
            ops.append({"op": "snap", "m": m, "names": names + [meshes.text(x) for x in longs[:4]]})
    for m in "ab":
        ops += [{"op": "buffer", "m": m, "attr": k} for k in "vnu"]
        ops.append({"op": "snap", "m": m, "names": WORDS + [meshes.text(x) for x in longs]})
    return {"ops": ops}


def alike(rng, names):
    """Lookups among names that are nearly the same."""
    ops = [{"op": "mesh", "m": "a", "mesh": {}}]
    some = rng.sample(names, rng.randrange(1, len(names) + 1))
    for i, nm in enumerate(some):
        ops.append({"op": "custom", "m": "a", "c": {"name": nm, "kind": "index", "data": [i], "max": 9}})
    ops += [{"op": "lookup", "m": "a", "name": nm} for nm in names]
    ops.append({"op": "snap", "m": "a", "names": names})
    return {"ops": ops}


def large(rng, n):
    """Long arrays, set and appended in pieces around sizes at which numbers get wider."""
    ops = [{"op": "mesh", "m": "a", "mesh": {}}]
    k = rng.choice("vnut")
    w = {"v": 3, "n": 3, "u": 2, "t": 4}[k]
    data = [[i] + [7] * (w - 1) for i in range(n)]
    cut = rng.choice([0, 1, 3, n // 2, n - 1, n - 3])
    at = [(7 * i) % n for i in range(rng.choice([n, 3, n + 5]))]
    if cut or rng.random() < .5:
        ops += [{"op": "set", "m": "a", "attr": k, "data": data[:cut]}, {"op": "append", "m": "a", "attr": k, "data": data[cut:]}]
    else:
        ops += [{"op": "append", "m": "a", "attr": k, "data": data}]
    ops += [{"op": "set", "m": "a", "attr": OF[k], "data": at[:cut]}, {"op": "append", "m": "a", "attr": OF[k], "data": at[cut:]}]
    if k != "t":
        ops.append({"op": "buffer", "m": "a", "attr": k})
    ops += [{"op": "get", "m": "a", "attr": k}, {"op": "set", "m": "a", "attr": k, "data": data[:2]}, {"op": "snap", "m": "a", "names": []}]
    return {"ops": ops}


def many_names(rng, n):
    """Many custom data; lookups find the first of a name."""
    ops = [{"op": "mesh", "m": "a", "mesh": {}}]
    for i in range(n):
        nm = "n%d" % (i if rng.random() < .95 else rng.randrange(i + 1))
        ops.append({"op": "custom", "m": "a", "c": {"name": nm, "kind": "index", "data": [i], "max": 2 * n}})
    ops += [{"op": "lookup", "m": "a", "name": "n%d" % i} for i in [0, 1, n - 1, n] + [rng.randrange(n) for _ in range(30)]]
    ops.append({"op": "snap", "m": "a", "names": ["n%d" % i for i in range(0, n, 7)]})
    return {"ops": ops}


def run(chk):
    rng = random.Random(core.seed() * 7919 + 17)
    deep = chk.tier == "thorough"
    chk.build()
    scen = []
    # Every sequence of operations of the design model
    for i, (k, kt) in enumerate(OF.items()):
        seqs = meshes.design(chk, 3 if deep else 2, [k, kt], [[], [0], [1, 0]], [0, 1, 255, 256], [], True, tag="-" + k)
        scen += [replay(s) for s in seqs]
    scen += [replay(s) for s in meshes.design(chk, 3, ["v", "vt"], [[], [0, 1]], [1], [], True, tag="-vv")]
    scen += [replay(s) for s in meshes.design(chk, 3 if not deep else 4, [], [], [0, 1, 2, 255, 256], [], True, tag="-c")]
    for i in range(500 if not deep else 6000):
        scen.append(session(rng, rng.choice([5, 20, 60])))
    for names in ALIKE:
        scen += [alike(rng, names) for _ in range(8 if not deep else 60)]
    meshes.check(chk, scen, chunk=4000)
    meshes.check(chk, [large(rng, n) for n in ([255, 256, 1025, 4097, 65535, 65537, 70000] if not deep else
                       [255, 256, 257, 1023, 1025, 4095, 4097, 32769, 65535, 65536, 65537, 100000, 131073, 200000] * 3)]
                 + [many_names(rng, n) for n in ([17, 130, 300] if not deep else [17, 130, 300, 1000] * 3)], full=2, tag="large")
