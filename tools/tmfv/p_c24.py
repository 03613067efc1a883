"""C24: single-mesh reads agree with the list reads, sync with async."""
import random
from . import core, gen, files
from .p_c18 import NAMES as objnames

NAMES = objnames + [" lead", "trail ", "\tt", "a\rb", "a\u00a0", "#", "o o", "-", "0"]
MODES = ["sync", "one", "async", "one_async"]


def loads(ops, rng, **kw):
    for m in MODES:
        ops.append(dict({"op": "load", "mode": m}, **kw))
        if m.endswith("async"):
            ops[-1]["rt"] = rng.choice(["ct", "mt"])


def text(rng, k):
    """An .obj text with k objects."""
    out = [] if rng.random() < .7 else ["# made by hand"]
    base = 0
    for j in range(k):
        if k > 1 or rng.random() < .7:
            out.append("o " + rng.choice(NAMES + ["m%d" % j] * 20))
        n = rng.choice([3, 3, 4, 6])
        out += ["v %d %d %d" % (rng.randrange(9), rng.randrange(9), i) for i in range(n)]
        for _ in range(rng.choice([0, 1, 1, 2])):
            out.append("f " + " ".join(str(base + 1 + i) for i in rng.sample(range(n), 3)))
        base += n
    if rng.random() < .15:
        out.append(rng.choice(["f 1 2", "v 1 x 2", "f 0 1 2", "f 1 2 9999"]))
    return "\n".join(out) + "\n"


def run(chk):
    rng = random.Random(core.seed() * 7919 + 24)
    deep = chk.tier == "thorough"
    chk.build()
    files.file_model(chk, 1, 2)
    scen = []
    for i in range(350 if not deep else 4000):
        k = rng.choice([0, 1, 1, 1, 2, 3])
        ops, lst = [], []
        for j in range(k):
            ops.append({"op": "mesh", "m": "a%d" % j, "mesh": gen.mesh(rng, rng.choice([1, 4, 12]), valid=rng.random() < .7)})
            lst.append(["a%d" % j, rng.choice(gen.NAMES)])
        p = gen.prec(rng)
        ops.append({"op": "save", "list": lst, "prec": p, "out": "f"})
        loads(ops, rng, src="f", names=["c0", "c1"])
        if k == 1:
            ops.append({"op": "save", "list": lst, "prec": p, "one": True, "out": "g"})
        scen.append({"ops": ops})
    for i in range(350 if not deep else 4000):
        g, d = gen.random_file(rng, n=6, segs=4)
        if i % 2:
            d = gen.mutate(rng, g, d)
        ops = [{"op": "blob", "bytes": d.hex(), "out": "f"}]
        loads(ops, rng, src="f", names=["w"])
        scen.append({"ops": ops})
    for i in range(200 if not deep else 2000):
        t = text(rng, rng.choice([0, 1, 1, 1, 2, 3]))
        scen.append({"ops": [{"op": "obj_load", "text": t}, {"op": "obj_load", "text": t, "one": True}]})
    for i in range(200 if not deep else 2000):
        k = rng.choice([0, 1, 1, 2])
        ops, lst = [], []
        for j in range(k):
            ops.append({"op": "mesh", "m": "a%d" % j, "mesh": obj_mesh(rng)})
            lst.append(["a%d" % j, rng.choice(NAMES + ["m%d" % j] * 8)])
        ops += [{"op": "obj_save", "list": lst, "out": "f"}]
        if k == 1:
            ops += [{"op": "obj_save", "list": lst, "one": True, "out": "g"}]
        ops += [{"op": "obj_load", "src": "f"}, {"op": "obj_load", "src": "f", "one": True}]
        scen.append({"ops": ops})
    for v in ("std", "full"):
        part = scen if v == "std" or deep else scen[::2]
        res = chk.runners[v].run(part, v)
        E = files.Episodes()
        eps = [episode(E, s, r) for s, r in zip(part, res)]
        if v == "std":
            chk.sample(eps[-1])
        chk.validate("TmfTrace", eps, part, variant=v)


def obj_mesh(rng):
    n = rng.choice([3, 4, 7])
    t = [rng.randrange(n) for _ in range(3 * rng.randrange(1, 4))]
    m = {"v": [gen.b3([rng.randrange(-9, 9) for _ in range(3)]) for _ in range(n)], "vt": t}
    if rng.random() < .6:
        m["n"] = [gen.b3(gen.unit(rng)) for _ in range(n)]
        m["nt"] = [rng.randrange(n) for _ in t]
    if rng.random() < .6:
        m["u"] = [[gen.bits(rng.random()), gen.bits(rng.random())] for _ in range(n)]
        m["ut"] = [rng.randrange(n) for _ in t]
    return m


def episode(E, sc, res):
    """Loads in all modes; writers for one mesh and for lists; .obj readers for one mesh and for lists."""
    ev, last = [], {}
    for op, r in zip(sc["ops"], res):
        bad = [k for k in ("panic", "crash", "hang") if k in r]
        if op["op"] == "load":
            e = E.load(op, r, 0, meshes=False)
            if "err" in r:      # the error itself, with its argument
                e["res"] = r["err"]
            ev.append(e)
        elif op["op"] == "obj_load":
            e = {"op": "load", "mode": "obj_one" if op.get("one") else "sync", "io": False, "meshes": [], "file": 0,
                 "vals": False, "len": 0, "peak": 0, "toks": [],
                 "res": bad[0] if bad else "ok" if "ok" in r else r["err"]}
            if "ok" in r:
                e["toks"] = [E.token({"name": x["name"], "mesh": {k: x[k] for k in ("mesh", "vb", "nb", "ub")}}) for x in r["ok"]]
            ev.append(e)
        elif op["op"] in ("save", "obj_save"):
            if bad or "err" in r:
                last[op["out"]] = E.tok(json_err(r))
            else:
                last[op["out"]] = E.tok(r["bytes"])
            if op["out"] == "g":
                ev.append({"op": "equal", "a": last["f"], "b": last["g"],
                           "what": "the writer for one mesh writes another file than the one for many"})
        elif bad:
            ev.append({"op": bad[0]})
    return {"b": [], "ev": ev}


def json_err(r):
    return str(sorted(r.items()))
