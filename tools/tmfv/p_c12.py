"""C12: concurrent decoding of segments gives the sequential result."""
import itertools, json, random
from . import core, gen, files
from .num import Tokens

NAMES = ["q", "w", "weights", "x" * 255, "", "c0", "c1", "c2", "c3", "c4", "c5"]


def ranks(order):
    """Ranks (from 0) which make segments finish in this order (of places from 0)."""
    r = [0] * len(order)
    for place, seg in enumerate(order):
        r[seg] = place
    return r


def seg_counts(data):
    """Segments per mesh, as far as the headers make sense: only used to choose orders which can come about."""
    u = lambda p, n: int.from_bytes(data[p:p + n], "little")
    old = u(9, 2) < 2
    p, out = 15, []
    for _ in range(min(u(11, 4), 20)):
        p += 2 + u(p, 2)
        n = u(p, 2)
        if p + 2 > len(data):
            break
        p += 2
        out.append(min(n, 40))
        for _ in range(n):
            p += 11 + u(p + 2, 8) if old else 6 + u(p + 1, 4)
            if p > len(data):
                return out
    return out


def some_orders(rng, data, k):
    """k orders in which the segments of a file may finish: mesh after mesh, any order within each."""
    res = []
    for i in range(k):
        o, base = [], 0
        for n in seg_counts(data):
            part = list(range(base, base + n))
            if i == 0:
                part.reverse()
            else:
                rng.shuffle(part)
            o += part
            base += n
        res.append(o)
    return res


def episode(results):
    """results: per file (bytes or None, [loads' results])."""
    E = files.Episodes(read=True)
    b, ev = [], []
    for data, loads in results:
        b.append(list(data))
        ev += [{"op": "open"}, {"op": "read", "file": len(b)}]
        for op, r in loads:
            e = E.load(op, r, len(b))
            if e["res"] != "ok" and "err" in r:
                e["toks"] = [E.tok(r["err"])]
            ev.append(e)
    return {"b": b, "ev": ev}


def run(chk):
    rng = random.Random(core.seed() * 7919 + 12)
    deep = chk.tier == "thorough"
    chk.build()
    pool = lambda n, early, emit: chk.model(
        "DecodePool", "INIT Init\nNEXT Next\nINVARIANT SameAsSequential\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxSegs = %d Early = %s Emit = %s\n" % (
            n, early, emit), tag="-%d%s" % (n, early))
    pool(3 if not deep else 4, "TRUE", "FALSE")
    runs = {}
    for p in dict.fromkeys(pool(3 if not deep else 4, "FALSE", "TRUE").prints):
        if p.startswith("POOL "):
            o = json.loads(p[5:])
            runs.setdefault(bytes(o["file"]), []).append([i - 1 for i in o["order"]])
    scen = []       # (variant independent) scenarios: ops with loads; expectations come from the specification

    def add(data, orders, rts=("ct",), tag=""):
        ops = [{"op": "blob", "bytes": data.hex(), "out": "f"}, {"op": "load", "src": "f", "names": NAMES}]
        for o in orders:
            for rt in rts:
                ops.append({"op": "load", "src": "f", "names": NAMES, "ranks": ranks(o), "mode": rng.choice(["sync", "async"]), "rt": rt})
        scen.append({"ops": ops, "files": [data], "want": [None] + [o for o in orders for _ in rts]})
    for f, orders in runs.items():
        add(f, orders, ("ct", "mt") if rng.random() < .3 else ("ct",))
    # Larger files, arrays split and shared, some broken, in random orders
    for i in range(500 if not deep else 6000):
        g, d = gen.random_file(rng, n=rng.choice([3, 10]), segs=9, meshes=rng.choice([1, 1, 2]))
        if rng.random() < .6:
            d = gen.mutate(rng, g, d, rng.choice([1, 1, 2]))
        orders = some_orders(rng, d, 5)
        add(d, orders, ("ct", "mt"))
    # Many broken segments: which of them decides?
    for i in range(60 if not deep else 600):
        g = gen.FileGen(rng, False)
        segs = []
        for j in range(rng.choice([2, 4, 8])):
            ty, comp, pay, inner = g.segment(4)
            c = rng.random()
            if c < .35:
                pl, m = g.idx([1, 2], w=rng.choice([64, 77, 200]), base=0)
                ty, comp, pay, inner = rng.choice([2, 4, 6, 10]), 0, pl, m
            elif c < .6:
                pl, m = g.idx([1, 2, 3], w=9, base=0)
                ty, comp, pay, inner = rng.choice([2, 4, 6, 10]), 0, pl[:-1], []
            elif c < .7:
                ty, comp, pay, inner = 2, rng.choice([1, 2, 255]), pay, []
            segs.append((ty, comp, pay, []))
        d = g.file([(b"a", segs), (b"b", [g.segment(3)])])
        orders = [list(o) for o in itertools.permutations(range(len(segs)))] if len(segs) < 4 else []
        for _ in range(8):
            o = list(range(len(segs)))
            rng.shuffle(o)
            orders.append(o)
        add(d, orders)
    # Meshes of many segments, around the sizes at which executors change their ways
    for i, k in enumerate([29, 30, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 300] * (1 if not deep else 12)):
        g = gen.FileGen(rng, False)
        segs = []
        for j in range(k):
            if rng.random() < .3:
                ty, comp, pay, inner = g.segment(2)
            else:
                pay, _ = g.idx([rng.randrange(300) for _ in range(rng.randrange(1, 4))])
                ty, comp = rng.choice([2, 2, 2, 4, 6, 10, 25]), 0
                if ty == 25:
                    pay = bytes([rng.randrange(8)]) + pay
            segs.append((ty, comp, pay, []))
        if i % 4 == 3:
            segs[rng.randrange(k)] = (2, 0, g.idx([1, 2, 3], w=9, base=0)[0][:-1], [])
        d = g.file([(b"a", segs)])
        orders = []
        for _ in range(3):
            o = list(range(k))
            rng.shuffle(o)
            orders.append(o)
        add(d, [list(range(k))[::-1]] + orders, ("ct", "mt"))
    imposed = total = 0
    for v in ("std", "full"):
        part = scen if deep or v == "full" else scen[::2]
        res = chk.runners[v].run(part, v)
        eps = []
        for s, r in zip(part, res):
            eps.append(episode([(s["files"][0], list(zip(s["ops"], r))[1:])]))
            for w, x in zip(s["want"], r[1:]):
                if w and x.get("order"):
                    total += 1
                    imposed += x["order"] == w[:len(x["order"])]
        if v == "full":
            chk.sample(eps[len(eps) // 2])
        chk.validate("TmfTrace", eps, part, variant=v, chunk=3000)
    # Several loads at once, from several threads
    conc = []
    for i in range(60 if not deep else 800):
        datas = []
        for _ in range(rng.choice([2, 4, 8])):
            g, d = gen.random_file(rng, n=rng.choice([3, 30]), segs=9, meshes=rng.choice([1, 2]))
            if rng.random() < .4:
                d = gen.mutate(rng, g, d, 1)
            datas.append(d)
        ops = [{"op": "load", "bytes": d.hex(), "names": NAMES} for d in datas]
        loads = []
        for k in range(len(datas) * 2):
            op = {"bytes": datas[k % len(datas)].hex(), "names": NAMES, "mode": rng.choice(["sync", "async"]), "rt": rng.choice(["ct", "mt"])}
            if rng.random() < .4:
                op["ranks"] = ranks(some_orders(rng, datas[k % len(datas)], 2)[1])
            loads.append(op)
        conc.append({"ops": ops + [{"op": "concurrent", "loads": loads}], "files": datas})
    for v in ("std", "full"):
        res = chk.runners[v].run(conc, "conc" + v, shards=2)
        eps = []
        for s, r in zip(conc, res):
            n = len(s["files"])
            if len(r) < n + 1 or "loads" not in r[n]:
                eps.append({"b": [], "ev": [{"op": [k for k in ("panic", "crash", "hang") if k in r[-1]][0]}]})
                continue
            loads = list(zip(s["ops"][n]["loads"], r[n]["loads"]))
            eps.append(episode([(d, [(s["ops"][j], r[j])] + loads[j::n]) for j, d in enumerate(s["files"])]))
        chk.validate("TmfTrace", eps, conc, variant=v, tag="conc")
    chk.cov["orders_imposed"] = imposed
    chk.cov["orders_observed"] = total
    chk.assumptions.append("the order in which segments finish is imposed through the hook src/verif_hooks.rs; a decoder that "
                           "does not call it is only run in the orders the executors choose")
