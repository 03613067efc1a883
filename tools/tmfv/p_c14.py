"""C14: unaligned bit arrays return what was written."""
import hashlib, random
from . import core


def limbs(v):
    return [(v >> 48) & 0xFFFF, (v >> 32) & 0xFFFF, (v >> 16) & 0xFFFF, v & 0xFFFF]


def value(rng, w):
    if w == 0:
        return 0
    k = rng.randrange(6)
    top = (1 << w) - 1
    return [0, top, 1, 1 << (w - 1), rng.randrange(top + 1), rng.randrange(top + 1)][k]


def walks(rng, todo, length):
    """Walks over offsets 0..63 (the position in the 64 bit register) which take every pair
    (offset, operation) of `todo` once."""
    todo = {o: list(v) for o, v in todo.items() if v}
    for v in todo.values():
        rng.shuffle(v)
    out = []
    while todo:
        off, walk = 0, []
        while len(walk) < length and todo:
            if off in todo:
                op = todo[off].pop()
                if not todo[off]:
                    del todo[off]
                walk.append(op)
                off = (off + sum(op[1])) % 64
            else:
                # To the next offset where something is left to do
                w = min((o - off) % 64 for o in todo)
                walk.append(("r1", (w,)))
                off = (off + w) % 64
        out.append(walk)
    return out


def scenario(rng, walk, mode):
    """Writes what the walk reads. mode: how the writes and the stream are cut."""
    ws, reads, ev = [], [], []
    for kind, widths in walk:
        for w in widths:
            v = value(rng, w)
            if kind == "bit":
                ws.append(["bit", v])
            else:
                ws.append([w, v])
        if kind == "bit":
            reads.append(["bit"])
        elif kind == "pair":
            reads.append(["pair", widths[0], widths[1]])
        else:
            reads.append([kind, widths[0]])
    # Reads past the end at last
    tail = rng.choice([["r1", 63], ["r2", 33], ["r3", 30], ["pair", 40, 30], ["r1", 8], ["bit"]])
    if mode.get("tail"):
        reads += [tail] * 3
    op = {"op": "uba", "writes": ws, "reads": reads, "flush": rng.random() < 0.5}
    if mode.get("chunks"):
        op["reader"] = {"chunks": [rng.choice([1, 2, 3, 5, 7, 8, 9]) for _ in range(rng.randrange(1, 6))]}
        op["sink"] = {"chunks": [rng.choice([1, 2, 3, 8, 64]) for _ in range(3)]}
    return {"ops": [op]}


def project(sc, res):
    op = sc["ops"][0]
    r = res[0]
    ev = []
    for a, v in op.get("writes") or []:
        w = 1 if a == "bit" else a
        ev.append({"op": "w", "w": w, "v": limbs(v)})
    if "reads" not in r:
        ev.append({"op": "panic"})
        return {"ev": ev}
    b = list(bytes.fromhex(r["bytes"]))
    ev.append({"op": "bytes", "b": b, "given": "writes" not in op})
    for rd, o in zip(op["reads"], r["reads"]):
        ws = {"r1": lambda: [rd[1]], "r2": lambda: [rd[1]] * 2, "r3": lambda: [rd[1]] * 3,
              "pair": lambda: [rd[1], rd[2]], "bit": lambda: [1]}[rd[0]]()
        if "panic" in o:
            ev.append({"op": "panic"})
            break
        ev.append({"op": "r", "ws": ws, "res": o.get("err", "ok"), "vs": [limbs(v) for v in o.get("ok", [])]})
    return {"ev": ev}


def long_scenario(rng, size, kind):
    """A stream of about `size` bytes. kind: what it is made of."""
    ws, reads, total = [], [], 0
    fixed = rng.choice([1, 7, 8, 11, 21, 32, 33, 63])
    while total < 8 * size:
        w = {"bytes": 8, "wide": 63, "fixed": fixed, "mixed": rng.choice([0, 1, 3, 8, 13, 21, 31, 32, 33, 47, 63])}[kind]
        c = rng.choice([1, 1, 2, 3, 0]) if w else 1
        r = {1: ["r1", w], 2: ["r2", w], 3: ["r3", w], 0: ["pair", w, w // 2 + 1]}[c]
        for x in ([w] * c if c else [w, w // 2 + 1]):
            ws.append([x, value(rng, x)])
            total += x
        reads.append(r)
    reads += [["r1", 63]]
    return {"ops": [{"op": "uba", "writes": ws, "reads": reads, "flush": rng.random() < .5}], "long": True}


def long_episodes(sc, res, window=40):
    """A long stream as a whole (digests), and windows of it which begin and end with whole bytes."""
    op, r = sc["ops"][0], res[0]
    if "reads" not in r or any("panic" in o for o in r["reads"]):
        return [{"ev": [{"op": "panic"}]}]
    data = bytes.fromhex(r["bytes"])
    ws = [tuple(w) for w in op["writes"]]
    got, at = [], 0
    for rd, o in zip(op["reads"], r["reads"]):
        got += [] if "err" in o else o["ok"]
    rest = 8 * len(data) - sum(w for w, v in ws)
    want = [v for w, v in ws]
    same = lambda a: [len(a)] + list(hashlib.sha256(repr(a).encode()).digest())
    out = [{"ev": [{"op": "whole", "rest": rest, "written": same(want), "read": same(got), "res": r["reads"][-1].get("err", "ok"),
                    "left": len(op["reads"]) - len(r["reads"])}]}]
    # Windows at which sizes get wider
    starts, total = [], 0
    for i, (w, v) in enumerate(ws):
        if total % 8 == 0:
            starts.append((total // 8, i))
        total += w
    marks = [2 ** k for k in range(9, 32)] + [len(data) // 2, len(data) - 1]
    j = 0
    for m in sorted(x for x in marks if x < len(data)):
        at = [x for x in starts if x[0] <= m][-1:]
        if not at:
            continue
        o, i = at[0]
        ev, total, k = [], 0, i
        while k < len(ws) and (k - i < window or total % 8) and k - i < 4 * window:
            ev.append({"op": "w", "w": ws[k][0], "v": limbs(ws[k][1])})
            total += ws[k][0]
            k += 1
        if total % 8 and k < len(ws):
            continue
        ev.append({"op": "bytes", "b": list(data[o:o + (total + 7) // 8]), "given": False})
        ev += [{"op": "r", "ws": [ws[x][0]], "res": "ok", "vs": [limbs(got[x])] if x < len(got) else []} for x in range(i, k)]
        out.append({"ev": ev})
    return out


def run(chk):
    rng = random.Random(core.seed() * 7919 + 14)
    deep = chk.tier == "thorough"
    chk.build()
    # The buffered writer and reader of the code implement the abstract queue of bits
    for bb, store, mw, n in ([(2, 2, 3, 2)] if not deep else [(2, 2, 5, 2), (3, 1, 4, 2), (2, 3, 3, 3)]):
        chk.model("UbaImpl", "INIT Init\nNEXT Next\nINVARIANTS Correct Passed\nCHECK_DEADLOCK TRUE\n"
                  "CONSTANTS ByteBits = %d Store = %d MaxWidth = %d MaxWrites = %d\n" % (bb, store, mw, n),
                  tag="-%d%d" % (bb, store))
    # Every operation of every width at every offset in the reader's register
    todo = {}
    pairs = [0, 1, 2, 7, 8, 15, 16, 20, 21, 22, 23, 31, 32, 33, 40, 62, 63] if not deep else range(64)
    for off in range(64):
        ops = [("bit", (1,))]
        for w in range(64):
            ops += [("r1", (w,)), ("r2", (w, w)), ("r3", (w, w, w))]
        allp = [("pair", (a, b)) for a in pairs for b in pairs]
        ops += rng.sample(allp, 30 if not deep else 1200)
        # pairs which fill 63, 64 and 65 bits
        for a in rng.sample(range(1, 64), 6):
            for t in (63, 64, 65):
                if 0 <= t - a <= 63:
                    ops.append(("pair", (a, t - a)))
        todo[off] = ops
    scen = []
    for i, walk in enumerate(walks(rng, todo, 40)):
        mode = {"chunks": i % 2 == 1, "tail": i % 3 != 0}
        scen.append(scenario(rng, walk, mode))
    # Ends: every number of bytes and every width around the end of the data
    for n in range(0, 18):
        for w in (1, 7, 8, 9, 31, 32, 33, 57, 63):
            data = bytes(rng.randrange(256) for _ in range(n)).hex()
            kind = rng.choice(["r1", "r2", "r3"])
            rd = [[kind, w]] * (n * 8 // w + 2) if w > 3 else [["r1", 1]] * (n * 8 + 1)
            op = {"op": "uba", "bytes": data, "reads": rd}
            if n % 2:
                op["reader"] = {"chunks": [rng.randrange(1, 9) for _ in range(3)]}
            scen.append({"ops": [op]})
            if w < 33:
                rd = [["bit"]] * rng.randrange(0, 9) + [["pair", w, 33 - w]] * (n * 8 // 33 + 2)
                scen.append({"ops": [{"op": "uba", "bytes": data, "reads": rd}]})
    for v in ("std", "full"):
        part = scen if v == "std" or deep else scen[::4]
        res = chk.runners[v].run(part, v)
        eps = [project(s, r) for s, r in zip(part, res)]
        if v == "std":
            for e in eps[:2]:
                chk.sample(e["ev"][:6])
        chk.validate("UbaTrace", eps, part, variant=v)
    # Long streams
    for v in ("std", "full"):
        sizes = [(9000, "mixed"), (70000, "mixed"), (70000, "bytes"), (2200000, "wide"), (600000, "fixed")] if not deep else \
            [(n, k) for n in (4095, 4097, 8192, 9000, 70000, 600000, 2200000) for k in ("bytes", "wide", "fixed", "mixed")] + [(17000000, "wide"), (20000000, "wide")]
        part = [long_scenario(rng, *x) for x in (sizes if v == "std" or deep else sizes[:2])]
        res = chk.runners[v].run(part, "long" + v, shards=len(part) if not deep else 6)
        eps, of = [], []
        for s, r in zip(part, res):
            e = long_episodes(s, r)
            eps += e
            of += [s] * len(e)
        chk.validate("UbaTrace", eps, of, variant=v, tag="long")
    chk.assumptions += ["UnalignedReader is given streams that do not fail and do not report interruptions"]
