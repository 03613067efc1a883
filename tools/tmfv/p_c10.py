"""C10: a truncated file is always reported as an error."""
import random, struct
from . import core, gen, files
from .p_c09 import remark


def run(chk):
    rng = random.Random(core.seed() * 7919 + 10)
    deep = chk.tier == "thorough"
    chk.build()
    files.file_model(chk, 2, 1)
    scen = []
    for i in range(150 if not deep else 1500):
        k = rng.choice([0, 1, 1, 2, 3])
        ops, lst = [], []
        for j in range(k):
            m = gen.mesh(rng, rng.choice([1, 3, 8]), valid=False)
            if rng.random() < .3:
                m.update(gen.index_mesh(rng, lambda: rng.randrange(60)))
            ops.append({"op": "mesh", "m": "a%d" % j, "mesh": m})
            lst.append(["a%d" % j, rng.choice(gen.NAMES)])
        ops += [{"op": "save", "list": lst, "prec": gen.prec(rng), "out": "f"},
                {"op": "cuts", "src": "f", "mode": ["sync", "sync", "async"][i % 3]}]
        scen.append({"ops": ops})
    out = files.check(chk, scen, full=2, tag="cuts")
    # The payload of one segment cut short in a file which is complete otherwise
    scen = []
    part, res = out["std"]
    for sc, r in zip(part, res):
        if "bytes" not in r[-2]:
            continue
        d = bytes.fromhex(r[-2]["bytes"])
        marks = remark(d).marks
        spots = [(marks[i - 2], m) for i, m in enumerate(marks) if m[0] == "payload" and m[2] > 0]
        for (lk, lo, ll), (_, o, n) in rng.sample(spots, min(len(spots), 3 if not deep else 30)):
            for cut in {1, rng.randrange(1, n + 1), n}:
                e = bytearray(d[:o + n - cut] + d[o + n:])
                e[lo:lo + 4] = struct.pack("<I", n - cut)
                scen.append(files.raw(bytes(e), quiet=True))
    for i in range(200 if not deep else 3000):       # old layouts, and arrays of every kind
        g, d = gen.random_file(rng, n=9, segs=4, meshes=1, ver=None)
        spots = [(g.marks[i - 2], m) for i, m in enumerate(g.marks) if m[0] == "payload" and m[2] > 0]
        spots = [(a, b) for a, b in spots if a[0] == "len"]
        for (lk, lo, ll), (_, o, n) in spots[:3]:
            cut = rng.randrange(1, n + 1)
            e = bytearray(d[:o + n - cut] + d[o + n:])
            e[lo:lo + ll] = (n - cut).to_bytes(ll, "little")
            scen.append(files.raw(bytes(e), quiet=True))
    files.check(chk, scen, read=True, tag="payload", chunk=3000)
