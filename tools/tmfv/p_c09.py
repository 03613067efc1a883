"""C09: reading arbitrary bytes never crashes."""
import random, struct
from . import core, gen, files


def saved(chk, rng, n):
    """Files written by the library itself."""
    scen = [{"ops": [{"op": "mesh", "m": "a", "mesh": gen.mesh(rng, rng.choice([2, 6, 20]), absent=.1)},
                     {"op": "save", "list": [["a", rng.choice(gen.NAMES)]] * rng.choice([1, 1, 2]), "prec": gen.prec(rng)}]}
            for _ in range(n)]
    return [bytes.fromhex(r[1]["bytes"]) for r in chk.runners["std"].run(scen, "saved") if "bytes" in r[-1]]


def remark(data):
    """The marks of a file written by the library, found by walking over its layout."""
    g = gen.FileGen(None)
    g.marks = [("magic", 0, 3), ("ver", 3, 8), ("meshes", 11, 4)]
    p = 15
    for _ in range(struct.unpack_from("<I", data, 11)[0]):
        k = struct.unpack_from("<H", data, p)[0]
        g.marks += [("namelen", p, 2), ("name", p + 2, k), ("segs", p + 2 + k, 2)]
        segs = struct.unpack_from("<H", data, p + 2 + k)[0]
        p += 4 + k
        for _ in range(segs):
            ty, ln = data[p], struct.unpack_from("<I", data, p + 1)[0]
            g.marks += [("type", p, 1), ("len", p + 1, 4), ("comp", p + 5, 1), ("payload", p + 6, ln)]
            o = p + 6
            if ty in (15, 16, 23, 24):
                g.marks.append(("cname", o, 1))
                o += 1 + data[o]
            if ty == 25:
                g.marks.append(("mask", o, 1))
                o += 1
            if ty in (2, 4, 6, 10, 25, 15, 24, 5):
                g.marks += [("width", o, 1), ("count" if data[o] else "bomb", o + 1, 8)]
                if ty != 5:
                    g.marks.append(("base", o + 9, 8))
            elif ty in (3, 9, 23):
                g.marks += [("count", o, 8), ("width", o + 8, 1)]
            elif ty == 16:
                g.marks += [("count", o, 8), ("box", o + 8, 16), ("width", o + 24, 1)]
            elif ty == 1:
                g.marks += [("count", o, 8), ("box", o + 8, 48)] + [("width", o + 56 + i, 1) for i in range(3)]
            p += 6 + ln
    return g


def run(chk):
    rng = random.Random(core.seed() * 7919 + 9)
    deep = chk.tier == "thorough"
    chk.build()
    files.file_model(chk, 1, 1)
    scen = []
    add = lambda d, **kw: scen.append(files.raw(d, **dict({"quiet": True}, **kw)))
    # Counts, widths, lengths and bases at their limits, in every kind of segment
    lim = [0, 1, 255, 2 ** 16, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 33, 2 ** 62, 2 ** 63, 2 ** 64 - 1]
    for old in (False, True):
        for ty in (1, 2, 3, 4, 5, 6, 9, 10, 15, 16, 23, 24, 25):
            for kind in ("count", "width", "len", "base", "comp"):
                for v in lim if kind in ("count", "len", "base") else list(range(256))[::(1 if kind == "comp" else 3)] + [63, 64, 65]:
                    g = gen.FileGen(rng, old)
                    s = None
                    while s is None or s[0] != ty:
                        s = g.segment(3)
                    d = bytearray(g.file([(b"m", [s, (2, 0) + g.idx([1])])]))
                    ms = [m for m in g.marks if m[0] == kind]
                    if not ms:
                        continue
                    _, o, l = ms[0]
                    if kind == "width" and v == 0:
                        continue
                    d[o:o + l] = (v & ((1 << 8 * l) - 1)).to_bytes(l, "little")
                    add(bytes(d))
    # Headers which promise more than there is
    for meshes in (1, 2, 65535, 65536, 2 ** 31, 2 ** 32 - 1):
        for tail in (b"", b"\0", b"\0\0\0\0", b"\1\0a\xff\xff", b"\xff\xff", b"\0\0\xff\xff"):
            add(b"TMF" + struct.pack("<4HI", 0, 2, 0, 2, meshes) + tail)
    # Changed files
    pool = [(remark(d), d) for d in saved(chk, rng, 80 if not deep else 400)]
    for i in range(2500 if not deep else 30000):
        g, d = rng.choice(pool) if i % 2 else gen.random_file(rng, n=rng.choice([2, 8, 30]))
        add(gen.mutate(rng, g, d, rng.choice([1, 1, 1, 2, 3])), mode=rng.choice(["sync"] * 4 + ["async", "one", "one_async"]))
    # Noise, with and without a good start
    for i in range(600 if not deep else 10000):
        n = rng.choice([0, 1, 5, 14, 15, 16, 20, 60, 300])
        noise = bytes(rng.choice([0, 1, 2, 255, rng.randrange(256)]) for _ in range(n))
        k = rng.randrange(4)
        if k == 1:
            noise = b"TMF" + noise
        elif k == 2:
            noise = b"TMF" + struct.pack("<4HI", 0, 2, 0, rng.choice([0, 1, 2, 2]), rng.choice([1, 2, 9])) + noise
        elif k == 3:
            noise = (b"TMF" + struct.pack("<4HI", 0, 2, 0, 2, 1) + b"\0\0" + struct.pack("<H", 1)
                     + bytes([rng.randrange(27)]) + struct.pack("<I", len(noise)) + b"\0" + noise)
        add(noise)
    # A large file whose segments really are large
    for _ in range(2 if not deep else 12):
        g = gen.FileGen(rng)
        d = g.file([(b"big", [(2, 0) + g.idx([rng.randrange(2 ** 20) for _ in range(20000)])])])
        scen.append({"ops": [{"op": "load", "bytes": d.hex(), "quiet": True}]})
    files.check(chk, scen, read=True, chunk=4000)
    chk.assumptions += ["counts of arrays whose elements take no bits are not raised: such arrays really contain any count",
                        "memory limit checked: 64 MiB plus 256 times the length of the data"]
