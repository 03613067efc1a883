"""C13: versions gate reading, old layouts load, unknown segments are skipped."""
import random, struct
from . import core, gen, files

NAMES = ["q", "w", "weights", "x" * 255, ""]


def run(chk):
    rng = random.Random(core.seed() * 7919 + 13)
    deep = chk.tier == "thorough"
    chk.build()
    files.file_model(chk, 2, 1)
    made = files.file_model(chk, 2, 1, emit=True, tag="-emit")
    if deep:
        made += rng.sample(files.file_model(chk, 2, 2, emit=True, tag="-emit2"), 4000)
    scen = [files.raw(d, names=NAMES) for d in made]
    # Versions: every combination around this reader's
    for old in (False, True):
        for v in [(a, b, c, d) for a in (0, 1, 65535) for b in (0, 1, 2, 3, 65535)
                  for c in (0, 1, 2, 255, 256, 65535) for d in (0, 1, 2, 3, 255, 256, 257, 258, 65535)]:
            if rng.random() < (.35 if not deep else 1):
                g, d = gen.random_file(rng, n=4, segs=2, old=(v[3] < 2), ver=v)
                scen.append(files.raw(d, names=NAMES))
    # The magic
    g, d = gen.random_file(rng, n=3, segs=1, meshes=1)
    for i in range(3):
        for b in range(256):
            if d[i] != b:
                scen.append(files.raw(d[:i] + bytes([b]) + d[i + 1:]))
    # Every segment type, between two index arrays, with and without compression
    for old in (False, True):
        for ty in list(range(256)) + ([256, 257, 258, 260, 281, 513, 0x1900, 65535] if old else []):
            if ty in (1, 3, 5, 9, 2, 4, 6, 10, 15, 16, 23, 24, 25):
                continue
            for comp in (0, 1, 2, 255):
                g = gen.FileGen(rng, old)
                a, b = g.idx([1, 2, 3]), g.idx([4, 5])
                d = g.file([(b"m", [(2, 0) + a, (ty, comp, bytes(rng.randrange(256) for _ in range(rng.randrange(9))), []),
                                    (2, 0) + b])])
                scen.append(files.raw(d, names=NAMES))
    # Files of any content, and the same after changes
    for i in range(600 if not deep else 10000):
        g, d = gen.random_file(rng, n=rng.choice([3, 12, 40]))
        scen.append(files.raw(d, names=NAMES))
        if i % 2:
            scen.append(files.raw(gen.mutate(rng, g, d, rng.choice([1, 1, 2])), names=NAMES))
    files.check(chk, scen, read=True, chunk=4000)
