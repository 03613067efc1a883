"""Generators of meshes, index arrays and bytes of files."""
import math, random, struct
from .num import bits, val

U32 = 2 ** 32 - 1


# ---------------------------------------------------------------- index arrays
def edge_values(rng, top=U32):
    w = rng.randrange(0, 33 if top <= U32 else 65)
    x = (1 << w) + rng.choice([-2, -1, 0, 1])
    return max(0, min(top, x))


def indices(rng, n, top=U32, shape=None):
    """An index array of one of the shapes which make writers choose widths, bases and splits."""
    shape = shape if shape is not None else rng.randrange(10)
    if n == 0:
        return []
    small = min(top, rng.choice([1, 2, 3, 7, 8, 255, 256, 65535]))
    r = lambda lo, hi: rng.randrange(lo, hi + 1) if lo <= hi else lo
    if shape == 0:      # uniform, any width
        w = min(top, edge_values(rng, top))
        return [r(0, w) for _ in range(n)]
    if shape == 1:      # constant
        return [edge_values(rng, top)] * n
    if shape == 2:      # small, then large: splits in front of the large ones
        k = r(0, n)
        big = edge_values(rng, top)
        return [r(0, small) for _ in range(k)] + [r(min(small, big), big) for _ in range(n - k)]
    if shape == 3:      # large, then small: splits by the minimum
        k = r(0, n)
        big = edge_values(rng, top)
        return [r(big // 2, big) for _ in range(k)] + [r(0, small) for _ in range(n - k)]
    if shape == 4:      # stairs: split again and again
        out, v = [], r(0, small)
        while len(out) < n:
            out += [min(top, max(0, v + rng.randrange(4))) for _ in range(rng.randrange(1, max(2, n // 3)))]
            v = min(top, v * rng.choice([2, 16, 256]) + 1)
        return out[:n]
    if shape == 5:      # stairs down
        return indices(rng, n, top, 4)[::-1]
    if shape == 6:      # one outlier
        a = [r(0, small) for _ in range(n)]
        a[r(0, n - 1)] = edge_values(rng, top)
        return a
    if shape == 7:      # a band far from zero
        lo = edge_values(rng, top)
        return [min(top, lo + rng.randrange(min(small, top) + 1)) for _ in range(n)]
    if shape == 8:      # all distinct and descending or ascending
        lo = r(0, max(0, min(top, edge_values(rng, top)) - n))
        a = [min(top, lo + i) for i in range(n)]
        return a[::-1] if rng.random() < .5 else a
    a = [edge_values(rng, top) for _ in range(n)]
    return a


def nearly(rng, a, top=U32):
    """An array that differs from `a` as little as possible, or keeps what a shortcut might compare."""
    a, n = list(a), len(a)
    d = rng.randrange(9)
    if n == 0:
        return [0] if d < 4 else a
    i, j = rng.randrange(n), rng.randrange(n)
    if d == 0:      # one element, anywhere
        a[i] = (a[i] + rng.choice([1, 2, 256, 65536])) % (top + 1)
    elif d == 1:    # one less
        a.pop(rng.choice([0, n - 1]))
    elif d == 2:    # one more
        a.append(rng.choice([0, a[0], a[-1]]))
    elif d == 3:    # two exchanged: the same elements
        a[i], a[j] = a[j], a[i]
    elif d == 4:    # the same ends, another middle
        k = a[1:-1]
        rng.shuffle(k)
        a[1:-1] = k
    elif d == 5:    # the same sum and ends
        if n > 3:
            i, j = rng.sample(range(1, n - 1), 2)
            if a[i] < top and a[j] > 0:
                a[i], a[j] = a[i] + 1, a[j] - 1
    elif d == 6:
        a.reverse()
    elif d == 7:    # triangles turned: (0, 1, 2) to (0, 2, 1)
        for t in range(0, n - 2, 3):
            a[t + 1], a[t + 2] = a[t + 2], a[t + 1]
    else:
        a = a[1:] + a[:1]
    return a


LONG = [4096, 4097, 12289, 65535, 65536, 65537, 70000, 131073]


def cycled(rng, pattern, n, last=()):
    """A long array: a pattern over and over, ending in `last`, sometimes with something odd in the middle."""
    a = (list(pattern) * (n // max(1, len(pattern)) + 1))[:max(0, n - len(last))]
    if last and len(a) > 2 and rng.random() < .3:
        a[rng.randrange(len(a))] = last[0]
    return a + list(last)


def index_mesh(rng, n_of, top=U32):
    """Index arrays of all attributes, some absent, some equal, some nearly equal."""
    m, keys = {}, ["vt", "nt", "ut", "tt"]
    pool = []
    for k in keys:
        c = rng.random()
        if c < .2:
            continue
        if pool and c < .55:
            a = list(rng.choice(pool))
            if rng.random() < .6:
                a = nearly(rng, a, top)
        else:
            a = indices(rng, n_of(), top)
        pool.append(a)
        m[k] = a
    return m


# ---------------------------------------------------------------- values
def unit(rng):
    c = rng.randrange(8)
    if c == 0:
        v = [0, 0, 0]
        v[rng.randrange(3)] = rng.choice([1.0, -1.0])
        return tuple(float(x) for x in v)
    if c == 1:
        v = [rng.choice([-1, 1]) * rng.choice([0, 1e-3, 1e-2, .5, 1]) for _ in range(3)]
    else:
        v = [rng.gauss(0, 1) for _ in range(3)]
    l = math.sqrt(sum(x * x for x in v))
    return (0.0, 0.0, 1.0) if l == 0 else tuple(x / l for x in v)


def b3(v):
    return [bits(x) for x in v]


def mesh(rng, n, valid=True, empty=.15, absent=.25, custom=3, size=None):
    """A mesh with every kind of content. valid: indices in range, data arrays present."""
    m = {}
    size = size or rng.choice([.01, 1, 1, 50, 1000])

    def some():
        return 0 if rng.random() < empty else rng.randrange(1, n + 1)
    off = [rng.choice([0, 0, 1, 100]) * size for _ in range(3)]
    mk = {"v": lambda: b3([rng.uniform(-1, 1) * size + o for o in off]),
          "n": lambda: b3(unit(rng)),
          "u": lambda: [bits(rng.choice([0, 1, .5, rng.random()])), bits(rng.random())],
          "t": lambda: b3(unit(rng)) + [bits(rng.choice([1.0, -1.0]))]}
    for k in mk:
        if rng.random() >= absent:
            m[k] = [mk[k]() for _ in range(some())]
    corners = 3 * rng.randrange(1, n + 1)
    keys = [("vt", "v"), ("nt", "n"), ("ut", "u"), ("tt", "t")]
    pool = []
    for kt, k in keys:
        if rng.random() < absent or (valid and not m.get(k) and rng.random() < .7):
            continue
        top = max(len(m.get(k) or [0]) - 1, 0)
        if valid and not m.get(k):
            if k in m:
                m[kt] = []
            continue
        if pool and rng.random() < .5:
            a = [min(i, top) for i in rng.choice(pool)]
        else:
            cnt = 0 if rng.random() < empty else corners if rng.random() < .8 else rng.randrange(1, 3 * n)
            a = [rng.randrange(top + 1) for _ in range(cnt)]
        pool.append(a)
        m[kt] = a
    m["c"] = [custom_data(rng, "c%d" % rng.randrange(6), n) for _ in range(rng.randrange(custom + 1))]
    return m


def custom_data(rng, name, n, kind=None):
    kind = kind or rng.choice(["index", "int", "float", "rgba"])
    cnt = rng.choice([0, 1, 2, rng.randrange(1, n + 1)])
    c = {"name": name, "kind": kind}
    if kind in ("index", "int"):
        c["data"] = indices(rng, cnt)
        if rng.random() < .4:
            c["max"] = rng.choice([0, 1, max(c["data"] or [0]), U32, 2 ** 40, 2 ** 63 - 1, 2 ** 64 - 1])
    elif kind == "float":
        s = rng.choice([.1, 1, 100, 1e6])
        c["data"] = [bits(rng.uniform(-s, s)) for _ in range(cnt)]
        if rng.random() < .5:
            c["prec"] = bits(s * rng.choice([.5, .1, .01, .001]))
    else:
        c["data"] = [[bits(rng.choice([0, 1, rng.random()])) for _ in range(4)] for _ in range(cnt)]
        if rng.random() < .5:
            c["prec"] = bits(rng.choice([.5, .1, 1 / 255, .001]))
    return c


NAMES = ["", "a", "Suzanne", "mesh 1", " ", "žluťoučký kůň", "𝔘nicode", "a" * 255, "tab\tname", "\u0000"]


def prec(rng):
    p = {}
    if rng.random() < .5:
        p["v"] = bits(rng.choice([.5, .1, .05, .01, 1.0, .001]))
    if rng.random() < .5:
        p["n_deg"] = bits(rng.choice([.01, .1, 1, 5, 30, 45, 89]))
    if rng.random() < .5:
        p["u"] = [bits(rng.choice([1, 16, 256, 1024, 4096])), bits(rng.choice([.01, .1, .5, 1]))]
    if rng.random() < .5:
        p["t_rad"] = bits(rng.choice([.001, .01, .1, 1, 2]))
    return p


# ---------------------------------------------------------------- bytes of files
class BitStr:
    def __init__(self):
        self.s = []

    def put(self, v, w):
        if w:
            self.s.append(format(v & ((1 << w) - 1), "0%db" % w))
        return self

    def bytes(self):
        s = "".join(self.s)
        s += "0" * (-len(s) % 8)
        return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


class FileGen:
    """Builds files by the layout, remembering where its fields are. `marks` are (kind, offset, length)."""

    def __init__(self, rng, old=False, ver=None):
        self.rng, self.old, self.tops = rng, old, [3, 40, 300, 70000, U32]
        self.b = bytearray(b"TMF")
        self.marks = [("magic", 0, 3)]
        v = ver or ((0, 1, 0, 1) if old else (0, 2, 0, 2))
        self.mark("ver", struct.pack("<4H", *v))

    def mark(self, kind, data):
        self.marks.append((kind, len(self.b), len(data)))
        self.b += data

    def file(self, meshes):
        self.mark("meshes", struct.pack("<I", len(meshes)))
        for name, segs in meshes:
            self.mark("namelen", struct.pack("<H", len(name)))
            self.mark("name", name)
            self.mark("segs", struct.pack("<H", len(segs)))
            for ty, comp, payload, inner in segs:
                self.mark("type", struct.pack("<H" if self.old else "B", ty))
                self.mark("len", struct.pack("<Q" if self.old else "<I", len(payload)))
                self.mark("comp", bytes([comp]))
                at = len(self.b)
                self.mark("payload", payload)
                for k, o, l in inner:
                    self.marks.append((k, at + o, l))
        return bytes(self.b)

    # payloads: bytes and marks in them
    def idx(self, vals, w=None, base=None, at=0):
        rng = self.rng
        lo = min(vals) if vals else 0
        base = 0 if self.old else rng.choice([0, lo, rng.randrange(lo + 1)]) if base is None else base
        need = max([(v - base).bit_length() for v in vals] or [0])
        w = rng.choice([need, need, min(63, need + rng.randrange(8)), rng.randrange(need, max(64, need + 1))]) if w is None else w
        bs = BitStr()
        for v in vals:
            bs.put(v - base, w)
        out = struct.pack("<BQ", w, len(vals))
        cnt = ("count" if w else "bomb", at + 1, 8)
        marks = [("width", at, 1), cnt]
        if not self.old:
            marks.append(("base", at + 9, 8))
            out += struct.pack("<Q", base)
        return out + bs.bytes(), marks

    def vertices(self, n):
        rng = self.rng
        ws = [rng.randrange(1, rng.choice([4, 12, 12, 40, 64])) for _ in range(3)]
        if rng.random() < .05:      # may be refused
            ws[rng.randrange(3)] = 0
        box = []
        for _ in range(3):
            a, b = sorted([rng.randrange(-64, 64) / 8, rng.randrange(-64, 64) / 8])
            box += [a, b]
        bs = BitStr()
        for _ in range(n):
            for w in ws:
                bs.put(rng.getrandbits(w) if w else 0, w)
        return (struct.pack("<Q6d3B", n, *box, *ws) + bs.bytes(),
                [("count", 0, 8), ("box", 8, 48), ("width", 56, 1), ("width", 57, 1), ("width", 58, 1)])

    def dirs(self, n, flags):
        rng = self.rng
        w = rng.randrange(0, rng.choice([4, 12, 40, 64]))
        bs = BitStr()
        for _ in range(n):
            bs.put(rng.getrandbits(flags), flags)
            bs.put(rng.getrandbits(w) if w else 0, w)
            bs.put(rng.getrandbits(w) if w else 0, w)
        return struct.pack("<QB", n, w) + bs.bytes(), [("count", 0, 8), ("width", 8, 1)]

    def uvs(self, n):
        rng = self.rng
        w = rng.randrange(0, rng.choice([4, 12, 40, 64]))
        bs = BitStr()
        for _ in range(2 * n):
            bs.put(rng.getrandbits(w) if w else 0, w)
        return struct.pack("<BQ", w, n) + bs.bytes(), [("width", 0, 1), ("count" if w else "bomb", 1, 8)]

    def custom(self, name, payload):
        p, marks = payload
        k = 1 + len(name)
        return bytes([len(name)]) + name + p, [("cname", 0, 1)] + [(m, o + k, l) for m, o, l in marks]

    def floats(self, n):
        rng = self.rng
        w = 0 if rng.random() < .05 else rng.randrange(1, rng.choice([4, 12, 40, 64]))
        a, b = sorted([rng.randrange(-64, 64) / 8, rng.randrange(-64, 64) / 8])
        bs = BitStr()
        for _ in range(n):
            bs.put(rng.getrandbits(w) if w else 0, w)
        return struct.pack("<QddB", n, a, b, w) + bs.bytes(), [("count", 0, 8), ("box", 8, 16), ("width", 24, 1)]

    def rgba(self, n):
        rng = self.rng
        w = 0 if rng.random() < .05 else rng.randrange(1, rng.choice([4, 12, 40, 64]))
        bs = BitStr()
        for _ in range(4 * n):
            bs.put(rng.getrandbits(w) if w else 0, w)
        return struct.pack("<QB", n, w) + bs.bytes(), [("count", 0, 8), ("width", 8, 1)]

    def segment(self, n, known=True):
        """A random segment (type, compression, payload, marks)."""
        rng = self.rng
        k = rng.randrange(0, n + 1)
        ty = rng.choice([1, 2, 2, 3, 4, 4, 5, 6, 6, 9, 10, 15, 16, 23, 24, 25, 25, 0])
        if ty == 0:
            ty = rng.choice([0, 7, 8, 11, 12, 13, 14, 17, 18, 19, 20, 21, 22, 26, 27, 100, 200, 255]
                            + ([256, 257, 258, 281, 0x0102, 65535] if self.old else []))
            return ty, rng.choice([0, 0, 1, 2, 255]), bytes(rng.randrange(256) for _ in range(k)), []
        top = rng.choice(self.tops)
        if ty == 1:
            p = self.vertices(k)
        elif ty in (3, 9):
            p = self.dirs(k, 3 if ty == 3 else 4)
        elif ty == 5:
            p = self.uvs(k)
        elif ty in (2, 4, 6, 10):
            p = self.idx(indices(rng, k, top))
        elif ty == 25:
            pl, marks = self.idx(indices(rng, k, top))
            mask = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 3, 8, 11, 255])
            p = bytes([mask]) + pl, [("mask", 0, 1)] + [(m, o + 1, l) for m, o, l in marks]
        else:
            name = rng.choice([b"", b"w", b"weights", b"x" * 255, bytes([200, 1])])
            inner = self.idx(indices(rng, k, top)) if ty in (15, 24) else self.floats(k) if ty == 16 else self.rgba(k)
            p = self.custom(name, inner)
        pay, marks = p
        if rng.random() < .12:      # more bytes than the array takes
            pay = pay + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))
        return ty, 0, pay, marks


def random_file(rng, n=12, segs=6, meshes=None, old=None, ver=None, tops=None):
    old = rng.random() < .35 if old is None else old
    if ver is None and not old:
        ver = rng.choice([(0, 2, 0, 2)] * 6 + [(0, 3, 0, 2), (7, 65535, 0, 2), (1, 0, 0, 2)])
    elif ver is None:
        ver = rng.choice([(0, 1, 0, 1)] * 4 + [(0, 0, 0, 0), (0, 2, 0, 1), (3, 1, 0, 1)])
    g = FileGen(rng, old, ver)
    g.tops = tops or g.tops
    ms = []
    for _ in range(meshes if meshes is not None else rng.choice([0, 1, 1, 1, 2, 3])):
        name = rng.choice(NAMES).encode()
        ms.append((name, [g.segment(n) for _ in range(rng.randrange(segs + 1))]))
    data = g.file(ms)
    return g, data


def mutate(rng, g, data, times=1):
    """Changes fields of a file. Never blows up arrays whose elements take no bits."""
    b = bytearray(data)
    grown = set()
    for _ in range(times):
        k = rng.randrange(12)
        marks = [m for m in g.marks if m[2] > 0 and m[0] not in ("bomb", "payload")]
        kind, o, l = rng.choice(marks)
        if len(b) < 15:
            break
        if k < 7 and o + l <= len(b):
            v = int.from_bytes(b[o:o + l], "little")
            top = (1 << (8 * l)) - 1
            if kind == "width":
                if "count" in grown:
                    continue
                v = rng.choice([v + 1, v - 1 if v > 1 else 1, 1, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 0])
                grown.add("width")
            elif kind == "count":
                if "width" in grown:
                    continue
                v = rng.choice([v + 1, max(0, v - 1), v + 8, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 63,
                                2 ** 64 - 1, 10 ** 6, 10 ** 9])
                grown.add("count")
            elif kind in ("len", "base", "segs", "meshes", "namelen"):
                v = rng.choice([v + 1, v - 1, v + 8, 0, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, top])
            elif kind == "ver":
                o, l = o + 2 * rng.randrange(4), 2
                v = rng.choice([0, 1, 2, 3, 65535])
            elif kind == "comp":
                v = rng.choice([0, 1, 2, 3, 4, 254, 255])
            elif kind == "mask":
                v = rng.randrange(256)
            else:
                v = rng.getrandbits(8 * l)
            if kind == "box":
                o, l = o + 8 * rng.randrange(l // 8), 8
                b[o:o + 8] = struct.pack("<d", rng.choice([float("nan"), float("inf"), -float("inf"), 1e308, -1e308, 0.0, 5e-324]))
            else:
                b[o:o + l] = (v & ((1 << (8 * l)) - 1)).to_bytes(l, "little")
        elif k == 7 and len(b) > 16:        # cut
            del b[rng.randrange(len(b)):]
        elif k == 8:                        # append
            b += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))
        elif k == 9:                        # name
            nm = [m for m in g.marks if m[0] == "name" and m[2] > 0]
            if nm:
                kind, o, l = rng.choice(nm)
                b[min(len(b) - 1, o + rng.randrange(l))] = rng.choice([0x80, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0xc3])
        elif k == 10:                       # payload noise after the fields
            pl = [m for m in g.marks if m[0] == "payload" and m[2] > 70]
            if pl:
                kind, o, l = rng.choice(pl)
                b[min(len(b) - 1, o + rng.randrange(62, l))] = rng.randrange(256)
        else:
            o = rng.randrange(min(len(b), 15))
            b[o] = rng.randrange(256)
    return bytes(b)
