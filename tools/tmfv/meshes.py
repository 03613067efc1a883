"""From scenarios on meshes and what the library did to episodes for MeshTrace."""
import json
from .num import bits, bits64, i32, Tokens, fix, val
from .files import classof

DATA, IDX = ("v", "n", "u", "t"), ("vt", "nt", "ut", "tt")
KIND = {"VertexArrayMissing": ("v", "missing"), "NormalArrayMissing": ("n", "missing"), "UVArrayMissing": ("u", "missing"),
        "IndexOutsideVertexArray": ("v", "outside"), "IndexOutsideNormalArray": ("n", "outside"),
        "IndexOutsideUVArray": ("u", "outside"), "NormalsNotNormalized": ("n", "unit"), "UVOutsideRange": ("u", "range")}


def text(n):
    return n if isinstance(n, str) else n[0] * n[1]


def near01(x):
    """The bits of the f32 nearest to x, which is in [0,1] exactly if x is."""
    if x != x or 0 <= x <= 1:
        return bits(x)
    return bits(1.0) + 1 if 1 < x < 1.001 else 0x80000001 if -1e-30 < x < 0 else bits(max(-9, min(9, x)))


class Episode:
    def __init__(self, variant="std"):
        self.top = 2 ** 16 if variant == "short" else 0       # how many indices its type can express
        self.wide = variant == "wide"      # of a build in double precision: numbers are given as 32 bits or as 64
        self.tok = {k: Tokens() for k in DATA}
        self.ctok, self.ntok = Tokens(), Tokens()
        self.big = Tokens()
        self.nn, self.uu = [], []
        self.ev = []

    def int(self, i):
        """Integers of more than 31 bits are only compared, and in no array's range."""
        return i32(i) if not self.wide else i if i < 2 ** 31 else -self.big(i)

    def float(self, b):
        if not self.wide:
            return b
        x = val(b)
        return bits64(x) if x == x else "nan"

    def data(self, k, a):
        out = []
        for e in a:
            t = self.tok[k](tuple(map(self.float, e)))
            if k == "n" and t > len(self.nn):
                self.nn.append([max(-2 ** 25, min(2 ** 25, fix(val(b), 2 ** 24))) for b in e])
            if k == "u" and t > len(self.uu):
                self.uu.append([i32(near01(val(b)) if self.wide else b) for b in e])
            out.append(t)
        return out

    def attr(self, k, a):
        if a is None:
            return {"p": False, "a": []}
        return {"p": True, "a": self.data(k, a) if k in DATA else [self.int(i) for i in a]}

    def custom(self, c):
        if c is None or c["kind"] == "none":
            return 0
        d = c["data"]
        if self.wide and c["kind"] in ("float", "rgba"):
            d = [self.float(x) if c["kind"] == "float" else list(map(self.float, x)) for x in d]
        key = {"kind": c["kind"], "data": d}
        if "max" in c:
            key["max"] = c["max"]
        if "prec" in c:
            key["prec"] = self.float(c["prec"])
        if c["kind"] in ("index", "int") and "max" not in c:    # made from a slice
            key["max"] = max(c["data"], default=0)
        return self.ctok(json.dumps(key, sort_keys=True))

    def attrs(self, mesh):
        return {k: self.attr(k, mesh.get(k)) for k in DATA + IDX}

    def mesh(self, mesh):
        m = self.attrs(mesh)
        m["c"] = [{"name": self.ntok(text(c["name"])), "val": self.custom(c)} for c in mesh.get("c") or []]
        return m

    def snap(self, mesh):
        m = self.attrs(mesh)
        m["q"] = [{"name": self.ntok(c["name"]), "val": self.custom(c)} for c in mesh.get("c") or []]
        return m

    def run(self, sc, res):
        ev = self.ev
        ops = sc["ops"]
        files, again = {}, {}
        i = 0
        while i < len(res):
            op, r = ops[i], res[i]
            i += 1
            k, m = op["op"], op.get("m", "")
            bad = [x for x in ("panic", "crash", "hang") if x in r]
            if k == "copy":  # not used so far
                raise AssertionError(k)
            if bad:
                ms = [e[0] for e in op["list"]] if k == "save" else ["f:" + op["src"]] if k == "load" else [m]
                ev.append({"op": "fault", "of": k, "what": bad[0], "ms": ms})
            elif k == "mesh":
                ev.append({"op": k, "m": m, "mesh": self.mesh(op["mesh"])})
            elif k == "set":
                ev.append({"op": k, "m": m, "k": op["attr"], "a": self.attr(op["attr"], op["data"])["a"],
                           "old": self.attr(op["attr"], r["old"])})
            elif k == "append":
                ev.append({"op": k, "m": m, "k": op["attr"], "a": self.attr(op["attr"], op["data"])["a"]})
            elif k in ("get", "buffer"):
                ev.append({"op": k, "m": m, "k": op["attr"], "val": self.attr(op["attr"], r["val"])})
            elif k == "custom":
                t = text(op["c"]["name"])
                ev.append({"op": k, "m": m, "name": self.ntok(t), "nlen": len(t.encode()), "val": self.custom(op["c"]),
                           "res": "ok" if "ok" in r else r["err"]})
            elif k == "lookup":
                ev.append({"op": k, "m": m, "name": self.ntok(text(op["name"])), "val": self.custom(r["val"]),
                           "views": [self.custom(v) for v in r["views"]]})
            elif k == "snap":
                ev.append({"op": k, "m": m, "snap": self.snap(r["mesh"])})
            elif k in ("unify", "reorder", "normalize"):
                nxt = ops[i]
                assert nxt["op"] == "snap" and nxt["m"] == m
                if i >= len(res) or "mesh" not in res[i]:
                    ev.append({"op": "fault", "of": "snap", "what": "panic", "ms": [m]})
                else:
                    ev.append({"op": k, "m": m, "snap": self.snap(res[i]["mesh"]), "again": bool(op.get("again"))})
                i += 1
            elif k == "verify":
                fs = []
                for e in r.get("err", []):
                    a, kind = KIND[e[0]]
                    f = {"k": a, "kind": kind, "x": 0, "y": 0}
                    if kind == "outside":
                        f["x"], f["y"] = self.int(e[1]), e[2]
                    elif kind == "range":
                        f["x"] = self.data("u", [[e[1], e[2]]])[0]
                    fs.append(f)
                ev.append({"op": k, "m": m, "faults": fs})
            elif k == "save":
                ev.append({"op": k, "ms": [e[0] for e in op["list"]], "file": "f:" + op["out"],
                           "res": "ok" if "ok" in r else r["err"]})
            elif k == "load":
                n = (len(r["ok"]) if isinstance(r["ok"], list) else r["ok"]) if "ok" in r else 0
                ev.append({"op": k, "file": "f:" + op["src"], "res": "ok" if "ok" in r else r["err"],
                           "ms": ["%s%d" % (op["out"], j) for j in range(n)]})
            else:
                raise AssertionError(k)
        return {"nn": self.nn, "uu": self.uu, "top": self.top, "ev": ev}


def check(chk, scen, full=3, tag="", chunk=None, variants=("std", "full")):
    for v in variants:
        part = scen if v != "full" or chk.tier == "thorough" else scen[::full]
        res = chk.runners[v].run(part, tag + v)
        eps = [Episode(v).run(s, r) for s, r in zip(part, res)]
        if v == "std":
            for e in sorted(eps[:40], key=lambda e: len(json.dumps(e)))[-1:]:
                chk.sample(e)
        chk.validate("MeshTrace", eps, part, variant=v, tag=tag, chunk=chunk)


def design(chk, depth, keys, datas, names, layouts, emit, tag="", simulate=0):
    """Model checks MeshOpsMC (or simulates it); with emit, returns the sequences of operations."""
    q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    cfg = ("INIT Init\nNEXT Next\nINVARIANTS Relations FirstFound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d Keys = %s\n"
           "Names = {%s} Layouts = %s Emit = %s\nDatas <- DatasDef\n" % (
               depth, q(keys), ", ".join(map(str, names)), q(layouts), "TRUE" if emit else "FALSE"))
    body = "---- MODULE MeshOpsRun ----\nEXTENDS MeshOpsMC\nDatasDef == {%s}\n====\n" % ", ".join(
        "<<%s>>" % ", ".join(map(str, d)) for d in datas)
    args = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 1), "-seed", str(1 + simulate)] if simulate else []
    r = chk.model("MeshOpsRun", cfg, tag=tag, extra={"MeshOpsRun.tla": body}, args=args,
                  workers=1 if simulate else "auto")
    return [json.loads(p[4:]) for p in dict.fromkeys(r.prints) if p.startswith("SEQ ")]


def layouts(chk, used, emit=True, tag=""):
    """Model checks LayoutMC; returns the meshes it starts from."""
    r = chk.model("LayoutMC", "INIT Init\nNEXT Next\nINVARIANTS Demanded Idempotent Corners StillVerifies\nCHECK_DEADLOCK FALSE\n"
                  "CONSTANTS Used = {%s} Emit = %s\n" % (", ".join('"%s"' % u for u in used), "TRUE" if emit else "FALSE"), tag=tag)
    return [json.loads(p[5:]) for p in dict.fromkeys(r.prints) if p.startswith("MESH ")]


def concrete(m, elem):
    """A mesh of the design model with real elements."""
    out = {}
    for k in DATA + IDX:
        if m[k]["p"]:
            out[k] = [elem[k](x) for x in m[k]["a"]] if k in DATA else list(m[k]["a"])
    return out
