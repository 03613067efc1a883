"""From scenarios and what the library did to episodes for TmfTrace."""
import array, hashlib, json
from .num import i32, Tokens

KINDS = {"v", "n", "u", "t"}


def name_text(n):
    return n if isinstance(n, str) else n[0] * n[1]


def name_bytes(n):
    return list(name_text(n).encode())


def name_text_token(n):
    """Names which the specification only compares."""
    t = name_text(n)
    return "n:" + t if len(t) < 40 and t.isascii() and t.isalnum() else "h:" + hashlib.sha256(t.encode()).hexdigest()


def classof(err):
    """The error class of a recorded error."""
    if err.startswith("IO:"):
        return err if err in ("IO:UnexpectedEof", "IO:InvalidData") else "IO"
    return err.split(":")[0]


def arr(mesh, k):
    a = mesh.get(k)
    return {"p": a is not None, "n": len(a) if a is not None else 0}


def ints(a, namer, wide=False):
    """Integers as the specification compares them. Long arrays it does not read in a file itself are digested
    (length and 192 bits of a hash). wide: as 64 bits."""
    if wide:
        return [[i32(i >> 32), i32(i & 0xffffffff)] for i in a]
    if namer is name_bytes or len(a) <= 2048:
        return [i32(i) for i in a]
    h = hashlib.sha256(array.array("I", a).tobytes()).digest()
    return [-1, len(a)] + [int.from_bytes(h[3 * i:3 * i + 3], "big") for i in range(8)]


def idx(mesh, k, namer=name_bytes, wide=False):
    a = mesh.get(k)
    return {"p": a is not None, "a": ints(a, namer, wide) if a is not None else []}


def custom(c, namer, wide=False):
    if c["kind"] == "none":
        return {"name": namer(c["name"]), "kind": "none", "n": 0, "a": []}
    d = c["data"]
    return {"name": namer(c["name"]), "kind": c["kind"], "n": len(d),
            "a": ints(d, namer, wide) if c["kind"] in ("index", "int") else []}


def abstract(mesh, name, namer=name_bytes, wide=False):
    """A mesh as the specification sees it. Custom data in the order it is given in."""
    m = {"name": namer(name), "c": [custom(c, namer, wide) for c in mesh.get("c") or []]}
    for k in ("v", "n", "u", "t"):
        m[k] = arr(mesh, k)
    for k in ("vt", "nt", "ut", "tt"):
        m[k] = idx(mesh, k, namer, wide)
    return m


def condense(meshes):
    """Of a very long list of meshes the specification compares the ends, and a digest of all."""
    if len(meshes) <= 1500:
        return meshes
    seen = []
    for m in meshes:    # of custom data what lookups can find
        c = {}
        for e in m["c"]:
            if e["kind"] != "none":
                c.setdefault(e["name"], e)
        seen.append(dict(m, c=c))
    h = hashlib.sha256(json.dumps(seen, sort_keys=True).encode()).hexdigest()
    return meshes[:50] + [abstract({}, "%d %s" % (len(meshes), h), name_text_token)] + meshes[-50:]


class Episodes:
    """Turns results into events. Scenarios carry in `note` what the projection needs to know:
    fits (default true) per save."""

    def __init__(self, read=False, toks=None, values=None, loaded=None, wide=False):
        self.wide = wide
        self.read, self.tok, self.values = read, toks or Tokens(), values
        self.loaded = loaded
        self.namer = name_bytes if read else name_text_token

    def token(self, entry):
        return self.tok(json.dumps([entry["name"], entry["mesh"]], sort_keys=True))

    def load(self, op, r, file, meshes=True):
        ev = {"file": file, "vals": False,"op": "load", "mode": op.get("mode", "sync"), "io": False, "meshes": [], "toks": [],
              "len": r.get("len", 0), "peak": (r.get("peak", 0) + 1023) // 1024}
        if "ok" in r:
            ev["res"] = "ok"
            if isinstance(r["ok"], list):
                ev["toks"] = [self.token(e) for e in r["ok"]]
                if meshes:
                    ev["meshes"] = [abstract(e["mesh"], e["name"], self.namer, self.wide) for e in r["ok"]]
                    if self.loaded:
                        ev["vals"] = True
                        for m, e in zip(ev["meshes"], r["ok"]):
                            self.loaded(m, e["mesh"])
                    if self.namer is name_text_token:
                        ev["meshes"] = condense(ev["meshes"])
        elif "err" in r:
            ev["res"] = classof(r["err"])
            ev["io"] = r["err"].startswith("IO:")
        else:
            ev["res"] = [k for k in ("panic", "crash", "hang") if k in r][0]
        return ev

    def episode(self, sc, res):
        """Events of a scenario: mesh, custom, save, load, cuts ops."""
        b, ev, blobs, reg = [], [], {}, {}
        fits = sc.get("fits", True)

        def bytes_of(op):
            if "src" in op and "cut" not in op and "tail" not in op:
                return blobs.get(op["src"])
            if "bytes" in op and "cut" not in op and "tail" not in op:
                return bytes.fromhex(op["bytes"])
            return None
        for op, r in zip(sc["ops"], res):
            bad = [k for k in ("panic", "crash", "hang") if k in r]
            k = op["op"]
            if k == "save":
                e = {"op": "save", "fits": fits, "file": 0, "meshes": [], "keep": "alone" in op}
                if bad:
                    e["res"] = bad[0]
                elif "ok" in r:
                    e["res"] = "ok"
                    data = bytes.fromhex(r["bytes"]) if "bytes" in r else None
                    if "out" in op:
                        blobs[op["out"]] = data
                    e["meshes"] = [self.saved(reg[m], n, op) for m, n in op["list"]]
                    if self.namer is name_text_token:
                        e["meshes"] = condense(e["meshes"])
                    ev.append(e)
                    if self.read and data is not None:
                        b.append(list(data))
                        e["file"] = len(b)
                        ev.append({"op": "read", "file": len(b)})
                    continue
                else:
                    e["res"] = classof(r["err"])
                ev.append(e)
            elif bad:
                if k == "load":
                    ev.append(self.load(op, r, len(b)))
                else:
                    ev.append({"op": bad[0]})
            elif k == "mesh":
                reg[op["m"]] = op["mesh"]
            elif k == "many_custom":
                reg[op["m"]] = dict(reg.get(op["m"], {}))
            elif k == "blob":
                data = bytes_of(op)
                blobs[op["out"]] = data
                if self.read and data is not None:
                    b.append(list(data))
                    ev.append({"op": "read", "file": len(b)})
            elif k == "load":
                if op.get("alone") is not None:
                    e = self.load(op, r, len(b))
                    ev.append({"op": "alone", "i": op["alone"], "tok": e["toks"][0] if len(e["toks"]) == 1 else 0})
                else:
                    ev.append(self.load(op, r, len(b)))
            elif k == "cuts":
                ev.append({"op": "cuts", "outs": [classof(o) if o != "ok" else o for _, o in r["outs"]]})
        return {"b": b, "ev": ev}

    def saved(self, mesh, name, op):
        m = abstract(mesh, name, self.namer, self.wide)
        if self.values:
            self.values(m, mesh, op)
        return m


# Bits of the indices of builds of the library
BITS = {"std": 32, "full": 32, "short": 16, "wide": 64}


def check(chk, scen, read=False, full=3, values=None, loaded=None, tag="", chunk=None, variants=("std", "full")):
    """Runs scenarios on the builds (every `full`-th on the full build) and validates them with TmfTrace."""
    out = {}
    for v in variants:
        part = scen if v != "full" or chk.tier == "thorough" else scen[::full]
        res = chk.runners[v].run(part, tag + v)
        E = Episodes(read=read, values=values, loaded=loaded and (lambda m, j: loaded(m, j, v)), wide=v == "wide")
        eps = [E.episode(s, r) for s, r in zip(part, res)]
        if v == "std":
            for e in sorted(eps[:40], key=lambda e: len(json.dumps(e)))[-2:]:
                chk.sample(e)
        chk.validate("TmfTrace", eps, part, variant=v, tag=tag, chunk=chunk, consts="CONSTANT IdxBits = %d\n" % BITS[v])
        out[v] = (part, res)
    return out


def file_model(chk, segs, meshes, emit=False, tag="", bits=32):
    """Model checks FileMC; with emit, returns the files it wrote."""
    r = chk.model("FileMC", "INIT Init\nNEXT Next\nINVARIANTS Whole Truncated\n%sCHECK_DEADLOCK FALSE\n"
                  "CONSTANTS MaxSegs = %d MaxMeshes = %d Emit = %s IdxBits = %d\n" % (
                      "" if emit else "PROPERTY Progress\n", segs, meshes, "TRUE" if emit else "FALSE", bits), tag=tag)
    return [bytes(json.loads(p[5:])) for p in dict.fromkeys(r.prints) if p.startswith("FILE ")]


def raw(data, **kw):
    """Scenario: bytes as they are, read by the specification and by the library."""
    return {"ops": [{"op": "blob", "bytes": data.hex(), "out": "f"}, dict({"op": "load", "src": "f"}, **kw)]}
