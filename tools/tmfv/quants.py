"""From saves and loads of real meshes to episodes for QuantTrace."""
import json, math
from fractions import Fraction
from .num import bits, val, fix, clip, i32, Tokens
from .meshes import text
from .files import ints

ONE24 = 1 << 24
NONE = Fraction(val(bits(.1)))


def norm_settings(rad):
    """rad: the requested angle, an f32 in radians."""
    return {"a": min(math.ceil(rad / (math.pi / 2) * ONE24), 4 * ONE24), "z": min(math.ceil(rad * ONE24), 4 * ONE24)}


def angle(p, k):
    if k + "_deg" in p:
        return math.radians(val(p[k + "_deg"]))
    return val(p[k + "_rad"]) if k + "_rad" in p else math.radians(1)


def settings(sc, variant):
    """Settings of a scenario in the units of its projections. sc["unit"], sc["off"]: lattice of its vertices;
    sc["edge"]: about the length of its shortest edge."""
    p = sc["prec"]
    pv = Fraction(val(p.get("v", bits(.1))))
    u = Fraction(sc.get("unit", 1))
    q = 0
    while pv * 2 ** q < 1 << 14:
        q += 1
    while pv * 2 ** q >= 1 << 15:
        q -= 1
    P = math.ceil(pv * 2 ** q)
    if P == 1 << 15:
        P, q = P >> 1, q - 1
    tol = float(pv * Fraction(sc.get("edge", 1)) if sc.get("edge") else pv * NONE / u)
    j = max(0, min(24, 16 - math.ceil(math.log2(max(tol, 1e-9)))))
    uv = p.get("u", [bits(1024), bits(.1)])
    # Rounding of 32-bit floats; the approximate sine of the full build is documented to be less accurate.
    fuzz = math.ceil({"std": 3e-6, "short": 3e-6, "full": 1.4e-3, "wide": 2e-7}[variant] / (math.pi / 2) * ONE24)
    s = {"v": {"p": P, "q": q, "j": j, "off": math.ceil(Fraction(sc.get("off", 0)) / u), "fine": variant == "wide" and sc.get("fine", False),
               "none": min(2 ** 30, math.ceil(pv * NONE / u * 2 ** j))},
         "u": math.floor(Fraction(val(uv[1])) / Fraction(val(uv[0])) * 2 ** 28) + 1}
    for k in "nt":
        s[k] = dict(norm_settings(angle(p, k)), fuzz=fuzz, fine=variant == "wide" and sc.get("fine_dirs", False))
        for f, a in (("af", angle(p, k) / (math.pi / 2)), ("zf", angle(p, k))):
            s[k][f] = min(math.ceil(a * 2 ** 48), 2 ** 27)
    return s


class Proj:
    def __init__(self, sc, set_):
        self.sc, self.set = sc, set_
        self.name, self.id = Tokens(), Tokens()
        self.prec = {}        # precision of custom arrays, by name
        self.u = Fraction(sc.get("unit", 1))

    def vert(self, e, k=None):
        """Relative to the coordinates on the lattice, if k is given; else as pairs."""
        out = []
        F = 2 ** self.set["v"]["j"]
        for c, b in enumerate(e):
            x = val(b)
            if not math.isfinite(x):
                out.append([2 ** 30, 0])
                continue
            o = Fraction(self.sc.get("origin", [0, 0, 0])[c])
            n = Fraction(x) - o
            q = round(n / self.u)
            out.append([clip(q), fix(n / self.u - q, F)] if abs(q) < 2 ** 30 else [clip(q), 0])
        return out

    def dirn(self, e):
        v = [val(b) for b in e[:3]]
        if not all(map(math.isfinite, v)):
            return {"c": [20000] * 3, "az": 0, "z": 2 ** 26, "m": 0, "h": 2, "sg": [0] * 3}
        az = math.atan2(v[1], v[0]) / (math.pi / 2) % 4
        h = 0
        if len(e) > 3:
            x = val(e[3])
            h = 2 if x != x else -1 if math.copysign(1, x) < 0 else 1
        fine = {"az": fix(az, ONE24) % (4 * ONE24), "z": clip(fix(v[2], ONE24), 2 ** 26)}
        if self.set["n"]["fine"]:      # and what is below a unit, in 2^-24 of it
            a, z = round(az * 2 ** 48) % 2 ** 50, round(clip(v[2], 4) * 2 ** 48)
            fine = {"az": a >> 24, "azf": a % ONE24, "z": z >> 24, "zf": z % ONE24}
        return {**fine, "c": [max(-20000, min(20000, fix(x, 1 << 14))) for x in v], "m": abs(fix(math.sqrt(sum(x * x for x in v)) - 1, ONE24)), "h": h,
                "sg": [1 if math.copysign(1, x) > 0 else -1 for x in v]}

    def custom(self, c, saved=False):
        name = self.name(text(c["name"]))
        k = c["kind"]
        if k == "none":
            return {"name": name, "kind": k, "a": [], "tol": 0}
        d, tol = c["data"], 0
        if saved:
            p = Fraction(val(c.get("prec", bits(.01))))
            if k == "float" and d:      # of very fine ones, what 32 bits hold
                p = max(p, max(abs(Fraction(val(x))) for x in d) / 2 ** 18)
            self.prec.setdefault(name, p)
        p = self.prec.get(name, Fraction(1, 100))
        if k in ("index", "int"):
            a = ints(d, None)
        elif k == "float":
            a = [clip(fix(val(x), 1024 / p)) for x in d]
        else:
            F = 2 ** 28 if self.set["v"]["fine"] else ONE24
            a = [[clip(fix(val(x), F), 4 * F) for x in e] for e in d]
            tol = min(2 * F, math.ceil(p * F))
        return {"name": name, "kind": k, "a": a, "tol": tol}

    def mesh(self, m, saved=False):
        if saved:
            self.prec = {}
        r = {"h" + k: m.get(k) is not None for k in "vnut"}
        for k in "vnut":
            r["l" + k] = m["len"][k] if "len" in m else len(m.get(k) or [])
        r["v"] = [self.vert(e) for e in m.get("v") or []]
        r["vt"] = [min(i, 2 ** 30) for i in m.get("vt") or []] if m.get("v") else []
        r["n"] = [self.dirn(e) for e in m.get("n") or []]
        r["t"] = [self.dirn(e) for e in m.get("t") or []]
        r["u"] = [[clip(fix(val(b), 1 << 28), 2 ** 29) for b in e] for e in m.get("u") or []]
        r["c"] = [self.custom(c, saved) for c in m.get("c") or []]
        return r

    def same(self, m):
        """Token of what all generations have in common."""
        k = {x: m.get(x) for x in ("vt", "nt", "ut", "tt", "u")}
        k["h"] = [m.get(x) is not None for x in "vnut"]
        k["c"] = [[c["name"], c["kind"], c.get("data") if c["kind"] != "float" else None] for c in m.get("c") or []]
        return self.id(json.dumps(k, sort_keys=True))


LARGE = 3000
KEPT = {"v": "v", "n": "n", "u": "u", "t": "t"}


def thin(meshes):
    """The meshes of an episode with large arrays reduced to what is different in any of them: the claims are about each
    element, so repeated (saved, loaded, ...) tuples say nothing new. Adds the true lengths as "len"."""
    if not any(len(m.get(k) or []) > LARGE for m in meshes for k in ("v", "n", "u", "t", "vt")):
        return meshes
    out = [dict(m, len={k: len(m.get(k) or []) for k in KEPT}) for m in meshes]
    for k in KEPT:
        arrays = [m.get(k) or [] for m in meshes]
        if len({len(a) for a in arrays}) != 1 or len(arrays[0]) <= LARGE:
            continue
        place, new = {}, []
        for e in zip(*arrays):
            new.append(place.setdefault(tuple(tuple(x) for x in e), len(place)))
        for i, m in enumerate(out):
            m[k] = [list(e[i]) for e in place]
            if k == "v" and m.get("vt"):
                m["vt"] = [new[j] if j < len(new) else 2 ** 30 for j in m["vt"]]
    for m in out:
        t = m.get("vt") or []
        if len(t) > LARGE and m.get("v"):
            tris = dict.fromkeys(tuple(t[j:j + 3]) for j in range(0, len(t) - 2, 3))
            m["vt"] = [j for x in tris for j in x]
    return out


def episode(sc, res, variant):
    set_ = settings(sc, variant)
    P = Proj(sc, set_)
    ev, reg, tok = [], {}, Tokens()
    whole = lambda m: tok(json.dumps(m, sort_keys=True))
    where = [("op", i) for i, op in enumerate(sc["ops"]) if op["op"] == "mesh"] + [
        ("res", i) for i, r in enumerate(res) if sc["ops"][i]["op"] == "load" and len(r.get("ok", [])) == 1]
    thinned = dict(zip(where, thin([sc["ops"][i]["mesh"] if w == "op" else res[i]["ok"][0]["mesh"] for w, i in where])))
    for at, (op, r) in enumerate(zip(sc["ops"], res)):
        k = op["op"]
        bad = [x for x in ("panic", "crash", "hang") if x in r]
        if bad:
            ev.append({"op": "fault", "of": k, "what": bad[0]})
            break
        if k == "mesh":
            e = P.mesh(thinned["op", at], True)
            for v in e["v"]:
                assert all(abs(c[0]) <= 13000 for c in v), "vertex off the lattice"
                for c in v:
                    c[1] = 0
            ev.append({"op": "mesh", "mesh": e, "id": 0})
        elif k == "snap":
            # Of the mesh to be saved: its token before and after
            t = whole(r["mesh"])
            if not any(e["op"] == "save" for e in ev):
                ev[0]["id"] = t
            else:
                [e for e in ev if e["op"] == "save"][-1]["after"] = t
        elif k == "save":
            first = op["list"] == [["m", "x"]]
            ev.append({"op": "save" if first else "again", "res": "ok" if "ok" in r else r["err"], "bytes": tok(r.get("bytes")),
                       "after": ev[0]["id"] if first else 0})
            if "ok" not in r:
                break
        elif k == "load":
            e = {"op": "load", "res": "ok" if "ok" in r else r["err"], "id": 0, "mesh": 0}
            if "ok" in r:
                if len(r["ok"]) != 1:
                    e["res"] = "%d meshes" % len(r["ok"])
                else:
                    e["mesh"] = P.mesh(thinned["res", at])
                    e["id"] = tok("%s %d" % (r["ok"][0]["name"], P.same(r["ok"][0]["mesh"])))
            ev.append(e)
            if e["res"] != "ok":
                break
    return {"set": set_, "ev": ev}


def scenario(mesh, prec, names=(), gens=1, twice=False, **kw):
    ops = [{"op": "mesh", "m": "m", "mesh": mesh}]
    if twice:
        ops.append({"op": "snap", "m": "m", "names": list(names)})
    ops.append({"op": "save", "list": [["m", "x"]], "prec": prec, "out": "f0"})
    if twice:
        ops += [{"op": "snap", "m": "m", "names": list(names)}, {"op": "save", "list": [["m", "x"]], "prec": prec, "out": "f0"}]
    for g in range(gens):
        ops.append({"op": "load", "src": "f%d" % g, "names": list(names), "out": "g%d_" % g})
        if g + 1 < gens:
            ops.append({"op": "save", "list": [["g%d_0" % g, "x"]], "prec": prec, "out": "f%d" % (g + 1)})
    return dict({"ops": ops, "prec": prec}, **kw)


def check(chk, scen, tag="", chunk=None, full=2, variants=("std", "full")):
    for v in variants:
        part = [s for s in (scen if v != "full" or chk.tier == "thorough" else scen[::full]) if v not in s.get("skip", ())]
        res = chk.runners[v].run(part, tag + v)
        eps = [episode(s, r, v) for s, r in zip(part, res)]
        if v == "std":
            for e in sorted(eps[:40], key=lambda e: len(json.dumps(e)))[:1] + eps[len(eps) // 2:len(eps) // 2 + 1]:
                chk.sample(e)
        chk.validate("QuantTrace", eps, part, variant=v, tag=tag, chunk=chunk)


# ---------------------------------------------------------------- vertices
def lattice(rng, pts, unit, origin, bits=bits):
    """Floats at the places of lattice points. origin: multiples of the unit in which all coordinates are exact."""
    return [[bits(float(Fraction(origin[c]) + Fraction(unit) * k[c])) for c in range(3)] for k in pts]


def edge2(pts, tris):
    best = 0
    for t in range(0, len(tris) - 2, 3):
        c = tris[t:t + 3]
        if any(i >= len(pts) for i in c):
            continue
        for a, b in ((0, 1), (1, 2), (2, 0)):
            d = sum((x - y) ** 2 for x, y in zip(pts[c[a]], pts[c[b]]))
            if d and (not best or d < best):
                best = d
    return best
