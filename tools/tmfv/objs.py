"""Text of .obj files: lexing, rendering, and episodes for ObjTrace."""
import json, math, re, struct
from decimal import Decimal
from fractions import Fraction
from .num import Tokens, bits, bits64, val

WS = "\t\n\x0b\x0c\r \x85\xa0\u1680" + "".join(map(chr, range(0x2000, 0x200b))) + "\u2028\u2029\u202f\u205f\u3000"
SPLIT = re.compile("[%s]+" % WS)
NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$", re.ASCII)
SPECIAL = re.compile(r"[+-]?(inf|infinity|nan)$", re.I)
CORNER = re.compile(r"(\d+)(?:/(\d*)(?:/(\d*))?)?$", re.ASCII)


def nearest32(text):
    """Bits of the f32 nearest to a decimal number, ties to even; None when it is out of range."""
    neg = text.startswith("-")
    x = abs(Fraction(Decimal(text)))
    if x == 0:
        return 0x80000000 if neg else 0
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x:
        e -= 1
    e = max(e, -126)
    q = x / Fraction(2) ** (e - 23)
    n = round(q)       # Fraction rounds half to even
    if n >= 1 << 24:
        n, e = n >> 1, e + 1
    if e > 127:
        return None
    b = (n if e == -126 and n < 1 << 23 else ((e + 127) << 23) + (n - (1 << 23)))
    return b | (0x80000000 if neg else 0)


def nearest(text, wide):
    """What a build reads a decimal number as: see mesh.rs of the harness."""
    if not wide:
        return nearest32(text)
    x = float(text)     # correctly rounded
    return bits64(x) if math.isfinite(x) else None


def widened(e, wide):
    """Numbers given to a build, as the build gives them."""
    return tuple(bits64(val(b)) for b in e) if wide else tuple(e)


def line(k, val=0, c=(), name=""):
    return {"k": k, "val": val, "c": [list(x) for x in c], "name": name}


def lex_numbers(words, n, wide=False):
    """Bits of n numbers, or 'bad' or 'free'."""
    out = []
    for w in words[:n]:
        if SPECIAL.match(w):
            out.append("free")
        elif not NUM.match(w):
            return "bad"
        elif abs(int((re.search(r"[eE]([+-]?\d+)$", w) or [0, "0"])[1])) > 200:
            out.append("free")
        else:
            b = nearest(w, wide)
            out.append("free" if b is None else b)
    if len(out) < n:
        return "bad"
    return "free" if "free" in out else out


def lex_line(t, tok, wide=False):
    t = t.strip(WS)
    words = SPLIT.split(t) if t else []
    if not words:
        return line("skip")
    k = words[0]
    if k in ("v", "vn"):
        n = lex_numbers(words[1:], 3, wide)
        return line(n) if isinstance(n, str) else line("v" if k == "v" else "n", tok[k](tuple(n)))
    if k == "vt":
        if len(words) == 2 and (NUM.match(words[1]) or SPECIAL.match(words[1])):
            return line("free")
        n = lex_numbers(words[1:], 2, wide)
        return line(n) if isinstance(n, str) else line("u", tok["vt"](tuple(n)))
    if k == "o":
        return line("o", name=t[1:].lstrip(WS))
    if k == "f":
        cs, free = [], False
        for w in words[1:]:
            if w.startswith("#"):
                break
            m = CORNER.match(w)
            if not m:
                if re.match(r"\+\d+|\d+/\+|\d+/\d*/\+", w):
                    free = True
                    continue
                return line("bad")
            ix = [int(g) if g else 0 for g in (m[1], m[2], m[3])]
            if any(g and int(g) == 0 for g in (m[1], m[2], m[3])):
                return line("bad")
            if w.endswith("/") or any(g >= 2 ** 32 for g in ix):
                free = True
                continue
            cs.append([min(g, 2 ** 30) for g in ix])
        return line("free") if free else line("f", c=cs)
    return line("skip")


def lines_of(text):
    ls = text.split("\n")
    if ls[-1] == "":
        ls.pop()
    return ls


def new_tokens():
    return {"v": Tokens(), "vn": Tokens(), "vt": Tokens()}


def lex(text, tok, wide=False):
    return [lex_line(t, tok, wide) for t in lines_of(text)]


def read_meshes(ok, tok):
    out = []
    for e in ok:
        vb, nb, ub = e["vb"], e["nb"], e["ub"]
        n = len(vb or [])
        u = ub is not None and len(ub) == n
        nn = nb is not None and len(nb) == n
        cs = [[tok["v"](tuple(vb[i])), tok["vt"](tuple(ub[i])) if u else 0, tok["vn"](tuple(nb[i])) if nn else 0] for i in range(n)]
        if vb is None and e["mesh"].get("vt"):
            cs = [[0, 0, 0]]
        out.append({"name": e["name"], "cs": cs, "v": vb is not None, "u": u, "n": nn})
    return out


def judged(m):
    """Indices in range of data that is there, and finite numbers."""
    for k, kt in (("v", "vt"), ("n", "nt"), ("u", "ut")):
        a = m.get(kt)
        if a is None:
            continue
        if m.get(k) is None or any(i >= len(m[k]) for i in a):
            return False
    return all(math.isfinite(val(b)) for k in "vnu" for e in m.get(k) or [] for b in e)


def abstract(m, name, tok, wide=False):
    out = {"name": name}
    for k, kt, tk in (("v", "vt", "v"), ("n", "nt", "vn"), ("u", "ut", "vt")):
        out[k] = {"p": m.get(k) is not None, "a": [tok[tk](widened(e, wide)) for e in m.get(k) or []]}
        a = m.get(kt)
        out[kt] = {"p": a is not None, "a": [min(i, 2 ** 30) for i in a] if a is not None else []}
    return out


def episode(sc, res, wide=False):
    tok, ev, reg, blobs = new_tokens(), [], {}, {}
    for op, r in zip(sc["ops"], res):
        k = op["op"]
        bad = [x for x in ("panic", "crash", "hang") if x in r]
        if k == "mesh":
            reg[op["m"]] = op["mesh"]
        elif k == "obj_save":
            ms = [(reg[a], n) for a, n in op["list"]]
            j = all(judged(m) and n.strip(WS) == n and "\n" not in n for m, n in ms)
            if bad:
                if j:
                    ev.append({"op": "fault", "of": "writing", "what": bad[0]})
                break
            ev.append({"op": "write", "judged": j, "res": "ok" if "ok" in r else r["err"],
                       "meshes": [abstract(m, n, tok, wide) for m, n in ms] if j else []})
            if "ok" in r:
                blobs[op.get("out")] = bytes.fromhex(r["bytes"]).decode()
            else:
                break
        elif k == "obj_load":
            text = op.get("text", blobs.get(op.get("src")))
            if text is not None and len(text) > sc.get("longest", 1 << 40):
                pass        # judged by what was written only
            elif text is not None:
                ev.append({"op": "text", "lines": lex(text, tok, wide)})
            else:
                ev.append({"op": "text", "lines": [line("free")]})
            if bad:
                ev.append({"op": "fault", "of": "reading", "what": bad[0]})
                break
            ev.append({"op": "read", "res": "ok" if "ok" in r else r["err"],
                       "meshes": read_meshes(r["ok"], tok) if "ok" in r else []})
    return {"ev": ev}


def check(chk, scen, full=2, tag="", variants=("std", "full"), chunk=None):
    for v in variants:
        part = scen if v != "full" or chk.tier == "thorough" or len(variants) == 1 else scen[::full]
        res = chk.runners[v].run(part, tag + v)
        eps = [episode(s, r, v == "wide") for s, r in zip(part, res)]
        for e in eps[len(eps) // 2:len(eps) // 2 + 1]:
            chk.sample(e)
        chk.validate("ObjTrace", eps, part, variant=v, tag=tag, chunk=chunk, consts="CONSTANTS Tri = %s Largest = %d\n" % ("TRUE" if v == "full" else "FALSE", 65535 if v == "short" else 2 ** 30))


# ---------------------------------------------------------------- rendering
def number(rng, b):
    """A decimal number whose nearest f32 has bits b."""
    x = val(b)
    c = rng.randrange(7)
    t = ["%.9g" % x, "%.9e" % x, format(Decimal(x), "f"), "%.9g" % x, "%.12e" % x, "%.9G" % x, "%.17g" % x][c]
    if "e" not in t and "E" not in t:
        if rng.random() < .15:
            t += "." if "." not in t else "000"
        if rng.random() < .15 and t.startswith("0.") and t[2:3].isdigit():
            t = t[1:]
        if rng.random() < .05 and len(t) < 30:
            t += "e0"
    if rng.random() < .08 and not t.startswith("-"):
        t = "+" + t
    if rng.random() < .05:
        t = t.replace("-", "-00") if t.startswith("-") and t[1:2].isdigit() else t
    return t if nearest32(t) == b else "%.9e" % x


def blank(rng):
    return rng.choice([" "] * 6 + ["  ", "\t", " \t ", "\x0b", "\u00a0", "\u3000"])


def render(rng, words, comment=True):
    t = rng.choice(["", "", "", " ", "\t"]) + "".join(w + blank(rng) for w in words[:-1]) + words[-1]
    return t + rng.choice([""] * 6 + [" ", "\t ", "\r"] + ([" # c"] if comment else []))


def corner(rng, p, style):
    v, u, n = p
    return {"v": "%d" % v, "vt": "%d/%d" % (v, u), "vn": "%d//%d" % (v, n), "vtn": "%d/%d/%d" % (v, u, n)}[style]
