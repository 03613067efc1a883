"""C19: importing .obj text yields the geometry it describes or an error."""
import json, random
from . import core, gen, objs
from .num import bits
from .p_c18 import fbits, NAMES

SKIP = ["", "   ", "# comment", "#comment", "g group", "s off", "s 1", "mtllib x.mtl", "usemtl m", "vp 1 2", "l 1 2 3", "vx 1 2 3", "fo 1 2 3", "object", "# f 1 1 1",
        "F 1 1 1", "V 1 2 3", "O x", "-", "v1 2 3 4", "\u00a0"]
BADNUM = ["abc", "1,5", "1.2.3", "--1", "1e", "0x10", "1_0", ".", "-", "+", "e5", "1e+", "1.5f", "१", "1/2", "+-1", "1e1.5", "#"]
BADFACE = ["a", "0", "-1", "1.0", "/1", "1/x", "1//x", "1/0", "1//0", "1/2/0", "1/1/1/1", "//", "1/-1", "1/1/-1", "0/1", "x/1/1", "1 /1", "1/1.5", "1e0", "-1//1"]
STYLES = ["v", "vt", "vn", "vtn"]


def random_text(rng, n, faults=True, tri=False):
    lines, count = [], {"v": 0, "vt": 0, "vn": 0}
    fault = rng.randrange(n) if faults and rng.random() < .3 else -1
    style = rng.choice(STYLES)
    for i in range(n):
        c = rng.random()
        if i == fault:
            k = rng.randrange(4)
            if k == 0:
                w = [rng.choice(["v", "vn", "vt"]), "1", "2", "3"]
                w[rng.randrange(1, 3 if w[0] == "vt" else 4)] = rng.choice(BADNUM)
                lines.append(" ".join(w))
            elif k == 1:
                lines.append(rng.choice(["v 1 2", "v", "vn 1", "vn 0 1", "vt", "v 1 2 # 3", "vn"]))
            elif k == 2:
                w = ["1", "1", "1"]
                w[rng.randrange(3)] = rng.choice(BADFACE)
                lines.append("f " + " ".join(w))
            else:
                lines.append(rng.choice(["f", "f 1", "f 1 1", "f 1/1 1/1", "f # 1 1 1", "f 1 1 # 1"]))
            continue
        if c < .28 or count["v"] == 0:
            k = "v"
        elif c < .4:
            k = "vt"
        elif c < .52:
            k = "vn"
        elif c < .8:
            k = "f"
        elif c < .88:
            k = "o"
        else:
            k = "skip"
        if k in count:
            w = 2 if k == "vt" else 3
            nums = [objs.number(rng, fbits(rng)) for _ in range(w)]
            if rng.random() < .08:
                nums.append("1.0")
            lines.append(objs.render(rng, [k] + nums))
            count[k] += 1
        elif k == "f":
            if rng.random() < .3:
                style = rng.choice(STYLES)
            st = style
            if count["vt"] == 0 and st in ("vt", "vtn"):
                st = "v"
            if count["vn"] == 0 and st in ("vn", "vtn"):
                st = "v"
            lo = {x: rng.randrange(1, y + 1) if rng.random() < .3 else 1 for x, y in count.items() if y}
            pick = lambda x: rng.randrange(lo[x], count[x] + 1) if count[x] else 0
            mixed = rng.random() < .1
            cs = []
            for _ in range(3):
                s2 = rng.choice(["v", st]) if mixed else st
                cs.append(objs.corner(rng, (pick("v"), pick("vt"), pick("vn")), s2))
            lines.append(objs.render(rng, ["f"] + cs))
        elif k == "o":
            nm = rng.choice(NAMES)
            lines.append(rng.choice(["", " "]) + "o" + (blank(rng) if nm or rng.random() < .5 else "") + nm + rng.choice(["", "", " ", "\t", "\r"]))
        else:
            lines.append(rng.choice(SKIP))
    return "\n".join(lines) + rng.choice(["", "\n", "\n\n"])


def wild(rng):
    """Faces whose corners are not defined, in some or all places, by little or by much."""
    n = {"v": rng.choice([0, 1, 3, 5]), "vt": rng.choice([0, 0, 1, 4]), "vn": rng.choice([0, 0, 1, 4])}
    lines = ["v %d %d %d" % (i, i * i, 1) for i in range(n["v"])] + ["vt .%d .5" % i for i in range(n["vt"])] + ["vn 0 %d 1" % i for i in range(n["vn"])]
    far = {k: rng.random() < .5 for k in n}
    style = rng.choice(STYLES)
    for f in range(rng.choice([1, 1, 2, 5])):
        cs = []
        for j in range(3):
            ix = {}
            for k in n:
                bad = far[k] if rng.random() < .8 else rng.random() < .3
                ix[k] = n[k] + rng.choice([1, 2, 3, 100, 2 ** 16, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1]) if bad or not n[k] else rng.randrange(1, n[k] + 1)
                ix[k] = min(ix[k], 2 ** 32 - 1)
            cs.append(objs.corner(rng, (ix["v"], ix["vt"], ix["vn"]), style if rng.random() < .9 else rng.choice(STYLES)))
        lines.append("f " + " ".join(cs))
    if rng.random() < .3:
        rng.shuffle(lines)
    return "\n".join(lines) + rng.choice(["", "\n", "\no next\n"])


def long_text(rng, n, width):
    """Many elements and faces, long lines."""
    pad = lambda: rng.choice([" ", "\t", "\u00a0"]) * rng.choice([1, 1, width])
    style = rng.choice(STYLES)
    lines = ["# " + "c" * width, "o " + "n" * width]
    for i in range(n):
        lines.append("v %d.5 %d 1e-3" % (i, -i))
        if style in ("vt", "vtn"):
            lines.append("vt .25 %d" % i)
        if style in ("vn", "vtn"):
            lines.append("vn 1 0 %d" % i)
        if i % 3 == 2:
            lines.append("f " + " ".join(objs.corner(rng, [rng.randrange(1, i + 2) for _ in range(3)], style) for _ in range(3)))
    for i in (0, 1, len(lines) // 2, len(lines) - 1):
        lines[i] += pad()
    w = lines[-2 if n > 3 else -1].split()
    lines.append(w[0] + pad() + (pad() if width < 9 else " ").join(w[1:]) + (" # " + "f" * width if rng.random() < .5 else ""))
    return "\n".join(lines) + rng.choice(["", "\n", " ", "\n#" + "x" * width])


def blank(rng):
    return rng.choice([" ", " ", "  ", "\t"])


def noise(rng, text):
    """Changes characters of a text, anywhere."""
    b = bytearray(text.encode())
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not b:
            break
        i = rng.randrange(len(b))
        c = rng.randrange(4)
        if c == 0:
            b[i] = rng.randrange(256)
        elif c == 1:
            b[i] = rng.choice(b"0123456789 ./-+ef#ov\n\t")
        elif c == 2:
            del b[i]
        else:
            b[i:i] = rng.choice([b"\n", b" ", b"/", b"-", b"0", b"99999999999", b"4294967295", b"4294967296", b"e999", b"nan", b"inf", b"\r\n", b"#", b"\xff", b"f ", b"v "])
    return bytes(b)


def run(chk):
    rng = random.Random(core.seed() * 7919 + 19)
    deep = chk.tier == "thorough"
    chk.build()
    n = 3 if not deep else 4
    r = chk.model("ObjMC", "INIT Init\nNEXT Next\nINVARIANTS Sound\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLines = %d MaxMeshes = 0 Emit = TRUE\n" % n)
    scen = []
    VAL = {"v": ["v 1 2 3", "v -1 .5 2e1"], "u": ["vt .5 1"], "n": ["vn 0 0 1"]}
    for p in dict.fromkeys(r.prints):
        if p.startswith("OBJ "):
            out = []
            for ln in json.loads(p[4:])["lines"]:
                k = ln["k"]
                if k in VAL:
                    out.append(VAL[k][ln["val"] - 1])
                elif k == "f":
                    st = {(0, 0): "v", (1, 0): "vt", (0, 1): "vn", (1, 1): "vtn"}
                    out.append("f " + " ".join(objs.corner(rng, c, st[(c[1], c[2])]) for c in ln["c"]))
                elif k == "o":
                    out.append("o " + ln["name"])
                else:
                    out.append("v 1 x 3" if k == "bad" else "# v 1 2 3")
            scen.append({"ops": [{"op": "obj_load", "text": "v 5 5 5\n" * (len(scen) % 2) + "\n".join(out)}]})
    for i in range(1500 if not deep else 30000):
        t = random_text(rng, rng.choice([1, 3, 8, 8, 20, 60]))
        scen.append({"ops": [{"op": "obj_load", "text": t}]})
    for bad in BADNUM:
        scen += [{"ops": [{"op": "obj_load", "text": "%s %s\nv 0 0 0\nf 1 1 1" % (k, " ".join(bad if j == i else "1" for j in range(w)))}]}
                 for k, w in (("v", 3), ("vn", 3), ("vt", 2)) for i in range(w)]
    for bad in BADFACE:
        scen += [{"ops": [{"op": "obj_load", "text": "v 0 0 0\nvt 0 0\nvn 0 0 1\nf " + " ".join(bad if j == i else "1" for j in range(3))}]} for i in range(3)]
    for i in range(600 if not deep else 15000):
        b = noise(rng, random_text(rng, rng.choice([1, 3, 8]), faults=False))
        try:
            op = {"op": "obj_load", "text": b.decode()}
        except UnicodeDecodeError:
            op = {"op": "obj_load", "bytes": b.hex()}
        scen.append({"ops": [op]})
    objs.check(chk, scen, chunk=8000)
    scen = []
    for i in range(400 if not deep else 8000):
        scen.append({"ops": [{"op": "obj_load", "text": wild(rng)}]})
    for n in (1, 10, 100) if not deep else (1, 10, 100) * 10:
        scen += [{"ops": [{"op": "obj_load", "text": long_text(rng, n, w)}]} for w in (1, 255, 1023, 1024, 4096, 8190, 8191, 8192, 8193, 16385, 65536, 200000)]
    for n in (300, 3000) if not deep else (300, 3000, 10000, 22000):
        scen.append({"ops": [{"op": "obj_load", "text": long_text(rng, n, 9)}]})
    objs.check(chk, scen, tag="wild", full=1)
