"""C11: the result does not depend on how the stream delivers its bytes."""
import json, random
from . import core, gen, files
from .num import Tokens

KINDS = ["BrokenPipe", "TimedOut", "WouldBlock", "PermissionDenied", "ConnectionReset"]
OBJ = ["o a\nv 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n", "# x\n\nv 1 2 3\nvt .5 .5\nvn 0 0 1\n" + "f 1/1/1 1/1/1 1/1/1\n" * 3 + "o b c\nf 1 1 1",
       "", "v 1 2\n", "v 1 2 3\nf 1 2\n", "o a\r\nv 0 0 0\r\nf 1 1 1\r\n", "v 0 0 0\nf 1 1 1\n" * 700, "o žluť\nv 0 0 0\nf 1 1 1\n"]


def streams(chk, size, demands, script, emit=True, tag=""):
    body = "---- MODULE StreamRun ----\nEXTENDS StreamIO\nDemandsDef == <<%s>>\n====\n" % ", ".join(map(str, demands))
    r = chk.model("StreamRun", "SPECIFICATION Spec\nINVARIANT Independent\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
                  "CONSTANTS Steps = {0, 1, 2, 5} MaxScript = %d Size = %d Emit = %s\nDemands <- DemandsDef\n" % (
                      script, size, "TRUE" if emit else "FALSE"), tag=tag, extra={"StreamRun.tla": body})
    out = []
    for p in dict.fromkeys(r.prints):
        if p.startswith("STREAM "):
            out.append(json.loads(p[7:]))
    return out


def outcome(r):
    if "ok" in r:
        return "ok"
    return r.get("err") or [k for k in ("panic", "crash", "hang") if k in r][0]


def random_script(rng, size, always_fail=False):
    s = {}
    c = rng.randrange(4)
    if c:
        s["chunks"] = [rng.choice([0, 1, 1, 2, 3, 7, 100, 5000]) for _ in range(rng.randrange(1, 6))]
        if not any(s["chunks"]):
            s["chunks"].append(1)
    if always_fail or rng.random() < .5:
        s["fail_at"] = rng.choice([0, size, max(0, size - 1), size + 1, rng.randrange(size + 1), rng.randrange(size + 1)])
        s["kind"] = rng.choice(KINDS)
        if rng.random() < .5:       # ... which goes on if asked again
            s["once"] = True
    return s


def episode(sc, res):
    tok = Tokens()
    b, ev = [], []
    for op, r in zip(sc["ops"], res):
        k = op["op"]
        bad = [x for x in ("panic", "crash", "hang") if x in r]
        if bad:
            ev.append({"op": "fault", "of": k, "what": bad[0]})
            break
        if k == "mesh":
            continue
        out = outcome(r)
        if k in ("load", "obj_load"):
            t = tok(json.dumps([{x: e[x] for x in ("name", "mesh")} for e in r["ok"]], sort_keys=True)) if "ok" in r else 0
            if k == "load" and not b:
                b.append(list(bytes.fromhex(sc["file"]) if "file" in sc else []))
                ev.append({"op": "read"})
            if "reader" not in op and "tail" not in op and "bare" not in op:
                ev.append({"op": "plain", "res": out, "tok": t})
            else:
                ev.append({"op": "load", "tmf": k == "load", "res": out, "tok": t, "failed": r["failed"],
                           "kind": "IO:" + op.get("reader", {}).get("kind", "ConnectionReset"), "consumed": r.get("consumed", 0)})
        elif k in ("save", "obj_save"):
            if "sink" not in op:
                while len(b) < 2:
                    b.append([])
                b[1] = list(bytes.fromhex(r["bytes"]))
                ev.append({"op": "plain", "res": out, "tok": 0})
            else:
                kinds = ["IO:" + op["sink"].get("kind", "ConnectionReset")] + (["IO:WriteZero"] if op["sink"].get("zero") else [])
                ev.append({"op": "save", "res": out, "failed": r["failed"] or out == "IO:WriteZero", "kinds": kinds,
                           "bytes": list(bytes.fromhex(r["bytes"]))})
    return {"b": b, "ev": ev}


def run(chk):
    rng = random.Random(core.seed() * 7919 + 11)
    deep = chk.tier == "thorough"
    chk.build()
    streams(chk, 6, (2, 0, 3, 1), 2 if not deep else 3, emit=False, tag="-ok")
    streams(chk, 3, (2, 3), 2 if not deep else 3, emit=False, tag="-eof")
    scen = []

    def play(st):
        s = {"chunks": st["chunks"]}
        if st["fail"] >= 0:
            s.update(fail_at=st["fail"], kind=rng.choice(KINDS), once=rng.random() < .5)
        return s
    # Small things through every stream of the model
    small = gen.FileGen(rng, False).file([(b"m", [(2, 0, gen.FileGen(rng, False).idx([0, 1, 2], w=2, base=0)[0], [])])])
    demands = [3, 2, 2, 2, 2, 4, 2, 1, 2, 1, 4, 1, len(small) - 26]
    scripts = streams(chk, len(small), demands, 2, tag="-small")
    for i in range(0, len(scripts), 20):
        ops = [{"op": "load", "bytes": small.hex()}]
        ops += [{"op": "load", "bytes": small.hex(), "reader": play(s), "mode": rng.choice(["sync", "async"])} for s in scripts[i:i + 20]]
        scen.append({"ops": ops, "file": small.hex()})
        ops = [{"op": "mesh", "m": "a", "mesh": {"vt": [0, 1, 2]}}, {"op": "save", "list": [["a", "m"]]}]
        ops += [{"op": "save", "list": [["a", "m"]], "sink": dict(play(s), zero=rng.random() < .2)} for s in scripts[i:i + 20]]
        scen.append({"ops": ops})
        text = OBJ[0][:len(small)]
        text = "v 0 0 0\nf 1 1 1\no a\nv 1 1 1\nf 2 2 2\n"
        ops = [{"op": "obj_load", "text": text}] + [{"op": "obj_load", "text": text, "reader": play(s)} for s in scripts[i:i + 20]]
        scen.append({"ops": ops})
    # Files of every kind, whole and broken, with bytes after them
    for i in range(250 if not deep else 4000):
        g, d = gen.random_file(rng, n=rng.choice([3, 10, 30]))
        if rng.random() < .3:
            d = gen.mutate(rng, g, d, 1)
        ops = [{"op": "load", "bytes": d.hex()}]
        for _ in range(12):
            # a stream that ends a file which is cut short is another result: bytes follow whole files only
            op = {"op": "load", "bytes": d.hex(), "reader": random_script(rng, len(d)), "mode": rng.choice(["sync", "async"]), "bare": True,
                  "rt": rng.choice(["ct", "mt"])}
            ops.append(op)
        scen.append({"ops": ops, "file": d.hex()})
    for i in range(120 if not deep else 2500):
        m = gen.mesh(rng, rng.choice([2, 8, 20]))
        lst = [["a", "x"], ["a", "y"]][:rng.choice([1, 1, 2])]
        ops = [{"op": "mesh", "m": "a", "mesh": m}, {"op": "save", "list": lst, "out": "f"}]
        for _ in range(10):
            s = random_script(rng, rng.choice([30, 100, 300, 700]))
            s["zero"] = rng.random() < .15
            s["fail_flush"] = rng.random() < .15
            ops.append({"op": "save", "list": lst, "sink": s, "one": len(lst) == 1 and rng.random() < .5})
        scen.append({"ops": ops})
        # ... loaded with bytes after the file: none of them may be touched
        ops = [{"op": "mesh", "m": "a", "mesh": m}, {"op": "save", "list": lst, "out": "f"}, {"op": "load", "src": "f"}]
        for _ in range(4):
            ops.append({"op": "load", "src": "f", "tail": bytes(rng.randrange(256) for _ in range(rng.choice([1, 20, 300]))).hex(),
                        "reader": random_script(rng, 10 ** 6), "mode": rng.choice(["sync", "async"])})
        scen.append({"ops": ops, "saved": True})
        om = {k: v for k, v in m.items() if k in ("v", "vt")}
        if "v" in om and om.get("vt"):
            om["vt"] = om["vt"][:len(om["vt"]) // 3 * 3]
            ops = [{"op": "mesh", "m": "a", "mesh": om}, {"op": "obj_save", "list": lst}]
            for _ in range(8):
                s = random_script(rng, rng.choice([30, 100, 300, 700]))
                s["zero"] = rng.random() < .15
                s["fail_flush"] = rng.random() < .2
                ops.append({"op": "obj_save", "list": lst, "sink": s})
            scen.append({"ops": ops})
    for i in range(15 if not deep else 200):
        for t in OBJ:
            ops = [{"op": "obj_load", "text": t}]
            ops += [{"op": "obj_load", "text": t, "reader": random_script(rng, len(t.encode()))} for _ in range(6)]
            if len(t) < 500:
                ops += [{"op": "obj_load", "text": t, "reader": {"fail_at": len(t.encode()) * k // 8}} for k in range(9)]
            scen.append({"ops": ops})
    # Some of them with the functions for a single mesh
    for sc in scen:
        loads = [op for op in sc["ops"] if op["op"] in ("load", "obj_load")]
        if loads and rng.random() < .35:
            for op in loads:
                if op["op"] == "load":
                    op["mode"] = "one_async" if "async" in op.get("mode", "sync") else "one"
                else:
                    op["one"] = True
        if not loads and len(sc["ops"][1].get("list", "xx")) == 1 and rng.random() < .35:
            for op in sc["ops"][1:]:
                op["one"] = rng.random() < .7
    for v in ("std", "full"):
        part = scen if deep or v == "std" else scen[::3]
        res = chk.runners[v].run(part, v)
        eps = []
        for s, r in zip(part, res):
            if s.get("saved") and len(r) > 1 and "bytes" in r[1]:
                s = {"ops": s["ops"][2:], "file": r[1]["bytes"]}
                r = r[2:]
            eps.append(episode(s, r))
        if v == "std":
            chk.sample(eps[0])
        chk.validate("StreamTrace", eps, part, variant=v, chunk=2000)
