"""C22: normalizing makes every usable normal a unit vector."""
import itertools, json, math, random
from . import core, gen
from .num import bits, val, fix, Tokens


def episode(sc, res):
    tok, ev = Tokens(), []
    rest = lambda m: tok(json.dumps({k: v for k, v in m.items() if k != "n"}, sort_keys=True))
    seen = 0
    for op, r in zip(sc["ops"], res):
        k = op["op"]
        bad = [x for x in ("panic", "crash", "hang") if x in r]
        if bad:
            ev.append({"op": "fault", "of": k, "what": bad[0]})
            break
        if k == "snap":
            m = r["mesh"]
            if seen == 0:
                ev.append({"op": "mesh", "has": "n" in m, "k": sc["k"], "rest": rest(m)})
                assert len(sc["k"]) == len(m.get("n") or [])
            else:
                vs = [[val(b) for b in e] for e in m.get("n") or []]
                ev.append({"op": "normalize", "has": "n" in m, "rest": rest(m), "fin": [all(map(math.isfinite, v)) for v in vs],
                           "r": [[max(-20000, min(20000, fix(x, 1 << 14))) if math.isfinite(x) else 0 for x in v] for v in vs]})
            seen += 1
        elif k == "verify":
            ev.append({"op": "verify", "fault": any(e[0] == "NormalsNotNormalized" for e in r.get("err", []))})
    return {"ev": ev}


def vector(rng):
    """k and its f32 multiple."""
    c = rng.randrange(8)
    if c == 0:
        k = [0, 0, 0]
    elif c == 1:
        k = [0, 0, 0]
        k[rng.randrange(3)] = rng.choice([-1, 1]) * rng.choice([1, 3, 1000, 8191])
    elif c == 2:
        k = [rng.choice([-1, 0, 1]) for _ in range(3)]
    elif c == 3:
        k = [rng.choice([1, -1, 0, 8000, -8000]) for _ in range(3)]
    else:
        k = [rng.randrange(-8191, 8192) for _ in range(3)]
    # Lengths from 1e-15 to 1e15
    l = math.sqrt(sum(x * x for x in k)) or 1
    s = rng.choice([1, rng.uniform(.5, 2), 10 ** rng.uniform(-15, 15), 2.0 ** rng.randrange(-48, 48), 1e15, 1e-15, 1 + rng.uniform(-.002, .002)]) / l
    s = min(max(s, 1.01e-15 / l), .99e15 / l)
    z = rng.choice([0.0, -0.0])
    return k, [bits(x * s if x else z) for x in k]


def scenario(rng, n, ks=None):
    m = gen.mesh(rng, 5)
    m.pop("nt", None)
    if rng.random() < .5 and n:
        m["nt"] = [rng.randrange(n) for _ in range(6)]
    m.pop("n", None)
    vs = [vector(rng) for _ in range(n)] if ks is None else ks
    if n or rng.random() < .5:
        m["n"] = [v[1] for v in vs]
    names = sorted({c["name"] for c in m["c"]})
    snap = {"op": "snap", "m": "m", "names": names}
    ops = [{"op": "mesh", "m": "m", "mesh": m}, snap, {"op": "normalize", "m": "m"}, snap, {"op": "verify", "m": "m"}]
    if rng.random() < .3:
        ops += [{"op": "normalize", "m": "m"}, snap, {"op": "verify", "m": "m"}]
    return {"ops": ops, "k": [v[0] for v in vs]}


def run(chk):
    rng = random.Random(core.seed() * 7919 + 22)
    deep = chk.tier == "thorough"
    chk.build()
    chk.model("NormMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Accepts Rejects\nCONSTANT N = %d\n" % (12 if not deep else 25), heap="12g")
    scen = [scenario(rng, rng.choice([0, 1, 2, 8, 30, 30])) for i in range(1500 if not deep else 30000)]
    for n in (256, 257, 1025, 4097, 70000) if not deep else (255, 256, 257, 1023, 1024, 1025, 4097, 65535, 65537, 100000, 200000) * 2:
        scen.append(scenario(rng, n))
    for e in range(-15, 16):
        ks = []
        for k in itertools.product([-1, 0, 1], repeat=3):
            f = 10.0 ** e / (math.sqrt(sum(map(abs, k))) or 1)
            ks.append((list(k), [bits(x * f * (1.01 if e < 0 else .99)) for x in k]))
        scen.append(scenario(rng, len(ks), ks))
    for v in ("std", "full"):
        part = scen if v == "std" or deep else scen[::2]
        res = chk.runners[v].run(part, v)
        eps = [episode(s, r) for s, r in zip(part, res)]
        chk.sample(min(eps, key=lambda e: len(json.dumps(e)) if any(x.get("r") for x in e["ev"]) else 10 ** 9))
        chk.validate("NormTrace", eps, part, variant=v, chunk=6000)
