#!/usr/bin/env python3
"""Which recorded fields a check's trace specification depends on.

audit.py C06 [...]: runs the check; after each validation of episodes, changes one recorded value at a time (each kind of
place several times) and lists the places where no change was rejected. A development tool: no check uses it."""
import copy, json, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tmfv import core

TRIES = int(os.environ.get("TRIES", "12"))
rng = random.Random(5)


def places(x, path, out):
    if isinstance(x, dict):
        for k in x:
            places(x[k], path + [k], out)
    elif isinstance(x, list):
        if x:
            out.append((path + ["#"], "drop"))
        for i, y in enumerate(x[:40] if len(x) < 200 else x[:6]):
            places(y, path + [i], out)
    else:
        out.append((path, "leaf"))


def key(e, path):
    op = ""
    if path and path[0] == "ev" and isinstance(path[1], int):
        ev = e["ev"][path[1]]
        op = str(ev.get("op", "")) if isinstance(ev, dict) else ""
        return op + ":" + ".".join("*" if isinstance(p, int) else p for p in path[2:])
    return ".".join("*" if isinstance(p, int) else p for p in path)


def change(e, path, seen):
    e = copy.deepcopy(e)
    x = e
    for p in path[:-1]:
        x = x[p]
    if path[-1] == "#":
        x.pop(rng.randrange(len(x)))
        return e
    v = x[path[-1]]
    if isinstance(v, bool):
        x[path[-1]] = not v
    elif isinstance(v, int):
        x[path[-1]] = v + rng.choice([1, -1, 7, 1000, 1 << 17, -(1 << 17), 1 << 22, -(1 << 22)])
    elif isinstance(v, str):
        o = [s for s in seen if s != v]
        x[path[-1]] = rng.choice(o) if o and rng.random() < .8 else v + "x"
    return e


def audit(chk, module, episodes, consts, variant, tag):
    by, vals = {}, {}
    idx = list(range(len(episodes)))
    rng.shuffle(idx)
    idx = [i for i in idx if len(json.dumps(episodes[i])) < 60000][:400]
    for i in idx:
        out = []
        places(episodes[i], [], out)
        rng.shuffle(out)
        for p, kind in out:
            k = key(episodes[i], p)
            l = by.setdefault(k, [])
            if len(l) < TRIES * 20:
                l.append((i, p))
            if kind == "leaf":
                x = episodes[i]
                for q in p:
                    x = x[q]
                if isinstance(x, str) and len(vals.setdefault(k, set())) < 50:
                    vals[k].add(x)
    todo = []
    for k, l in by.items():
        for i, p in rng.sample(l, min(TRIES, len(l))):
            m = change(episodes[i], p, sorted(vals.get(k, ())))
            if m != episodes[i]:
                todo.append((k, m))
    caught = {k: 0 for k in by}
    total = {k: sum(1 for j, _ in todo if j == k) for k in by}
    for rnd in range(400):
        if not todo:
            break
        path = os.path.join(chk.work, "audit.ndjson")
        with open(path, "w") as f:
            for _, m in todo:
                f.write(json.dumps(m) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK TRUE\nCONSTANT Prop = \"%s\"\n%s" % (chk.prop, consts)
        bad, again = set(), False
        try:
            r = core.tlc(module, cfg, env={"TRACE": path}, workdir=chk.work, timeout=3000, tag="-audit")
            bad = {json.loads(p[7:])["s"] - 1 for p in r.prints if p.startswith("REJECT ")}
        except core.Undefined as e:
            bad = {int(n) - 1 for n in re.findall(r"^/\\ s = (\d+)$", e.out.split("Error:", 1)[-1], re.M)}
            for line in e.out.splitlines():
                if line.startswith('"REJECT '):
                    bad.add(json.loads(json.loads(line)[7:])["s"] - 1)
            again = True
            if not bad:
                print("   AUDIT cannot tell", e.out[-1500:])
                break
        except core.ToolError as e:
            print("   AUDIT tool error", str(e)[-1500:])
            break
        for i in bad:
            caught[todo[i][0]] += 1
        if not again:
            break
        todo = [t for i, t in enumerate(todo) if i not in bad]
    print("== %s %s%s %s: %d kinds of places" % (chk.prop, module, tag, variant, len(by)))
    for k in sorted(by):
        if total[k] and caught[k] == 0:
            print("   NEVER %s (of %d)" % (k, total[k]))
    print("   some:", " ".join("%s=%d/%d" % (k, caught[k], total[k]) for k in sorted(by) if 0 < caught[k] < total[k]), flush=True)


def main():
    import importlib
    orig = core.Check.validate

    def validate(self, module, episodes, scenarios, consts="", variant="std", tag="", **kw):
        orig(self, module, episodes, scenarios, consts=consts, variant=variant, tag=tag, **kw)
        if variant == "std":
            audit(self, module, episodes, consts, variant, tag)
    core.Check.validate = validate
    for p in sys.argv[1:]:
        chk = core.Check(p, "quick")
        importlib.import_module("tmfv.p_" + p.lower()).run(chk)
        chk.finish()


main()
