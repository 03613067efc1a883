"""C03: normals and tangents keep direction and handedness."""
import itertools, math, random
from . import core, gen, quants
from .num import bits
from .p_c02 import codes


def angles(rng):
    c = rng.randrange(4)
    if c == 0:      # exactly at a change of the number of bits, in degrees
        return "_deg", bits(90 / 2 ** rng.randrange(0, rng.choice([13, 13, 21, 29, 75])))
    if c == 1:
        return "_rad", bits(math.pi / 2 / 2 ** rng.randrange(0, 13) * rng.choice([1, 1, .9999, 1.0001]))
    if c == 2:
        return "_deg", bits(rng.choice([.01, .1, 1, 2, 5, 10, 30, 45, 60, 89, 90, 120, 180, 720]))
    return "_rad", bits(rng.choice([1e-7, 3e-7, 1e-6, 1e-5, .0001, .0005, .001, .01, .05, .1, .5, 1, 1.5, 2, 3.2, 10]))


def direction(rng, step):
    """A unit vector, likely at an axis, at a border of a code or at a sign change."""
    c = rng.randrange(8)
    if c == 0:
        v = [0.0] * 3
        v[rng.randrange(3)] = 1.0
        v = [math.copysign(x, rng.choice([1, -1])) for x in v]
        return v
    if c == 1:      # in a coordinate plane
        a = rng.uniform(0, 2 * math.pi)
        v = [math.cos(a), math.sin(a), rng.choice([0.0, -0.0])]
        rng.shuffle(v)
        return v
    if c == 2:      # nearly an axis
        v = [rng.choice([-1, 1]) * rng.choice([1e-30, 1e-7, 1e-5, 2e-4, 1e-4 * rng.random(), .001 * rng.random(), step / 2, step]) for _ in range(3)]
        v[rng.randrange(3)] = rng.choice([-1.0, 1.0])
    elif c < 5:     # between two codes, or at one
        n = max(1, round(1 / step))
        az = (rng.randrange(n) + rng.choice([0, .25, .49, .5, .51, .75, .99])) / n * math.pi / 2
        z = min(1, (rng.randrange(n) + rng.choice([0, .25, .49, .5, .51, .75, .99])) / n) if rng.random() < .6 else rng.random()
        q = math.sqrt(max(0, 1 - z * z))
        v = [math.sin(az) * q, math.cos(az) * q, z]
        v = [x * rng.choice([-1, 1]) for x in v]
    else:
        v = [rng.gauss(0, 1) for _ in range(3)]
    l = math.sqrt(sum(x * x for x in v))
    return [x / l for x in v]


def scenario(rng, n, exact=False):
    p, m = {}, {}
    for k, a in (("n", "n"), ("t", "t")):
        suffix, b = angles(rng)
        p[k + suffix] = b
        rad = quants.angle(p, k)
        step = 1 / max(1, 2 ** math.ceil(math.log2(max(1, math.pi / 2 / rad))) - 1)
        if rng.random() < .85:
            m[k] = []
            for _ in range(n):
                v = direction(rng, min(step, 1))
                if rng.random() < .25:      # lengths which verification accepts
                    f = rng.choice([.9991, .9999, 1.0001, 1.0009])
                    v = [x * f for x in v]
                e = [bits(x) for x in v]
                if k == "t":
                    e.append(bits(rng.choice([1.0, -1.0, 1.0, -1.0, .5, -3.0, 0.0, -0.0, 1e-40, -1e-40, math.inf, -math.inf])))
                m[k].append(e)
    return quants.scenario(m, p)


def run(chk):
    rng = random.Random(core.seed() * 7919 + 3)
    deep = chk.tier == "thorough"
    chk.build()
    codes(chk, deep)
    scen = [scenario(rng, rng.choice([0, 1, 1, 2, 8, 8, 30])) for i in range(1200 if not deep else 20000)]
    # All octants, axes and planes at every number of bits
    for b in range(0, 14):
        for suffix, rad in (("_deg", 90.0), ("_rad", math.pi / 2)):
            m = {"n": [], "t": []}
            for s in itertools.product([1.0, -1.0, 0.0, -0.0], repeat=3):
                l = math.sqrt(sum(x * x for x in s))
                if l:
                    e = [bits(x / l) for x in s]
                    m["n"].append(e)
                    m["t"] += [e + [bits(1.0)], e + [bits(-1.0)]]
            scen.append(quants.scenario(m, {"n" + suffix: bits(rad / 2 ** b), "t" + suffix: bits(rad / 2 ** b)}))
    for i in range(12 if not deep else 40):
        sc = scenario(rng, 30)
        m = sc["ops"][0]["mesh"]
        for k in m:
            m[k] = gen.cycled(rng, m[k], rng.choice(gen.LONG), m[k][:rng.randrange(3)])
        scen.append(sc)
    quants.check(chk, scen, chunk=3000)
