"""Shared machinery: building the harness, running it, running TLC, reporting."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
VARIANTS = {"std": ("target", []), "full": ("target-full", ["--features", "full"]),
            "short": ("target-short", ["--features", "short"]), "wide": ("target-wide", ["--features", "wide"])}
# Modules in which the width of indices is a parameter
INDEXED = {"TmfTrace", "FileMC", "SplitMC", "StreamTrace", "DecodePool", "CompactMC"}


class ToolError(Exception):
    """The machinery failed: neither a pass nor a violation."""


class Undefined(ToolError):
    """TLC could not evaluate the specification on what it was given."""

    def __init__(self, text, out):
        ToolError.__init__(self, text)
        self.out = out


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


# ---------------------------------------------------------------- building
def build_one(variant):
    target, flags = VARIANTS[variant]
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, target)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + flags, cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError("building the harness (%s) failed:\n%s" % (variant, r.stdout[-4000:]))
    return os.path.join(HARNESS, target, "debug", "tmf-harness")


def build(variants):
    import fcntl
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    with open(os.path.join(VERIF, "work", "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with concurrent.futures.ThreadPoolExecutor() as ex:
            return dict(zip(variants, ex.map(build_one, variants)))


# ---------------------------------------------------------------- harness
class Runner:
    """Runs scenarios on one build of the library."""

    def __init__(self, binary, work, timeout=20):
        self.binary, self.work, self.timeout = binary, work, timeout

    def run(self, scenarios, tag, shards=None):
        """Returns a list of results, one per scenario: a list of records, or ending in {"crash"|"hang"}."""
        shards = shards or max(1, min(8, len(scenarios) // 8))
        parts = [scenarios[i::shards] for i in range(shards)]
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            outs = list(ex.map(lambda i: self._run(parts[i], "%s.%d" % (tag, i)), range(shards)))
        res = [None] * len(scenarios)
        for i, out in enumerate(outs):
            for j, o in enumerate(out):
                res[i + j * shards] = o
        return res

    def _run(self, scenarios, tag):
        src = os.path.join(self.work, tag + ".scen.ndjson")
        dst = os.path.join(self.work, tag + ".out.ndjson")
        with open(src, "w") as f:
            for i, s in enumerate(scenarios):
                f.write(json.dumps({"id": i, "ops": s["ops"]}) + "\n")
        if os.path.exists(dst):
            os.remove(dst)
        env = dict(os.environ, HARNESS_TIMEOUT=str(self.timeout))
        done, restarts = 0, 0
        outs = []
        while done < len(scenarios):
            r = subprocess.run([self.binary, src, dst, str(done)], env=env, cwd=self.work,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            outs = []
            if os.path.exists(dst):
                with open(dst) as f:
                    outs = [json.loads(l)["res"] for l in f if l.endswith("\n")]
            if r.returncode == 0:
                break
            if r.returncode == 3:
                raise ToolError("harness error: " + r.stderr[-1500:])
            restarts += 1
            if restarts > 40:
                raise ToolError("harness dies too often")
            # The scenario after the last record ended the process.
            end = [{"hang": True}] if r.returncode == 77 else [{"crash": "%d %s" % (r.returncode, r.stderr[-300:])}]
            outs.append(end)
            with open(dst, "a") as f:
                f.write(json.dumps({"id": len(outs) - 1, "res": end}) + "\n")
            done = len(outs)
        if len(outs) != len(scenarios):
            raise ToolError("harness returned %d of %d results" % (len(outs), len(scenarios)))
        return outs


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.states = self.transitions = 0
        self.violated = None
        self.rejects = []
        self.out = ""
        self.prints = []


def tlc(module, cfg, env=None, workdir=None, timeout=800, workers="auto", args=(), heap="6g", tag="",
        extra=None):
    """Runs TLC on spec/<module>.tla with the given text as configuration."""
    d = os.path.join(workdir, "tlc-%s%s" % (module, tag))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for name, text in (extra or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    if module in INDEXED and "IdxBits" not in cfg:
        cfg += "\nCONSTANT IdxBits = 32\n"
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % heap
    cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-config", module + ".cfg"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    r = TlcResult()
    r.out = p.stdout
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    if m:
        r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
    if re.search("TLC threw an unexpected exception|The error occurred when TLC was evaluating|Deadlock reached",
                 p.stdout) and not re.search("OutOfMemory|StackOverflow|No space left", p.stdout):
        raise Undefined("TLC found no successor in %s:\n%s" % (module, p.stdout[-3000:]), p.stdout)
    m = re.findall(r"Invariant (\S+) is violated|Property (\S+) is violated|property (\S+) was violated", p.stdout)
    if m:
        r.violated = "".join(m[0])
    elif "Assertion failed" in p.stdout or "The first argument of Assert evaluated to FALSE" in p.stdout:
        r.violated = "Assert"
    elif "POSTCONDITION" in p.stdout and "violated" in p.stdout:
        r.violated = "Postcondition"
    for line in p.stdout.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                r.prints.append(json.loads(line))
            except ValueError:
                pass
    ok = "Model checking completed. No error has been found." in p.stdout or (
        "-simulate" in args and p.returncode == 0)
    if not ok and r.violated is None:
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(p.stdout)
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, p.stdout[-3000:]))
    return r


def plain(x):
    """What JSON cannot hold, for the reports."""
    return x.hex() if isinstance(x, (bytes, bytearray)) else sorted(x) if isinstance(x, set) else repr(x)


# ---------------------------------------------------------------- reporting
class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.models = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.bins = None

    def build(self, variants=("std", "full")):
        self.bins = build(list(variants))
        self.runners = {v: Runner(b, self.work) for v, b in self.bins.items()}

    def model(self, module, cfg, **kw):
        """Exhaustively checks a model of the design; a violation means the specification itself is wrong."""
        t = time.time()
        r = tlc(module, cfg, workdir=self.work, **kw)
        if r.violated:
            raise ToolError("the model %s violates %s:\n%s" % (module, r.violated, r.out[-3000:]))
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        self.models.append(dict(model=module, states=r.states, transitions=r.transitions,
                                seconds=round(time.time() - t, 1)))
        return r

    def validate(self, module, episodes, scenarios, consts="", variant="std", tag="", timeout=800, chunk=None):
        """Validates recorded episodes against the trace specification. Rejected ones are violations.

        `scenarios[i]` is what to replay for `episodes[i]`."""
        if not episodes:
            raise ToolError("no episodes for " + module)
        if self.violations:     # the outcome is known
            return
        size = chunk or max(1, len(episodes))
        for k in range(0, len(episodes), size):
            part = episodes[k:k + size]
            if self.violations:
                return
            path = os.path.join(self.work, "trace-%s%s-%s-%d.ndjson" % (module, tag, variant, k))
            with open(path, "w") as f:
                for e in part:
                    f.write(json.dumps(e) + "\n")
            cfg = "SPECIFICATION TraceSpec\nINVARIANT NotRejected\nCHECK_DEADLOCK TRUE\nCONSTANT Prop = \"%s\"\n%s" % (
                self.prop, consts)
            try:
                r = tlc(module, cfg, env={"TRACE": path}, workdir=self.work, timeout=timeout,
                        tag="-%s-%s-%d" % (tag, variant, k))
            except Undefined as e:
                stuck = sorted(set(re.findall(r"^/\\ s = (\d+)$", e.out.split("Error:", 1)[-1], re.M)), key=int)
                if not stuck:
                    raise
                why = re.findall(r"^(Attempted .*|but it produced.*|Cannot cast .*|The .* argument .*|"
                                 r"Error: Deadlock.*)$", e.out, re.M)
                for n in stuck:
                    i = int(n) - 1
                    self.violate("no behaviour of %s explains what was recorded (%s)" % (
                        module, "; ".join(why[:2])), scenarios[k + i], part[i], variant, e.out[-3000:])
                continue
            if r.violated not in (None, "NotRejected"):
                raise ToolError("trace validation with %s ended with %s:\n%s" % (module, r.violated, r.out[-3000:]))
            rejected = {}
            accepted = 0
            for p in r.prints:
                if p.startswith("REJECT "):
                    o = json.loads(p[7:])
                    rejected.setdefault(o["s"], o)
            if (r.violated is not None) != bool(rejected):
                raise ToolError("inconsistent outcome of trace validation:\n" + r.out[-3000:])
            m = re.findall(r"Finished computing initial states: (\d+) ", r.out)
            if r.violated is None and (not m or int(m[0]) != len(part)):
                raise ToolError("TLC read %s of %d episodes" % (m, len(part)))
            self.cov["states"] += r.states
            self.cov["transitions"] += r.transitions
            self.cov["traces_validated_against_impl"] += len(part)
            self.models.append(dict(trace_spec=module + tag, variant=variant, episodes=len(part), states=r.states,
                                    transitions=r.transitions, rejected=len(rejected)))
            for s, o in sorted(rejected.items()):
                self.violate(o.get("why", "rejected by " + module), scenarios[k + s - 1], part[s - 1], variant, o)

    def violate(self, why, scenario, episode, variant, detail=None):
        self.violations.append(dict(why=why, variant=variant, scenario=scenario, episode=episode, detail=detail))

    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            s = json.dumps(x, default=plain)
            self.cov["samples"].append(x if len(s) < 1500 else s[:1500] + "...")

    def finish(self, extra=None):
        self.cov["models"] = self.models
        if extra:
            self.cov.update(extra)
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=seed(), level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=plain)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            path = os.path.join(self.work, "violation.json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=plain)
            for v in self.violations[:5]:
                print("  rejected: %s (%s build)" % (v["why"], v["variant"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: ok, %d episodes of the real code accepted, %d states, %.1f s" % (
            self.prop, self.cov["traces_validated_against_impl"], self.cov["states"], ev["wall_s"]))
        return 0
