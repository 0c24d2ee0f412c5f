"""Runner: builds harnesses from /repo, runs TLC, reports verdicts and evidence."""
import os, sys, json, hashlib, time, subprocess, shutil, random, re, tempfile, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(VERIF, "work"))
        atexit.register(shutil.rmtree, self.work, True)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.notes, self.extra = [], [], {}
        self.assumptions = []
        self.found = []          # (what, detail) violations not listed
        self.known_seen = []
        self.nontrivial = set()

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def path(self, n):
        return os.path.join(self.work, n)

    def sample(self, s):
        if len(self.samples) < 12:
            s = s if isinstance(s, str) else json.dumps(s)
            self.samples.append(s[:600])


# ------------------------------------------------------------------ compiling

GXX, CLANG = "g++", "clang++"


def compile_cmd(src, out, cxx="g++", std="c++17", opts=("-O1",), extra_inc=()):
    return ([cxx, "-std=" + std, "-I" + os.path.join(REPO, "include"), "-I" + HARN] + ["-I" + i for i in extra_inc]
            + list(opts) + [src, "-o", out, "-pthread"])


def _sane(ctx, cxx):
    p = ctx.path("sane.cpp")
    with open(p, "w") as f:
        f.write("#include <vector>\nint main(){ std::vector<int> v(3); return v[0]; }\n")
    r = subprocess.run([cxx, p, "-o", ctx.path("sane.out")], capture_output=True, text=True)
    return r.returncode == 0


def build(ctx, name, src, cxx="g++", std="c++17", opts=("-O1",), extra_inc=(), must=True, timeout=600):
    """Compile; a tree against which the harness no longer compiles does not offer the documented interface."""
    out = ctx.path(name)
    cmd = compile_cmd(src, out, cxx, std, opts, extra_inc)
    for attempt in (1, 2):
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("compile timeout: " + " ".join(cmd))
        if r.returncode == 0:
            return out
        if "Killed" in r.stderr or "No space left" in r.stderr:
            raise CheckError("compiler died: " + r.stderr[-2000:])
    if not must:
        return None
    if not _sane(ctx, cxx):
        raise CheckError("compiler unusable: " + r.stderr[-2000:])
    raise Violation("does not compile: %s -std=%s" % (cxx, std),
                    {"cmd": cmd, "source": open(src).read()[-20000:], "errors": r.stderr[:6000]})


def par(jobs, n=None):
    """Run thunks in parallel, return their values; the first Violation/CheckError propagates."""
    with ThreadPoolExecutor(n or NCPU) as ex:
        fs = [ex.submit(j) for j in jobs]
        out, err = [], None
        for f in fs:
            try:
                out.append(f.result())
            except Exception as e:
                if err is None or (isinstance(e, Violation) and not isinstance(err, Violation)):
                    err = e
        if err is not None:
            raise err
        return out


# ------------------------------------------------------------------ TLC

FINGERPRINT = os.environ.get("VERIF_FINGERPRINT")


class TLCResult:
    pass


def tlc(ctx, spec, cfg, env=None, workers=NCPU, timeout=800, heap="10g", extra=(), spec_dir=SPEC):
    if FINGERPRINT and env and "TRACES" in env:      # tools/mutate.py: what would be validated, without validating it
        h = hashlib.sha256("".join(sorted(open(env["TRACES"]))).encode()).hexdigest()
        open(FINGERPRINT, "a").write("%s %s\n" % (os.path.basename(env["TRACES"]), h))
        res = TLCResult()
        res.ok, res.out, res.generated, res.distinct = True, "", 1, 1
        return res
    meta = tempfile.mkdtemp(prefix="tlc.", dir=ctx.work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [spec]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=spec_dir, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timeout: " + " ".join(cmd))
    finally:
        shutil.rmtree(meta, True)
    o = r.stdout
    res = TLCResult()
    res.out, res.rc, res.cmd = o, r.returncode, cmd
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", o)
    res.generated, res.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    res.ok = r.returncode == 0 and "Model checking completed. No error has been found." in o
    # 12: safety violation, 11: deadlock, 13 liveness, 10 assumption
    res.rejected = (not res.ok) and ("Deadlock reached" in o or "is violated" in o or re.search(r"Error: (Invariant|Action property|Temporal|Postcondition|The postcondition)", o) is not None
                                     or "Assumption" in o and "is false" in o)
    # running out of stack or memory is no verdict, whatever it makes the postcondition
    if "StackOverflowError" in o or "OutOfMemoryError" in o or "ran out of memory" in o:
        res.rejected = False
    if not res.ok and not res.rejected:
        i = o.find("Error:")
        raise CheckError("TLC failed (rc %d) on %s %s:\n%s\n%s" % (r.returncode, spec, cfg, o[max(0, i - 200):i + 6000] if i >= 0 else o[-4000:], r.stderr[-2000:]))
    return res


def unrepeated(stage, rid, line, detail):
    """A record that was rejected, and not again when it was made a second time.  What the library computes depends on its
    arguments only, so the record itself shows that it does not (a race, indeterminate values) -- unless it says that the run
    broke off, which the sandbox can cause."""
    if '"fault"' in line and "Sanitizer" not in detail["stderr"]:
        raise CheckError("rejection of %s in stage %s was not repeated: %s" % (rid, stage, line[-400:]))
    raise Violation("%s: the record of %s is not a behaviour of the specification (and it is not the same every time)" % (stage, rid), detail)


def error_tail(o):
    i = o.find("Error:")
    j = o.rfind("\n/\\ ")
    return o[i:i + 12000] if i >= 0 else o[-4000:]


# ------------------------------------------------------------------ known findings

def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def known(pid, key):
    for p, k, what in known_findings():
        if p == pid and k == key:
            return what
    return None


# ------------------------------------------------------------------ verdicts

def finish(ctx, level, rule, violation=None):
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "evaluations": ctx.evals, "distinct_nontrivial": len(ctx.nontrivial),
            "rule": rule, "samples": ctx.samples or ["(none)"],
            "stages": ctx.notes,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": 1 if violation else 0,
    }
    ev["coverage"].update(ctx.extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(ctx.work, "ev.json")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    shutil.move(tmp, os.path.join(VERIF, "evidence", ctx.pid + ".json"))
    if violation:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (ctx.pid, ctx.tier, ctx.seed))
        with open(p, "w") as f:
            json.dump({"property": ctx.pid, "what": violation.what, "detail": violation.detail}, f, indent=1)
        print("what: " + violation.what)
        print("VIOLATION property=%s replay=%s" % (ctx.pid, p), flush=True)
        return 1
    return 0


def main(pid, run, level, rule):
    ctx = Ctx(pid)
    try:
        run(ctx)
        rc = finish(ctx, level, rule)
        ctx.log("held on everything explored: states=%d traces=%d evaluations=%d" % (ctx.states, ctx.traces, ctx.evals))
        return rc
    except Violation as v:
        return finish(ctx, level, rule, v)
    except CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        return 2
