"""Hash-object behaviours: generation, execution by harness/driver.cpp, validation by TraceHash."""
import os, json, re, subprocess
from .core import *

MD = "md5_128 sha1_160 sha2_256 sha2_224 sha2_512 sha2_384 sha2_512_224 sha2_512_256 ripemd_160 ripemd_128".split()
PLAIN = "fnv1a_32 fnv1a_64 xxhash_32 xxhash_64 siphash_32 siphash_64".split() + MD
HMAC = ["hmac_" + a for a in MD]
LEGACY = "murmur3_32 murmur3_128 spooky2_128".split()
DOCUMENTED = PLAIN + HMAC
ALL = DOCUMENTED + LEGACY
USER = ["user_8_8", "user_16_4", "user_48_20", "user_200_64"]
USER_HMAC = ["hmac_" + a for a in USER]


def base(a):
    return a[5:] if a.startswith("hmac_") else a


def block(a):
    a = base(a)
    if a.startswith("user_"):
        return int(a.split("_")[1])
    return {"fnv1a_32": 1, "fnv1a_64": 1, "xxhash_32": 16, "xxhash_64": 32, "siphash_32": 4, "siphash_64": 8,
            "sha2_512": 128, "sha2_384": 128, "sha2_512_224": 128, "sha2_512_256": 128,
            "murmur3_32": 4, "murmur3_128": 16, "spooky2_128": 192}.get(a, 64)


# rough evaluation cost of one block in TLC, in ms
def blockcost(a):
    a = base(a)
    if a.startswith("user_"):
        return .2
    return {"fnv1a_32": .01, "fnv1a_64": .01, "xxhash_32": .06, "xxhash_64": .1, "siphash_32": .05, "siphash_64": .08,
            "murmur3_32": .02, "murmur3_128": .05, "spooky2_128": .5, "md5_128": 1.5, "sha1_160": 2.5,
            "ripemd_160": 3, "ripemd_128": 2}.get(a, 8 if block(a) == 128 else 3.2)


def hx(b):
    return bytes(b).hex() or "-"


class Beh:
    def __init__(self, id, lines, nontrivial=True):
        self.id, self.lines, self.nontrivial = id, lines, nontrivial

    def text(self):
        return "T %s\n%s\n" % (self.id, "\n".join(self.lines))


def msg(rng, n):
    """message contents: mostly random, sometimes degenerate"""
    k = rng.randrange(14)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return bytes((i * 7 + 1) & 255 for i in range(n))
    if k == 3:
        return b"\x80" * n
    if k == 4:      # words at the edges of their range
        w = rng.choice((4, 8))
        e = [0, 1, (1 << 8 * w - 1) - 1, 1 << 8 * w - 1, (1 << 8 * w) - 1, 1 << 4 * w, (1 << 4 * w) - 1]
        return b"".join(rng.choice(e).to_bytes(w, rng.choice(("little", "big"))) for _ in range(n // w + 1))[:n]
    if k == 5 and n:      # a single bit
        return (1 << rng.randrange(8 * n)).to_bytes(n, "little")
    return rng.randbytes(n)


def driver(ctx, name="driver", **kw):
    return build(ctx, name, os.path.join(HARN, "driver.cpp"), **kw)


def _run(ctx, exe, behs, args, timeout):
    inp = "".join(b.text() for b in behs)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=67"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=68"
    env["TSAN_OPTIONS"] = "exitcode=69:halt_on_error=0"
    try:
        r = subprocess.run([exe, "--seed", str(ctx.seed)] + list(args), input=inp, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        recs = [l for l in out.splitlines() if l.endswith("]}")]
        i = behs[min(len(recs), len(behs) - 1)].id
        return recs + [json.dumps({"id": i, "ev": [{"op": "fault", "what": "no result within %d s" % timeout}]})], "timeout"
    recs = [l for l in r.stdout.splitlines() if l.startswith("{")]
    if r.returncode == 3:
        raise CheckError("driver: " + r.stderr[-1000:])
    if r.returncode == 66:
        return recs, r.stderr
    if r.returncode != 0:
        i = behs[min(len(recs), len(behs) - 1)].id
        recs.append(json.dumps({"id": i, "ev": [{"op": "fault", "what": "exit %d" % r.returncode}]}))
        return recs, r.stderr
    if len(recs) != len(behs):
        raise CheckError("driver produced %d records for %d behaviours\n%s" % (len(recs), len(behs), r.stderr[-2000:]))
    return recs, r.stderr


def record(ctx, exe, behs, args=(), timeout=300, shards=NCPU):
    """Execute; a shard that stops early loses the behaviours after the faulty one (reported anyway)."""
    shards = max(1, min(shards, len(behs)))
    parts = [behs[i::shards] for i in range(shards)]
    outs = par([lambda p=p: _run(ctx, exe, p, args, timeout) for p in parts])
    recs = []
    errs = {}
    for p, (o, e) in zip(parts, outs):
        recs += o
        if e:
            for l in o[-1:]:
                errs[json.loads(l)["id"]] = e
    return recs, errs


def write_ndjson(ctx, name, recs):
    p = ctx.path(name)
    with open(p, "w") as f:
        for r in recs:
            f.write(r + "\n")
    return p


def rejected_id(res, recs):
    tail = res.out[res.out.find("Error:"):]
    m = re.findall(r'^/\\ t = (\d+)', tail, re.M)
    if m:
        return json.loads(recs[int(m[-1]) - 1])["id"]
    m = re.search(r'/\\ record = "([^"]*)"', tail)
    return m.group(1) if m else None


def check_records(ctx, stage, behs, exe, args=(), cfg="TraceHash.cfg", spec="TraceHash.tla", errs=None, recs=None, timeout=800, drv_timeout=300, shards=NCPU, known_key=None):
    """Execute behaviours, validate, confirm a rejection by running the rejected behaviour again."""
    t0 = time.time()
    if recs is None:
        recs, errs = record(ctx, exe, behs, args, timeout=drv_timeout, shards=shards)
    t1 = time.time()
    p = write_ndjson(ctx, stage + ".ndjson", recs)
    res = tlc(ctx, spec, cfg, env={"TRACES": p}, timeout=timeout)
    t2 = time.time()
    if not res.ok:
        rid = rejected_id(res, recs)
        byid = {b.id: b for b in behs}
        if rid is None or rid not in byid:
            raise CheckError("rejection without witness in stage %s:\n%s" % (stage, error_tail(res.out)))
        b = byid[rid]
        if exe is None:
            # records derived from validated ones: nothing to execute again
            rec = [r for r in recs if json.loads(r)["id"] == rid]
            res2 = tlc(ctx, spec, cfg, env={"TRACES": write_ndjson(ctx, stage + ".again.ndjson", rec)}, timeout=timeout)
            if res2.ok:
                raise CheckError("rejection of %s in stage %s was not repeated" % (rid, stage))
            raise Violation("%s: %s is not allowed by the specification" % (stage, rid),
                            {"stage": stage, "record": rec[-1][:30000], "seed": ctx.seed, "tlc": error_tail(res2.out)[:3000]})
        # again, on its own
        again, errs2 = record(ctx, exe, [b], args, timeout=drv_timeout, shards=1)
        p2 = write_ndjson(ctx, stage + ".again.ndjson", again)
        res2 = tlc(ctx, spec, cfg, env={"TRACES": p2}, timeout=timeout)
        if res2.ok:
            # depends on what ran before it: repeat everything
            again, errs2 = record(ctx, exe, behs, args, timeout=drv_timeout, shards=shards)
            p2 = write_ndjson(ctx, stage + ".again.ndjson", again)
            res2 = tlc(ctx, spec, cfg, env={"TRACES": p2}, timeout=timeout)
            if res2.ok:
                rec = [r for r in recs if json.loads(r)["id"] == rid]
                unrepeated(stage, rid, rec[-1], {"stage": stage, "behaviour": b.text(), "seed": ctx.seed, "record": rec[-1][:20000], "stderr": (errs or {}).get(rid, "")[-4000:], "tlc": error_tail(res.out)[:6000]})
        rec = [r for r in recs if json.loads(r)["id"] == rid]
        detail = {"stage": stage, "behaviour": b.text(), "driver_args": list(args), "seed": ctx.seed,
                  "record": rec[-1][:20000] if rec else None, "stderr": (errs or {}).get(rid, "")[-4000:],
                  "spec": spec, "cfg": cfg, "tlc": error_tail(res2.out)}
        raise Violation("%s: the record of %s is not a behaviour of the specification" % (stage, rid), detail)
    ctx.states += res.distinct
    ctx.transitions += res.generated
    ctx.traces += len(recs)
    ctx.evals += len(recs)
    for b in behs:
        if b.nontrivial:
            ctx.nontrivial.add(hash(tuple(b.lines)))
    ctx.notes.append({"stage": stage, "records": len(recs), "states": res.distinct, "run_s": round(t1 - t0, 1), "tlc_s": round(t2 - t1, 1)})
    for r in recs[:2]:
        ctx.sample(r)
    ctx.log("%s: %d records, %d states, run %.1fs tlc %.1fs" % (stage, len(recs), res.distinct, t1 - t0, t2 - t1))
    return recs


def check_many(ctx, stage, behs, exes_, cfg="TraceHash.cfg", spec="TraceHash.tla", timeout=800, drv_timeout=300):
    """Execute the behaviours with several builds [(exe, args, tag)]; validate each distinct record once."""
    t0 = time.time()
    todo, shards = [], max(1, NCPU // max(1, len(exes_)))
    outs = par([lambda x=x: record(ctx, x[0], behs, x[1], timeout=drv_timeout, shards=shards) for x in exes_])
    recs, origin, total, errs = [], {}, 0, {}
    for x, (rs, e) in zip(exes_, outs):
        total += len(rs)
        for l in rs:
            if l not in origin:
                origin[l] = x
                recs.append(l)
        for i, m in e.items():
            errs.setdefault((i, x[2]), m)
    t1 = time.time()
    res = tlc(ctx, spec, cfg, env={"TRACES": write_ndjson(ctx, stage + ".ndjson", recs)}, timeout=timeout)
    if not res.ok:
        tail = res.out[res.out.find("Error:"):]
        m = re.findall(r'^/\\ t = (\d+)', tail, re.M)
        if not m:
            raise CheckError("rejection without witness in stage %s:\n%s" % (stage, error_tail(res.out)))
        line = recs[int(m[-1]) - 1]
        x, rid = origin[line], json.loads(line)["id"]
        b = {b.id: b for b in behs}[rid]
        for again_behs in ([b], behs):
            again, e2 = record(ctx, x[0], again_behs, x[1], timeout=drv_timeout, shards=1 if again_behs is not behs else shards)
            again = [a for a in again if json.loads(a)["id"] == rid or '"fault"' in a]
            res2 = tlc(ctx, spec, cfg, env={"TRACES": write_ndjson(ctx, stage + ".again.ndjson", again)}, timeout=timeout)
            if not res2.ok:
                raise Violation("%s: the record of %s (%s) is not a behaviour of the specification" % (stage, rid, x[2]),
                                {"stage": stage, "build": x[2], "behaviour": b.text(), "driver_args": list(x[1]), "seed": ctx.seed, "record": line[:20000],
                                 "stderr": (e2.get(rid) or errs.get((rid, x[2])) or "")[-4000:], "spec": spec, "cfg": cfg, "tlc": error_tail(res2.out)[:8000]})
        unrepeated(stage, rid, line, {"stage": stage, "build": x[2], "behaviour": b.text(), "stderr": errs.get((rid, x[2]), "")[-4000:], "seed": ctx.seed, "record": line[:20000], "tlc": error_tail(res.out)[:6000]})
    ctx.states += res.distinct
    ctx.transitions += res.generated
    ctx.traces += total
    ctx.evals += total
    ctx.nontrivial.update(hash(r) for r in recs)
    ctx.notes.append({"stage": stage, "records": total, "distinct_records": len(recs), "builds": [x[2] for x in exes_], "states": res.distinct, "run_s": round(t1 - t0, 1), "tlc_s": round(time.time() - t1, 1)})
    for r in recs[:2]:
        ctx.sample(r)
    ctx.log("%s: %d records of %d builds (%d distinct), %d states, run %.1fs tlc %.1fs" % (stage, total, len(exes_), len(recs), res.distinct, t1 - t0, time.time() - t1))
    return recs


def lengths(rng, a, extra, top=None):
    """every length up to two blocks and a bit, then random ones"""
    B = block(a)
    hi = top if top is not None else 2 * B + 18
    ls = list(range(0, hi))
    for _ in range(extra):
        ls.append(rng.randrange(hi, hi + 6 * max(B, 16)))
    return ls


# ------------------------------------------------------------------ design-level models

def model(ctx, spec, cfg, mutants=(), const="Mutant", workers=NCPU, timeout=800, consts=None):
    """TLC on an abstract model (must hold), and on each mutant of it (must be refuted: vacuity check)."""
    if FINGERPRINT:
        return
    base_cfg = open(os.path.join(SPEC, cfg)).read()
    for k, v in (consts or {}).items():
        base_cfg, n = re.subn(r"\b%s = \S+" % k, "%s = %s" % (k, v), base_cfg)
        assert n, k
    p = ctx.path(cfg)
    open(p, "w").write(base_cfg)
    t = time.time()
    res = tlc(ctx, spec, p, workers=workers, timeout=timeout)
    if not res.ok:
        raise CheckError("the model %s/%s does not hold:\n%s" % (spec, cfg, error_tail(res.out)))
    ctx.states += res.distinct
    ctx.transitions += res.generated
    note = {"stage": "model " + spec + " " + cfg, "states": res.distinct, "transitions": res.generated}

    def one(mu):
        q = ctx.path(cfg[:-4] + "." + mu + ".cfg")
        open(q, "w").write(re.sub(r'%s = "none"' % const, '%s = "%s"' % (const, mu), base_cfg))
        r = tlc(ctx, spec, q, workers=1, timeout=timeout, heap="2g")
        if r.ok:
            raise CheckError("the mutant %s of %s is not refuted" % (mu, spec))
        return mu
    if mutants:
        note["mutants_refuted"] = par([lambda m=m: one(m) for m in mutants])
    ctx.notes.append(note)
    ctx.log("model %s: %d states, %d mutants refuted, %.1fs" % (spec, res.distinct, len(mutants), time.time() - t))


def generated(ctx, num, depth=9, names=3):
    """behaviours of the object store, from TLC's simulator on GenHash"""
    cfg = ctx.path("GenHash.cfg")
    c = open(os.path.join(SPEC, "GenHash.cfg")).read()
    c = c.replace("Depth = 9", "Depth = %d" % depth).replace("{0,1,2}", "{" + ",".join(map(str, range(names))) + "}")
    open(cfg, "w").write(c)
    cmd = ["java", "-Xmx2g", "-cp", JAVA_CP, "tlc2.TLC", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed * 7919 + num),
           "-workers", "1", "-metadir", ctx.path("gmeta"), "-noGenerateSpecTE", "-config", cfg, "GenHash.tla"]
    r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=300)
    by = {}
    for line in r.stdout.splitlines():
        if line.startswith('"BEH '):
            b = json.loads(json.loads(line)[4:])
            by.setdefault(json.dumps(b[:-1]), []).append(b)
    if not by:
        raise CheckError("GenHash produced nothing:\n" + r.stdout[-3000:])
    return [ctx.rng.choice(v) for v in by.values()]


def concretize(rng, beh, algs, id, seeded=True, maxlen=None):
    """choose algorithms, seeds and bytes for a generated behaviour"""
    lines, fill, alg = [], {}, {}
    for e in beh:
        o = e["o"]
        if e["op"] == "N":
            a = rng.choice(algs)
            k = rng.choice("ddib") if seeded else "d"
            s = {"d": "", "i": "%016x" % rng.getrandbits(64), "b": ""}[k]
            if k == "b":
                s = hx(rng.randbytes(rng.choice([0, 1, 4, 7, 8, 15, 16, 17, 31, 40, block(a), block(a) + 3])))
            lines.append(("N %d %s %s %s" % (o, a, k, s)).strip())
            fill[o], alg[o] = 0, a
            # absorbed seeds leave a fresh block; fnv has none; fill after a short seed is tracked only roughly
        elif e["op"] == "U":
            B = max(block(alg[o]), 4)
            m, c = fill[o], e["c"]
            k = {"e": 0, "f": B - m, "l": 2 * B + rng.randrange(B)}.get(c)
            if c == "s":
                k = rng.randrange(1, max(2, B - m))
            if c == "x":
                k = B - m + rng.randrange(1, B)
            lines.append("U %d %s" % (o, hx(msg(rng, k))))
            fill[o] = (m + k) % B
        elif e["op"] == "R":
            lines.append("R %d" % o)
            fill[o] = 0
        elif e["op"] in "CM":
            p = e["p"]
            lines.append("%s %d %d" % (e["op"], o, p))
            if p != o:
                fill[p], alg[p] = fill[o], alg[o]
            if e["op"] == "M":
                lines.append("F %d" % o)
                fill.pop(o), alg.pop(o)
        elif e["op"] == "F":
            lines.append("F %d" % o)
            fill.pop(o), alg.pop(o)
    for o in sorted(fill):
        lines.append("R %d" % o)
    return Beh(id, lines + ["."], any(l[0] == "U" for l in lines))
