from vlib.core import *
from vlib.htrace import *
from vlib.atrace import exes, acheck
LEVEL = "model_checking"
RULE = ("one behaviour = an object that absorbed 2^29 / 2^32 (thorough: also 5 * 2^31) bytes in many calls, in one call, in one call after a "
        "few bytes, or through one hash_append operation, and what results come out afterwards; or whose byte count was raised to values up to 2^61 in place; all are non-trivial")

APPEND = ["range", "mrange", "chars", "sized", "sized32", "view", "words"]


COUNTED = MD + HMAC + ["xxhash_64", "murmur3_128"]      # (the others' results depend on 32 or fewer bits of the count)


def counts(ctx):
    """lengths up to 2^61: the count is raised in the object's representation, where the object shows it"""
    r, behs = ctx.rng, []
    exe = driver(ctx, opts=("-O2",))
    for a in COUNTED:
        B = block(a)
        ks = range(29, 61) if ctx.thorough or blockcost(a) < 1 else sorted({29, 32, 60} | set(r.sample(range(29, 61), 6 if a in MD else 3)))
        for k in ks:
            d = [((1 << k) + r.choice([0, -256, 128, r.getrandbits(k)])) & ~127, (r.getrandbits(r.randrange(20, k + 1))) & ~127]
            L = ["N 0 %s %s" % (a, r.choice(["d", "i %016x" % r.getrandbits(64), "b %s" % hx(r.randbytes(r.randrange(1, 40)))]))]
            L += ["U 0 %s" % hx(msg(r, r.randrange(2 * B, 3 * B + 2))), "K 0 %016x" % d[0], "U 0 %s" % hx(msg(r, r.randrange(B + 2))), "R 0", "R 0",
                  "U 0 %s" % hx(msg(r, r.randrange(B + 2))), "K 0 %016x" % d[1], "R 0", "."]
            behs.append(Beh("%s.count%d" % (a, k), L))
    r.shuffle(behs)
    recs = check_records(ctx, "counts", behs, exe, cfg="TraceHashFast.cfg")
    ctx.extra["counts_raised_for"] = sorted({json.loads(x)["ev"][0]["a"] for x in recs if '"skip"' in x})


def run(ctx):
    counts(ctx)
    model(ctx, "BufferImpl.tla", "BufferImpl.cfg", ["narrow", "narrowlen"], consts={"W": "12", "MaxResults": "2"})
    model(ctx, "BufferImpl.tla", "BufferImpl.cfg", ["count"], consts={"W": "24"})
    exe = build(ctx, "longmsg", os.path.join(HARN, "longmsg.cpp"), opts=("-O2",))
    other = build(ctx, "longmsgc", os.path.join(HARN, "longmsg.cpp"), cxx=CLANG, opts=("-O2",), std="c++20") if ctx.thorough else None
    r = ctx.rng
    top = 4 if ctx.thorough else 3
    jobs = [(exe, a, "chunks", top) for a in PLAIN + LEGACY]
    if ctx.thorough:
        jobs += [(x, a, m, top) for x in (exe, other) for a in ALL for m in ("chunks", "single", "pre")]
        jobs += [(x, a, m, 3) for x in (exe, other) for a in ("xxhash_64", "siphash_64", "md5_128") for m in APPEND]
        jobs = sorted(set(jobs))
    else:
        for i, a in enumerate(PLAIN + LEGACY):
            jobs.append((exe, a, ("single", "pre")[(i + ctx.seed) % 2], 3))
            if blockcost(a) < .1 and a != "fnv1a_32":
                jobs.append((exe, a, ("pre", "single")[(i + ctx.seed) % 2], 3))
        jobs += [(exe, a, r.choice(["single", "pre", "chunks"]), 3) for a in r.sample(["hmac_md5_128", "hmac_sha1_160", "hmac_ripemd_128"], 1) + r.sample(["hmac_sha2_512", "hmac_sha2_384", "hmac_sha2_512_256"], 1)]
        jobs += [(exe, "xxhash_64", m, 3) for m in APPEND] + [(exe, "siphash_64", m, 3) for m in r.sample(APPEND, 3)] + [(exe, "md5_128", r.choice(APPEND), 3)]
    slow = lambda j: {"ripemd": 2, "sha2_2": 3, "sha2_5": 2, "sha2_3": 2}.get(base(j[1])[:6], 1)
    jobs.sort(key=slow, reverse=True)

    def one(j):
        x, a, m, t = j
        rid = "long.%s.%s" % (a, m)
        for attempt in (1, 2):
            try:
                q = subprocess.run([x, a, m, str(t)], capture_output=True, text=True, timeout=700 if ctx.thorough else 300)
            except subprocess.TimeoutExpired:
                return json.dumps({"id": rid, "ev": [{"op": "fault", "what": "no result"}]})
            if q.returncode == 3:
                raise CheckError("longmsg: " + q.stderr[-2000:])
            if q.returncode == -9 and attempt == 1:
                continue
            break
        if q.returncode:
            return json.dumps({"id": rid, "ev": [{"op": "fault", "what": "exit %d" % q.returncode}]})
        return q.stdout.strip()
    t0 = time.time()
    recs = par([lambda j=j: one(j) for j in jobs])
    t1 = time.time()
    res = tlc(ctx, "TraceLong.tla", "TraceLong.cfg", env={"TRACES": write_ndjson(ctx, "long.ndjson", recs)})
    if not res.ok:
        tail = res.out[res.out.find("Error:"):]
        m = re.findall(r'^/\\ t = (\d+)', tail, re.M)
        if not m:
            raise CheckError("rejection without witness:\n" + error_tail(res.out))
        i = int(m[-1]) - 1
        again = one(jobs[i])
        if tlc(ctx, "TraceLong.tla", "TraceLong.cfg", env={"TRACES": write_ndjson(ctx, "again.ndjson", [again])}).ok:
            raise CheckError("rejection of %s was not repeated" % (jobs[i][1:],))
        raise Violation("the record of %s %s (longmsg) is not a behaviour of the specification" % jobs[i][1:3],
                        {"longmsg_args": [str(x) for x in jobs[i][1:]], "record": again[:20000], "tlc": error_tail(res.out)[:6000]})
    ctx.states += res.distinct
    ctx.transitions += res.generated
    ctx.traces += len(recs)
    ctx.evals += len(recs)
    ctx.nontrivial.update(j[1:] for j in jobs)
    for x in recs[:4]:
        ctx.sample(x)
    ctx.notes.append({"stage": "long messages", "records": len(recs), "run_s": round(t1 - t0, 1), "tlc_s": round(time.time() - t1, 1), "jobs": [" ".join(map(str, j[1:])) for j in jobs]})
    ctx.log("long: %d records, run %.1fs tlc %.1fs" % (len(recs), t1 - t0, time.time() - t1))
    xs = exes(ctx, [("append_large.cpp", p, {"cxx": CLANG, "std": "c++20", "opts": ("-O2" if p == 3 else "-O0", "-w")}) for p in (2, 3)])
    acheck(ctx, "huge ranges", xs)
    ctx.assumptions = ["chaining values after 2^29, 2^32 and 5*2^31 bytes of one fixed pattern come from tools/gen_long.cpp (an evaluator of the specification's definitions independent "
                       "of the library; TLC checks it on 2304 bytes for every algorithm)", "counts beyond 5 * 2^31 bytes are reached by raising the count in objects in whose representation it can be found (else by the model only), to 2^61; longer messages are not considered"]
