from vlib.core import *
from vlib.htrace import *
LEVEL = "model_checking"
RULE = ("behaviour = updates and several results on one object, starting at every fill level of the last block, for default and seeded "
        "objects; runs of results must be pairwise distinct; non-trivial: at least two results")


def run(ctx):
    r = ctx.rng
    model(ctx, "BufferImpl.tla", "BufferImpl.cfg", ["padroom", "keepcount"], consts={"MaxResults": 3, "MaxTotal": 15} if not ctx.thorough else {"MaxResults": 4})
    exe = driver(ctx)
    behs = []
    for a in ALL:
        B = max(block(a), 8)
        for m in range(0, B + 1):
            k = r.choice(["d", "d", "i %016x" % r.getrandbits(64), "b %s" % hx(r.randbytes(r.randrange(1, 40)))])
            L = ["N 0 %s %s" % (a, k), "U 0 %s" % hx(msg(r, m)), "R 0", "R 0"]
            if m % 3 == 0 or ctx.thorough:
                L += ["U 0 %s" % hx(msg(r, r.randrange(0, B + 3))), "R 0", "R 0"]
            behs.append(Beh("%s.fill%d" % (a, m), L + ["."]))
        # a long extended output
        n = 120 if ctx.thorough else 24
        behs.append(Beh("%s.xof" % a, ["N 0 %s d" % a, "U 0 %s" % hx(r.randbytes(r.randrange(1, 2 * B)))] + ["R 0"] * n + ["."]))
        if a in DOCUMENTED:
            behs.append(Beh("%s.xof%d" % (a, 262), ["N 0 %s %s" % (a, r.choice(["d", "i 1f"])), "U 0 616263"] + ["R 0"] * 262 + ["."]))
        behs.append(Beh("%s.xof0" % a, ["N 0 %s d" % a] + ["R 0"] * 12 + ["."]))
        # the second and later results depend on every byte absorbed
        if a in DOCUMENTED:
            n = r.randrange(B // 2, B + B // 2)
            m = r.randbytes(n)
            for i in range(-1, n, 1 if n <= 64 else 2):
                x = bytearray(m)
                if i >= 0:
                    x[i] ^= 1 << r.randrange(8)
                behs.append(Beh("%s.dep%d" % (a, i), ["N 0 %s d" % a, "U 0 %s" % hx(x), "R 0", "R 0", "R 0", "."]))
    for i, b in enumerate(generated(ctx, 600 if ctx.thorough else 120, depth=8, names=1)):
        behs.append(concretize(r, b, [ALL[i % len(ALL)]], "gen%d" % i))
    r.shuffle(behs)
    allrecs = check_records(ctx, "results", behs, exe, cfg="TraceHashFast.cfg")
    # the extended output does not repeat, and depends on what was absorbed
    recs, errs = record(ctx, exe, [b for b in behs if ".xof" in b.id])
    groups = []
    for rec in recs:
        j = json.loads(rec)
        a = j["ev"][0]["a"]
        vals = [e["r"][0] for e in j["ev"] if e["op"] == "res"]
        groups.append(json.dumps({"id": j["id"] + ".distinct", "ev": [{"op": "distinct", "a": a, "what": "results of one object", "rs": vals}]}))
    dep = {}
    for rec in allrecs:
        j = json.loads(rec)
        if ".dep" in j["id"]:
            dep.setdefault(j["ev"][0]["a"], []).append(j["ev"][3]["r"][0] + j["ev"][4]["r"][0])
    for a, vals in dep.items():
        groups.append(json.dumps({"id": a + ".depends", "ev": [{"op": "distinct", "a": a, "what": "second and third results after messages differing in one bit", "rs": vals}]}))
    check_records(ctx, "nonrepeating", [Beh(json.loads(g)["id"], [g]) for g in groups], None, recs=groups, cfg="TraceHashFast.cfg")
    ctx.assumptions = ["TLC and the harness are right", "contents sampled, fill levels exhaustive"]
