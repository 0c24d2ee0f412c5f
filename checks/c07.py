from vlib.core import *
from vlib.htrace import *
LEVEL = "model_checking"
RULE = ("experiment = feed a shape of updates/results with independent random contents in 8 trials, then look in the object's bytes for one that "
        "equals an input byte (optionally xor a constant) in every trial; every message length, keys and seeds of many lengths, histories "
        "with earlier longer messages; non-trivial: at least one input byte")
# Objects whose state legitimately is a bijection of a single word of input are excluded by shape, see run().


def run(ctx):
    r = ctx.rng
    model(ctx, "BufferImpl.tla", "BufferImpl.cfg", ["noclear", "noerase"], consts={"MaxResults": 3, "MaxTotal": 15})
    exe = driver(ctx)
    exe3 = driver(ctx, "driver3", opts=("-O3",), cxx="clang++")
    behs = []

    def add(a, kind, sl, shape, xc):
        behs.append(Beh("%s.%s%d.%s" % (a, kind, sl, "_".join(map(str, shape))),
                        ["E %s %s %d %s 8 %d %d" % (a, kind, sl, ",".join(map(str, shape)), r.getrandbits(30) + 1, xc)]))
    for a in ALL:
        B = block(a)
        if B == 1:
            continue      # FNV-1a keeps one word of state, no message bytes
        for n in range(1, 3 * B + 2 if ctx.thorough else 2 * B + 3):
            add(a, "d", 0, [n], 1)
        for i in range(60 if ctx.thorough else 12):
            # stale contents from before: longer updates, results in between (0 = result())
            sh = []
            for j in range(r.randrange(1, 4)):
                sh += [r.randrange(1, 2 * B + 2)] + ([0] if r.randrange(2) else [])
            add(a, "d", 0, sh + [r.randrange(1, B + 2)], 1)
        if a in LEGACY:
            continue      # a short seed is the state of the legacy functions
        sls = [1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, B - 1, B, B + 1, 2 * B - 1, 2 * B + 5] + [r.randrange(1, 3 * B) for _ in range(20 if ctx.thorough else 4)]
        for sl in sorted(set(s for s in sls if s > 0)):
            # constructed only; with a message; after an earlier result
            add(a, "b", sl, [0], 1)
            add(a, "b", sl, [r.randrange(1, B + 2)], 1)
            add(a, "b", sl, [r.randrange(1, B), 0, r.randrange(1, B)], 1)
    r.shuffle(behs)
    recs = check_records(ctx, "erase-g++", behs, exe, cfg="TraceHashFast.cfg")
    recs += check_records(ctx, "erase-clang-O3", behs, exe3, cfg="TraceHashFast.cfg")
    ctx.extra["object_byte_pairs"] = sum(e["inbytes"] * e["objbytes"] for x in recs for e in json.loads(x)["ev"])
    ctx.assumptions = ["retention is recognized as equality up to a constant xor over 8 independent trials (chance of a false report below 1e-10 per run)",
                       "the object representation is what is examined, not the stack"]
