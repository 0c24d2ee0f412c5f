import json, subprocess
from vlib.core import *
from vlib.htrace import *
LEVEL = "model_checking"
RULE = ("behaviour = TLC-generated sequence of constructions, copies, writes, comparisons and conversions over three digests of one of 15 sizes; after every operation all "
        "accessors are recorded, conversions with canaries around and inside the output range, streams with widths, fills and flags; run normally and under ASan+UBSan")
SIZES = [1, 2, 3, 4, 5, 7, 8, 16, 20, 28, 32, 48, 64, 100, 129]


def gen(ctx, num, depth):
    cfg = ctx.path("GenDigest.cfg")
    open(cfg, "w").write(open(os.path.join(SPEC, "GenDigest.cfg")).read().replace("Depth = 14", "Depth = %d" % depth))
    cmd = ["java", "-Xmx2g", "-cp", JAVA_CP, "tlc2.TLC", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed * 104729 + num),
           "-workers", "1", "-metadir", ctx.path("gmeta"), "-noGenerateSpecTE", "-config", cfg, "GenDigest.tla"]
    r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=600)
    by = {}
    for line in r.stdout.splitlines():
        if line.startswith('"BEH '):
            b = json.loads(json.loads(line)[4:])
            by.setdefault(json.dumps(b[:-1]), []).append(b)
    if not by:
        raise CheckError("GenDigest produced nothing:\n" + r.stdout[-3000:])
    return [ctx.rng.choice(v) for v in by.values()]


class DBeh(Beh):
    def __init__(self, id, n, lines):
        Beh.__init__(self, id, lines)
        self.n = n

    def text(self):
        return "T %s %d\n%s\n.\n" % (self.id, self.n, "\n".join(self.lines))


def run(ctx):
    r = ctx.rng
    src = os.path.join(HARN, "digests.cpp")
    asan = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DNO_SIGNALS")
    exe, san, cl = par([lambda: build(ctx, "dig", src), lambda: build(ctx, "dig_san", src, opts=asan, std="c++20"),
                        lambda: build(ctx, "dig_cl", src, cxx=CLANG, std="c++11", opts=("-O2", "-funsigned-char"))])
    behs = []
    for i, b in enumerate(gen(ctx, 6000 if ctx.thorough else 700, 18)):
        behs.append(DBeh("gen%d" % i, SIZES[i % len(SIZES)], ["%s %d %s" % (e["op"], e["o"], e["c"]) for e in b]))
    # every class of output range for every size, several times
    for n in SIZES:
        for k in range(30 if ctx.thorough else 6):
            behs.append(DBeh("chars%d.%d" % (n, k), n, ["N 0 a"] + ["T 0 %s" % c for c in ("zero", "one", "less", "less", "exact", "more")] + ["A 0 exact", "A 0 more", "G 0 x"] +
                             ["O 0 %s" % c for c in ("plain", "narrow", "wide", "left", "internal", "flags")] + ["N 1 d", "E 1 1", "E 0 1", "E 0 0"]))
    r.shuffle(behs)
    check_records(ctx, "digests", behs, exe, cfg="TraceDigest.cfg", spec="TraceDigest.tla")
    check_records(ctx, "sanitized", behs[::2], san, cfg="TraceDigest.cfg", spec="TraceDigest.tla")
    check_records(ctx, "clang", behs[1::2], cl, cfg="TraceDigest.cfg", spec="TraceDigest.tla")
    ctx.assumptions = ["15 sizes; contents sampled, including all-ones, and single-bit differences at random positions"]
