from vlib.core import *
from vlib.htrace import *
from vlib.atrace import *
from vlib.cgen import *
from checks.c12 import script, seeds_for, append_source, digest_source
LEVEL = "model_checking"
RULE = ("record = one behaviour of hash objects (all algorithms, lengths around the block boundaries, seeds, TLC-generated histories), of hash_append on generated and hand-picked values, "
        "of digests or of integral projections, in one build; builds differ in compiler, language version and dialect, optimization, assertions, signedness of char, instruction set, intrinsics, "
        "library debug mode; every distinct record must be a behaviour of the one specification; non-trivial: all")
PORT = "-include" + os.path.join(HARN, "portable.hpp")
BUILDS = [("g++", 11, ("-O0", "-fno-exceptions")), ("g++", 11, ("-O3", "-DNDEBUG")), ("g++", 14, ("-O2", "-funsigned-char", "-std=gnu++14")), ("g++", 17, ("-Os", "-D_GLIBCXX_DEBUG", "-fPIC", "-pthread")),
          ("g++", 20, ("-O3", "-march=native")), ("g++", 23, ("-O1", "-DNDEBUG", "-funsigned-char", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=2")), ("g++", 17, ("-O2", PORT, "-DBOOST_NO_CXX14_CONSTEXPR")), ("g++", 20, ("-O2", "-flto", "-DNDEBUG", PORT)),
          ("clang++", 11, ("-O2", "-fno-builtin", "-fno-exceptions")), ("clang++", 14, ("-O0", "-DNDEBUG", "-fwrapv")), ("clang++", 17, ("-O3", "-funsigned-char", "-DNDEBUG", "-std=gnu++17")), ("clang++", 20, ("-O1", "-DBOOST_NO_CXX17_INLINE_VARIABLES")),
          ("clang++", 23, ("-O2", "-march=native", "-DNDEBUG", "-pthread")), ("clang++", 20, ("-O2", PORT, "-funsigned-char", "-DBOOST_NO_CXX14_CONSTEXPR")), ("clang++", 11, ("-Os", PORT, "-DNDEBUG"))]
EVERY = [(c, s, (o,) + (("-DNDEBUG",) if (s + k) % 2 else ()) + (("-funsigned-char",) if (s // 3 + k) % 2 else ()))
         for c in ("g++", "clang++") for s in (11, 14, 17, 20, 23) for k, o in enumerate(("-O0", "-O1", "-O2", "-O3", "-Os"))]


def name(b):
    return "%s-%d%s" % (b[0], b[1], "".join(o.replace("-include" + HARN, "").replace("/portable.hpp", ".portable") for o in b[2]))


def kw(b):
    return {"cxx": b[0], "std": "c++%d" % b[1], "opts": b[2] + ("-w",)}


def hash_behaviours(ctx):
    r, behs = ctx.rng, []
    for a in ALL:
        B = max(block(a), 4)
        near = sorted({0, 1, 2, 3, B - 17, B - 16, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 9, 2 * B, 2 * B + 3} - set(range(-20, 0)))
        ls = range(0, 2 * B + 18) if blockcost(a) < 1 or ctx.thorough else near + [r.randrange(4 * B) for _ in range(10)]
        for n in ls:
            behs.append(Beh("%s.%d.%d" % (a, n, len(behs)), ["N 0 %s d" % a, "U 0 %s" % hx(msg(r, n)), "R 0", "R 0", "."]))
        for k in range(20 if ctx.thorough else 6):
            behs.append(Beh("%s.s%d" % (a, k), script(r, a, True) + ["."]))
    for i, b in enumerate(generated(ctx, 2000 if ctx.thorough else 300)):
        behs.append(concretize(r, b, ALL, "gen%d" % i))
    r.shuffle(behs)
    return behs


def run(ctx):
    r = ctx.rng
    builds = BUILDS + (EVERY if ctx.thorough else [])
    src = os.path.join(HARN, "driver.cpp")
    exes_ = par([lambda i=i, b=b: (driver(ctx, "drv%d" % i, **kw(b)), [], name(b)) for i, b in enumerate(builds)])
    check_many(ctx, "hashes", hash_behaviours(ctx), exes_, cfg="TraceHashFast.cfg", drv_timeout=600)
    # appends: the same source in every build that can compile it
    jobs = []

    def source(kind, k, text, lo, which):
        p = ctx.path("%s%d.cpp" % (kind, k))
        open(p, "w").write(text)
        for b in which:
            if b[1] >= lo:
                o = kw(b)
                jobs.append((p, None, dict(o, opts=o["opts"] + ("-DRUN_ONLY",), extra_inc=(HARN,))))
    for k, (lo, n) in enumerate([(11, 60), (14, 60), (17, 60)] * (4 if ctx.thorough else 1)):
        source("append", k, append_source(r, ("run", lo), n, ALL[:-3]), lo, builds if ctx.thorough else builds[k::3] + builds[(k + 1) % 3::3])
        source("digest", k, digest_source(r, ("run", lo), 20), lo, builds[k::2])
    heavy = [("g++", 11, ("-O0", "-DNDEBUG", "-funsigned-char")), ("clang++", 11, ("-O0", PORT)), ("g++", 20, ("-O2", "-DNDEBUG")), ("clang++", 17, ("-O2", "-funsigned-char"))]
    for b in heavy:
        jobs.append(("append_values.cpp", 0, kw(b)))
        jobs.append(("integral.cpp", None, kw(b)))
    gen = generated_sources(ctx, 8 if ctx.thorough else 2, 8, 2)
    for i, g in enumerate(gen):
        for b in (heavy[2:] + [("clang++", 14, ("-O0", PORT, "-funsigned-char"))]) if ctx.thorough else [("clang++", 14, ("-O1", "-DNDEBUG")), ("g++", 20, ("-O1", PORT, "-funsigned-char")), ("g++", 14, ("-O2", "-D_GLIBCXX_DEBUG"))][i:i + 2]:
            jobs.append((g, None, kw(b)))
    for p in range(6):
        b = [("g++", 11, ("-O0", "-funsigned-char", PORT)), ("clang++", 23, ("-O0", "-DNDEBUG", "-funsigned-char"))]
        jobs += [("append_calls.cpp", p, kw(x)) for x in (b if ctx.thorough else b[p % 2:][:1])]
    if ctx.thorough:
        jobs += [("append_values.cpp", p, kw(b)) for p in (1, 2, 3, 4) for b in heavy[2:]]
    xs = exes(ctx, jobs)
    of = lambda *n: [x for x in xs if x.tag.startswith(n)]
    acheck(ctx, "appends", [x for x in of("append") if not x.tag.startswith("append_")])
    acheck(ctx, "values", of("append_", "gen"), ["--count", 40 if ctx.thorough else 8])
    acheck(ctx, "digests", of("digest"), cfg="TraceDigest.cfg", spec="TraceDigest.tla")
    acheck(ctx, "integral", of("integral"))
    ctx.extra["builds"] = [name(b) for b in builds]
    ctx.assumptions = ["g++ 13 and clang 18 on x86-64; no big-endian or 32-bit target is available here"]
