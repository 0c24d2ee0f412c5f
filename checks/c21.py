import json
from vlib.core import *
from vlib.htrace import *
from vlib.atrace import *
from vlib.cgen import *
from vlib.bare import *
from checks.c12 import script, append_source, digest_source
LEVEL = "model_checking"
RULE = ("record = one behaviour of hash objects (every algorithm, lengths around the block boundaries, seeds, TLC-generated histories), of hash_append of hand-picked and generated values under every flavor, "
        "of digests or of projections, executed on one platform: x86-64, 32-bit x86 (two compilers) and 64-bit big-endian MIPS (in an interpreter that traps misaligned accesses); every record must be a behaviour "
        "of the specification with that platform's order and pointer size; non-trivial: all")


def scripts(ctx, targets, n):
    """sources written from generated behaviours: the same messages on every platform"""
    r, out = ctx.rng, []
    gen = generated(ctx, 60 * n)
    r.shuffle(gen)
    for k in range(n):
        g = CGen(r, 17, False, True, True)
        for a in ALL:
            B = max(block(a), 4)
            L = sorted({0, 1, 2, 3, 5, B - 9, B - 8, B - 1, B, B + 1, B + 5, 2 * B, 2 * B + 3} - set(range(-20, 0)))
            for m in r.sample(L, 5):
                g.behaviour("%s.%d.%d" % (a, m, k), ["N 0 %s d" % a, "U 0 %s" % hx(msg(r, m)), "R 0", "R 0", "."])
            for q in range(3):
                g.behaviour("%s.s%d.%d" % (a, q, k), script(r, a, True) + ["."])
        for i in range(40):
            if gen:
                b = concretize(r, gen.pop(), ALL, "gen%d.%d" % (i, k))
                g.behaviour(b.id, b.lines)
        p = ctx.path("hash%d.cpp" % k)
        open(p, "w").write(g.source())
        out.append(("hash", p, None, "c++17", ("-O1" if k % 2 else "-O0", "-DRUN_ONLY")))
        for std in (11, 14, 17):
            p = ctx.path("append%d_%d.cpp" % (std, k))
            open(p, "w").write(append_source(r, ("run", std), 50, ALL[:-3], True))
            out.append(("append", p, None, "c++%d" % std, ("-O0", "-DRUN_ONLY")))
        p = ctx.path("digest%d.cpp" % k)
        open(p, "w").write(digest_source(r, ("run", 17), 30))
        out.append(("digest", p, None, "c++17", ("-O0", "-DRUN_ONLY")))
    return out


LONG = ["xxhash_32", "xxhash_64", "murmur3_32", "murmur3_128", "spooky2_128", "siphash_32", "siphash_64", "md5_128"]


def long_messages(ctx):
    """more bytes than a 32-bit size can count, on a 32-bit platform"""
    ts = ("i386", "i386gcc") if ctx.thorough else ("i386",)
    jobs = [(t, a, 3 if ctx.thorough or a in LONG else 2) for t in ts for a in PLAIN + LEGACY]
    xs = par([lambda t=t, a=a, n=n: build_for(ctx, t, "longrun.cpp", None, "c++14", ("-O2", "-DRUN_ONLY", "-DTOP=%d" % n, "-DALGS=L(%s)" % a)) for t, a, n in jobs])
    acheck(ctx, "long messages", [x for x in xs if x], cfg="TraceLong.cfg", spec="TraceLong.tla")


def run(ctx):
    targets = ["mips64", "i386", "x86-64"] + (["i386gcc"] if ctx.thorough else [])
    prepare(ctx, targets)
    src = scripts(ctx, targets, 4 if ctx.thorough else 1)
    O = ("-O0",)
    for p in range(5):
        src.append(("values", "append_values.cpp", p, ("c++11", "c++17", "c++14", "c++20", "c++17")[p], O))
    for p in range(6):
        src.append(("values", "append_calls.cpp", p, "c++17" if p % 2 else "c++11", O))
        src.append(("values", "append_algs.cpp", p, "c++14", O))
    for p in range(4):
        src.append(("traits", "classes.cpp", p, ("c++17", "c++20")[p % 2], O))
    src += [("values", "integral.cpp", None, "c++14", ("-O0", "-DSTEP=251")), ("values", "append_values.cpp", 0, "c++17", ("-O2", "-DSLOW_PATH")), ("values", "append_values.cpp", 0, "c++17", ("-O2",))]
    src.append(("unordered", "unordered.cpp", 0, "c++17", O))
    for i, g in enumerate(generated_sources(ctx, 5 if ctx.thorough else 1, 8, 2)):
        src.append(("values", g, None, "c++17", O))
    if ctx.thorough:
        src += [("values", "append_values.cpp", p, "c++17", ("-O2", "-DSLOW_PATH")) for p in range(1, 5)]
        src += [("unordered", "unordered.cpp", p, "c++17", O) for p in range(1, 8)]
    jobs = [(t, s[0], s) for t in targets for s in src if t != "x86-64" or s[0] not in ("values", "traits", "unordered") or ctx.thorough or (s[1] == "append_values.cpp" and s[2] in (0, 1))]
    xs = par([lambda t=t, s=s: build_for(ctx, t, s[1], s[2], s[3], s[4]) for t, k, s in jobs])
    if sum(x is None for x in xs) > len(xs) // 2:
        raise CheckError("most programs could not be linked")
    of = lambda t, *ks: [x for x, j in zip(xs, jobs) if x and t in (None, j[0]) and j[1] in ks]
    # what does not depend on the order: the platforms' records are the same lines
    acheck(ctx, "hashes", of(None, "hash"))
    acheck(ctx, "digests", of(None, "digest"), cfg="TraceDigest.cfg", spec="TraceDigest.tla")
    for t in targets:
        acheck(ctx, "%s.values" % t, of(t, "append", "values", "traits", "unordered"), ["--count", 20 if ctx.thorough else 6], cfg=cfg(t))
    long_messages(ctx)
    ctx.extra["platforms"] = targets
    ctx.assumptions = ["harness/bare/mips64.cpp interprets MIPS64r2 as documented; the runtime in harness/bare stands in for a C library; clang 18 and g++ 13 generate correct code for these targets"]
