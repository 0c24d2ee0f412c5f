from vlib.core import *
from vlib.htrace import *
from vlib.atrace import exes, acheck, generated_sources
LEVEL = "model_checking"
RULE = ("behaviour = updates and byte seeds of exact-size memory (at odd addresses, ending or beginning at an unmapped page, read-only, ended by an ASan redzone) and empty "
        "updates and seeds of every kind (null, one past an end) at every fill level, by builds with and without sanitizers of two compilers; records of hash_append values, "
        "call histories, digests and integral projections from sanitized builds; a fault or a sanitizer report is an event the specification has no action for; non-trivial: all")
SAN = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DNO_SIGNALS")
SAN0 = ("-O0", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DNO_SIGNALS")


def behaviours(ctx):
    r = ctx.rng
    behs = []
    for a in ALL:
        B = max(block(a), 4)
        dense = ctx.thorough or blockcost(a) < 1 and B < 100
        # empty updates at every fill level, then one that ends within, at and beyond the block
        for m in range(0, B + 1):
            if not dense and m % 5 and m not in (1, B - 1, B, B - 8, B - 9, B - 16, B - 17):
                continue
            k = r.choice([0, 1, B - m, B - m + 1, B, B + r.randrange(B)])
            behs.append(Beh("%s.fill%d" % (a, m), ["N 0 %s d" % a, "U 0 -", "U 0 %s" % hx(msg(r, m)), "U 0 -", "U 0 %s" % hx(msg(r, k)), "U 0 -", "R 0", "U 0 -", "R 0", "."]))
        # every seed length
        for n in range(0, B + 20):
            if not dense and n % 7 and n not in (1, 2, 3, 4, 5, 8, 9, 15, 16, 17, B - 1, B, B + 1, B + 2):
                continue
            behs.append(Beh("%s.seed%d" % (a, n), ["N 0 %s b %s" % (a, hx(msg(r, n))), "U 0 -", "U 0 %s" % hx(msg(r, r.randrange(9))), "R 0", "U 0 -", "R 0", "."]))
        behs.append(Beh("%s.int" % a, ["N 0 %s i %016x" % (a, r.getrandbits(64)), "U 0 -", "U 0 01", "R 0", "."]))
        for n in [0, 1, 2 * B - 1, 2 * B + 3] + [r.randrange(3 * B)] * (4 if dense else 1):
            behs.append(Beh("%s.two%d.%d" % (a, n, len(behs)), ["S %s %s 2" % (a, hx(msg(r, n)))]))
        if dense or B <= 64:
            n = B + 3
            behs.append(Beh("%s.three%d" % (a, n), ["S %s %s 3" % (a, hx(msg(r, n)))]))
        for n in (1000 + r.randrange(200), 4096, 20000 + r.randrange(99)):
            behs.append(Beh("%s.large%d" % (a, n), ["N 0 %s d" % a, "U 0 %s" % hx(r.randbytes(n)), "U 0 -", "R 0", "."]))
    r.shuffle(behs)
    return behs


def run(ctx):
    src = os.path.join(HARN, "driver.cpp")
    specs = [("gcc-asan", GXX, "c++17", SAN), ("clang-asan", CLANG, "c++20", SAN), ("gcc-guard", GXX, "c++11", ("-O2", "-funsigned-char")), ("clang-guard", CLANG, "c++14", ("-O2", "-DNDEBUG")),
             ("gcc-ubsan-guard", GXX, "c++20", ("-O2", "-g", "-fsanitize=undefined", "-fno-sanitize-recover=all"))]
    if ctx.thorough:
        specs += [("gcc-asan3", GXX, "c++11", ("-O3",) + SAN[1:]), ("clang-asan0", CLANG, "c++11", SAN0), ("gcc-guard3", GXX, "c++23", ("-O3", "-march=native"))]
    hash_exes = par([lambda s=s: (driver(ctx, "drv." + s[0], cxx=s[1], std=s[2], opts=s[3]), ["--heap"] if "asan" in s[0] else [], s[0]) for s in specs])
    check_many(ctx, "memory", behaviours(ctx), hash_exes, cfg="TraceHashFast.cfg", drv_timeout=600)
    # everything else, sanitized
    c = {"cxx": CLANG, "opts": SAN0}
    gen = generated_sources(ctx, 12 if ctx.thorough else 2, 10, 2)
    jobs = [("append_values.cpp", p, dict(c, std=("c++17", "c++20")[(p + ctx.seed) % 2])) for p in range(5)]
    jobs += [("append_calls.cpp", p, dict(c, std="c++20")) for p in range(6)] + [("append_algs.cpp", p, dict(c, std="c++17")) for p in range(6)]
    jobs += [("unordered.cpp", p, dict(c, std="c++17")) for p in range(0, 8, 1 if ctx.thorough else 4)]
    jobs += [("append_values.cpp", 1, dict(c, std="c++20", opts=SAN0 + ("-DSLOW_PATH",))), ("append_values.cpp", 0, dict(c, cxx=GXX, std="c++20"))]
    jobs += [("integral.cpp", None, dict(c, std="c++17")), ("scalar_sweep.cpp", None, dict(c, std="c++17"))] + [(g, None, dict(c, std="c++17")) for g in gen]
    if ctx.thorough:
        jobs += [(s, p, dict(k, cxx=GXX, std="c++20", opts=o)) for s, p, k in list(jobs) for o in (SAN0, SAN0 + ("-DSLOW_PATH",)) if s.startswith("append")]
    xs = exes(ctx, jobs)
    acheck(ctx, "append", [x for x in xs if not x.tag.startswith("integral")], ["--count", 40 if ctx.thorough else 4], run_timeout=800)
    acheck(ctx, "integral", [x for x in xs if x.tag.startswith("integral")], ["--count", 1000], run_timeout=800)
    ctx.assumptions = ["AddressSanitizer, UndefinedBehaviorSanitizer and the MMU report what they are made to report", "lengths and fill levels to a block and twenty bytes; larger ones sampled"]
