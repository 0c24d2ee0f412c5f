from vlib.core import *
from vlib.atrace import *
LEVEL = "model_checking"
RULE = ("record = a value of a composite type appended to the minimal recorder and to recorders with other result types (8/16/32/64-bit integers, "
        "arrays, digests), both update overloads, other sizes and alignments; the streams must coincide with TLC's; or a history of appends, updates, "
        "copies and results of one of the library algorithms behind hash_append, all results checked; ranges of 255 to 555 elements likewise; interface facts are events; non-trivial: all")


def run(ctx):
    gen = generated_sources(ctx, 16 if ctx.thorough else 3, 10, 3)
    o = ("-O0", "-DMODE=2")
    jobs = [("append_values.cpp", p, {"opts": o, "std": ("c++17", "c++14", "c++20")[p % 3], "cxx": CLANG if p == 2 else GXX}) for p in range(5)]
    jobs += [(g, None, {"opts": o}) for g in gen]
    jobs += [("append_algs.cpp", p, {"std": ("c++17", "c++20")[p % 2], "cxx": CLANG if p == 4 and ctx.thorough else GXX}) for p in range(6)]
    jobs += [("append_large.cpp", 0, {"cxx": CLANG, "std": "c++20", "opts": ("-O0", "-w")})]
    if ctx.thorough:
        jobs += [("append_values.cpp", p, {"opts": ("-O1", "-DMODE=2", "-DSLOW_PATH"), "cxx": CLANG}) for p in range(5)]
    xs = exes(ctx, jobs)
    acheck(ctx, "values", [x for x in xs if x.tag.startswith("append_values")], ["--count", 20 if ctx.thorough else 4])
    acheck(ctx, "generated", [x for x in xs if x.tag.startswith("gen")], ["--count", 40 if ctx.thorough else 12])
    acheck(ctx, "algorithms", [x for x in xs if x.tag.startswith("append_algs")], ["--count", 30 if ctx.thorough else 6])
    acheck(ctx, "large", [x for x in xs if x.tag.startswith("append_large")])
    ctx.assumptions = ["the recorders are representative of conforming hash algorithms: minimal, and with every result shape", "values sampled"]
