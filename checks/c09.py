import json
from vlib.core import *
from vlib.atrace import *
from vlib.atrace import run as run_
LEVEL = "model_checking"
RULE = ("record = one value of one composite type (hand-picked and generated from a grammar of type constructors, including generated described and "
        "tag_invoke classes) under up to six flavors, in three storages and by several construction histories; or one element sequence through every "
        "iterator category, reference type, container and storage; or a long range, given by a formula (up to 70000 elements) or by its extent (more than 2^32); the streams received must be the one TLC derives; non-trivial: all")


def run(ctx):
    r = ctx.rng
    n, per = (24, 14) if ctx.thorough else (6, 9)
    gen = generated_sources(ctx, n, per, 3)
    jobs = [("append_values.cpp", p, {"std": ("c++17", "c++20", "c++14", "c++23")[(p + ctx.seed) % 4]}) for p in (1, 2, 3, 4)]
    jobs += [("append_calls.cpp", p, {"std": "c++20" if p % 2 else "c++17"}) for p in range(6)]
    jobs += [(g, None, {"cxx": CLANG if i % 3 == 2 else GXX, "std": ("c++17", "c++20", "c++14")[i % 3], "opts": ("-O0", "-DSLOW_PATH") if i % 4 == 3 else ("-O0",)}) for i, g in enumerate(gen)]
    jobs += [("subrange.cpp", None, {"std": "c++20"})]
    if ctx.thorough:
        jobs += [("append_values.cpp", p, {"cxx": CLANG, "std": "c++20", "opts": o}) for p in (1, 2, 3, 4) for o in (("-O2",), ("-O1", "-DSLOW_PATH"))]
        jobs += [("append_calls.cpp", p, {"cxx": CLANG, "std": "c++17", "opts": ("-O2",)}) for p in range(6)]
    jobs += [("append_large.cpp", p, {"cxx": CLANG, "std": ("c++20", "c++17")[p % 2], "opts": ("-O2" if p == 3 else "-O0", "-w")}) for p in range(4)]
    if ctx.thorough:
        jobs += [("append_large.cpp", p, {"std": "c++20", "opts": ("-O2", "-w") + o}) for p in (0, 1, 2) for o in ((), ("-DSLOW_PATH",)) if p < 2 or not o]
    xs = exes(ctx, jobs)
    acheck(ctx, "values", [x for x in xs if x.tag.startswith("append_values")], ["--count", 40 if ctx.thorough else 10])
    acheck(ctx, "calls", [x for x in xs if x.tag.startswith("append_calls")], ["--count", 40 if ctx.thorough else 12])
    acheck(ctx, "generated", [x for x in xs if x.tag.startswith("gen")], ["--count", 60 if ctx.thorough else 20])
    acheck(ctx, "large", [x for x in xs if x.tag.startswith("append_large")])
    subrange(ctx, [x for x in xs if x.tag.startswith("subrange")])
    ctx.assumptions = ["the harness describes types and values right (independently of the library)", "types and values sampled from the grammar, depth 3"]


def subrange(ctx, xs):
    """std::ranges::subrange: as documented, or exactly the listed finding"""
    recs, err = run_(ctx, xs[0])
    p = write_ndjson(ctx, "subrange.ndjson", recs)
    if tlc(ctx, "TraceAppend.tla", "TraceAppend.cfg", env={"TRACES": p}).ok:
        ctx.traces += len(recs)
        return
    what = known(ctx.pid, "subrange")
    if what:
        # the deviation: treated as of constant size, so the count is missing (a zero byte if empty)
        dev = [l.replace('"k":"seq","e":{"k":"seq"', '"k":"sarr","e":{"k":"SEQ"').replace('"t":{"k":"seq"', '"t":{"k":"sarr"').replace('"SEQ"', '"seq"') for l in recs]
        q = write_ndjson(ctx, "subrange.dev.ndjson", dev)
        if tlc(ctx, "TraceAppend.tla", "TraceAppend.cfg", env={"TRACES": q}).ok:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, what), flush=True)
            ctx.traces += len(recs)
            ctx.notes.append({"stage": "subrange", "records": len(recs), "known_finding": what})
            return
    validate(ctx, "subrange", recs, {l: xs[0] for l in recs}, (), "TraceAppend.cfg", "TraceAppend.tla", {}, 800, 600)



