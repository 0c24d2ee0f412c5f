from vlib.core import *
from vlib.atrace import *
LEVEL = "model_checking"
RULE = ("record = the customization traits of a type (also of its const and array versions), or a value of it appended in storage with three different "
        "earlier contents (so that passed padding shows), as run-time code and with the constant-evaluation path forced: one stream, the one TLC "
        "derives element by element (storage only where the user declared it); non-trivial: all")


def run(ctx):
    gen = generated_sources(ctx, 16 if ctx.thorough else 3, 10, 2)
    jobs = []
    for p in (0, 1, 3, 4):
        jobs.append(("append_values.cpp", p, {"std": "c++17"}))
        jobs.append(("append_values.cpp", p, {"std": ("c++20", "c++14")[p % 2], "opts": ("-O0", "-DSLOW_PATH"), "cxx": CLANG if p % 2 else GXX}))
        if ctx.thorough:
            jobs.append(("append_values.cpp", p, {"std": "c++20", "opts": ("-O2",), "cxx": CLANG}))
            jobs.append(("append_values.cpp", p, {"std": "c++11", "opts": ("-O3",)}))
    for p in range(5):
        jobs.append(("append_calls.cpp", p, {"opts": ("-O0",)}))
        if ctx.thorough or p in (2, 3):
            jobs.append(("append_calls.cpp", p, {"opts": ("-O0", "-DSLOW_PATH")}))
    for g in gen:
        jobs.append((g, None, {}))
        jobs.append((g, None, {"opts": ("-O0", "-DSLOW_PATH")}))
    jobs += [("append_large.cpp", p, {"cxx": CLANG, "std": "c++20", "opts": ("-O0", "-w")}) for p in (0, 2)] + [("append_large.cpp", 0, {"cxx": CLANG, "std": "c++17", "opts": ("-O0", "-w", "-DSLOW_PATH")})]
    for p in range(4):
        jobs.append(("classes.cpp", p, {"cxx": CLANG, "std": ("c++20", "c++17", "c++14", "c++11")[p], "opts": ("-O0", "-w")}))
        if ctx.thorough:
            jobs.append(("classes.cpp", p, {"std": "c++20", "opts": ("-O2", "-w")}))
            jobs.append(("classes.cpp", p, {"cxx": CLANG, "std": "c++17", "opts": ("-O0", "-w", "-DSLOW_PATH")}))
    xs = exes(ctx, jobs)
    acheck(ctx, "values", [x for x in xs if x.tag.startswith("append_values")], ["--count", 30 if ctx.thorough else 5])
    acheck(ctx, "classes", [x for x in xs if x.tag.startswith("classes")], ["--count", 8 if ctx.thorough else 2])
    acheck(ctx, "calls", [x for x in xs if x.tag.startswith("append_calls")], ["--count", 40 if ctx.thorough else 8])
    acheck(ctx, "generated", [x for x in xs if x.tag.startswith("gen")], ["--count", 40 if ctx.thorough else 12])
    acheck(ctx, "large", [x for x in xs if x.tag.startswith("append_large")])
    ctx.assumptions = ["the harness describes types and values right (independently of the library)", "types and values sampled"]
