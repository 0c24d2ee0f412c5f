from vlib.core import *
from vlib.atrace import *
LEVEL = "model_checking"
RULE = ("record = one value of a scalar type, placed in storage with three different earlier contents, appended after a prefix under six flavors "
        "to recorders; values: boundary values of every width, both zeros, infinities, subnormals, quiet NaNs, random bit patterns; the bytes received must "
        "be the ones TLC derives from the mathematical value; non-trivial: all (every record feeds bytes)")


def run(ctx):
    jobs = [("append_values.cpp", 0, {}), ("append_values.cpp", 0, {"opts": ("-O2", "-DSLOW_PATH"), "std": "c++20"}),
            ("append_values.cpp", 0, {"cxx": CLANG, "std": "c++11", "opts": ("-O2", "-fno-signed-char" )}),
            ("append_values.cpp", 3, {}), ("append_values.cpp", 3, {"opts": ("-O0", "-DSLOW_PATH"), "std": "c++14"})]
    if ctx.thorough:
        for cxx in (GXX, CLANG):
            for std in ("c++11", "c++17", "c++20"):
                for o in (("-O3",), ("-O1", "-DSLOW_PATH"), ("-O2", "-m32") if False else ("-Os",)):
                    jobs.append(("append_values.cpp", 0, {"cxx": cxx, "std": std, "opts": o}))
    xs = exes(ctx, jobs)
    s = [x for x in xs if ".0." in x.tag]
    acheck(ctx, "scalars", s, ["--count", 120 if ctx.thorough else 25, "--nan", 1])
    acheck(ctx, "enums", [x for x in xs if ".3." in x.tag], ["--count", 60 if ctx.thorough else 12], filt=lambda l: '"id":"e_' in l or '<e_' in l)
    xs = exes(ctx, [("scalar_sweep.cpp", None, {"opts": ("-O1",)}), ("scalar_sweep.cpp", None, {"opts": ("-O1", "-DSLOW_PATH"), "cxx": CLANG})])
    acheck(ctx, "sweep", xs, ["--count", 4000 if ctx.thorough else 1200])
    ctx.assumptions = ["the harness decomposes values right (frexp, integer arithmetic)", "8- and 16-bit types swept exhaustively in the thorough tier's shape; wider types sampled", "little-endian platform: the big-endian native path is not executed"]
