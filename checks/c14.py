from vlib.core import *
from vlib.atrace import *
LEVEL = "model_checking"
RULE = ("model: all (result width, target width) pairs, exhaustive over 8- and 16-bit results, multipliers invertible for all; record = up to 2048 result values and "
        "the values extracted for every signed and unsigned target type of one size (exhaustive for 8- and 16-bit results, one- and two-bit patterns and random "
        "values for 32 and 64 bits, arrays and digests of eight sizes), or counts of sources per value over all 2^16 or 2^32 results; also under UBSan")


def model(ctx):
    t = time.time()
    res = tlc(ctx, "MCIntegral.tla", "MCIntegral.cfg")
    if not res.ok:
        raise CheckError("the model MCIntegral does not hold:\n" + error_tail(res.out))
    ctx.states += res.distinct
    ctx.transitions += res.generated
    for inv in ("Invertible", "Exhaustive"):
        q = ctx.path("mi.cfg")
        open(q, "w").write("SPECIFICATION Spec\nCONSTANT Full = TRUE\nINVARIANT %s\nCHECK_DEADLOCK FALSE\nCONSTANT Multiplier <- M_Even\n" % inv)
        if tlc(ctx, "MCIntegral.tla", q).ok:
            raise CheckError("the mutant M_Even is not refuted by " + inv)
    ctx.notes.append({"stage": "MCIntegral", "states": res.distinct, "mutants_refuted": ["M_Even"]})
    ctx.log("MCIntegral: %d states, %.1fs" % (res.distinct, time.time() - t))


def run(ctx):
    model(ctx)
    ub = ("-O1", "-g", "-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-DNO_SIGNALS")
    jobs = [("integral.cpp", None, {"opts": ("-O3", "-DWIDE=1")}), ("integral.cpp", None, {"opts": ub, "std": "c++20"}), ("integral.cpp", None, {"opts": ub, "std": "c++14", "cxx": CLANG})]
    if ctx.thorough:
        jobs += [("integral.cpp", None, {"opts": ("-O%d" % o,), "std": s, "cxx": c}) for o in (0, 3) for s in ("c++11", "c++23") for c in (GXX, CLANG)]
    acheck(ctx, "projection", exes(ctx, jobs), ["--count", 20000 if ctx.thorough else 3000])
    ctx.assumptions = ["32- and 64-bit results: exact values sampled; counts over all 2^32 results; the rest by invertibility of the multiplier in the model"]
