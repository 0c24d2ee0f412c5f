from vlib.core import *
from vlib.atrace import *
LEVEL = "model_checking"
RULE = ("state of the model = (type of a small universe, flavor): all its values are serialized and must be told apart, never empty, none the end of another; "
        "record = all values of such a type built from the specification's description and appended by the real code, or up to 150 random values from "
        "small domains of a generated type, or easily confused values: the same constituents divided differently among adjacent parts, every short "
        "length and lengths around 2^8 and 2^9 of equal elements, elements that look like counts, single bits changed in long ranges; equal exactly where the specification's values are equal; non-trivial: types with more than one value")

MUTANTS = ["AppSize <- M_NoSize", "AppNothing <- M_NoZeroByte", "Combine <- M_Xor", "SizeBytes <- M_SizeLow", "FltWord <- M_RawFloat", "FltWord <- M_NoFloat", "IntWord <- M_Abs"]


def universe(ctx, deep, cap, out=None, mutants=()):
    c = open(os.path.join(SPEC, "MCAppend.cfg")).read()
    c = re.sub(r"Deep = \d+", "Deep = %d" % deep, c)
    c = re.sub(r"Cap = \d+", "Cap = %d" % cap, c)
    p = ctx.path("MCAppend.cfg")
    open(p, "w").write(c)
    t = time.time()
    res = tlc(ctx, "MCAppend.tla", p, env={"OUT": out} if out else None)
    if not res.ok:
        raise CheckError("the model MCAppend does not hold:\n" + error_tail(res.out))
    ctx.states += res.distinct
    ctx.transitions += res.generated

    def one(k, m):
        q = ctx.path("MCAppend.%d.cfg" % k)
        open(q, "w").write(re.sub(r"Deep = \d+", "Deep = 2", c) + "\nCONSTANT %s\n" % m)
        if tlc(ctx, "MCAppend.tla", q, workers=1, heap="2g").ok:
            raise CheckError("the mutant %s of MCAppend is not refuted" % m)
        return m
    refuted = par([lambda k=k, m=m: one(k, m) for k, m in enumerate(mutants)])
    ctx.notes.append({"stage": "MCAppend deep=%d cap=%d" % (deep, cap), "states": res.distinct, "mutants_refuted": refuted})
    ctx.log("MCAppend: %d states, %d mutants refuted, %.1fs" % (res.distinct, len(refuted), time.time() - t))


def run(ctx):
    uni = ctx.path("universe.ndjson")
    universe(ctx, 3 if ctx.thorough else 2, 200, None if ctx.thorough else uni, MUTANTS)
    if ctx.thorough:
        universe(ctx, 2, 1500, uni)
    nt = len(open(uni).read().splitlines())
    us = universe_sources(ctx, uni, 16 if ctx.thorough else 8, None if ctx.thorough else 260)
    gen = generated_sources(ctx, 16 if ctx.thorough else 4, 9, 3, usr=False)
    xs = exes(ctx, [(u, None, {"std": ("c++17", "c++20", "c++14")[i % 3], "cxx": CLANG if i % 4 == 3 else GXX}) for i, u in enumerate(us)]
              + [(g, None, {"opts": ("-O0", "-DINJECT"), "std": "c++17"}) for g in gen]
              + [("neighbours.cpp", p, {"opts": ("-O0", "-w") if p % 2 else ("-O1", "-w"), "std": ("c++17", "c++20")[p % 2], "cxx": (CLANG, GXX)[p // 2]}) for p in range(4)])
    nb = xs[len(us) + len(gen):]
    xs = xs[:len(us) + len(gen)]
    acheck(ctx, "universe", xs[:len(us)])
    acheck(ctx, "generated", xs[len(us):], ["--count", 400 if ctx.thorough else 120])
    acheck(ctx, "neighbours", nb)
    ctx.extra["universe_types"] = nt
    ctx.assumptions = ["the element hash of unordered ranges has no collision on the values explored", "neighbours: lengths up to 600", "universe: small scalar domains, sequences up to length 2, constructors nested twice (thorough: three times in the model); generated types sampled",
                       "composition argument: messages that are never empty and never the end of another stay so under every constructor (checked exhaustively on the universe)"]
