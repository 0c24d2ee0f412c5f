import json
from vlib.core import *
from vlib.atrace import *
from vlib.cgen import *
LEVEL = "model_checking"
RULE = ("record = one behaviour (construction with no, integer or byte seed, updates cut at random places, repeated results, copies, hash_append of generated values, free functions, "
        "digest operations, integral projections) computed as a constant expression and again at run time by one build; the behaviours come from TLC's simulator and from a type grammar; "
        "both outcomes must be what TLC derives, and failing to be a constant expression is a violation; non-trivial: all")
# (compiler, language version, whether floats are converted in constant expressions)
CONFIGS = [("g++", 14), ("clang++", 17), ("g++", 20), ("clang++", 14), ("g++", 17), ("clang++", 20), ("g++", 23), ("clang++", 23)]
LIMITS = {"g++": ("-O0", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=2000000"), "clang++": ("-O0", "-fconstexpr-steps=1000000000")}


def seeds_for(r, a):
    B = block(a)
    k = r.choice([0, 1, 3, 4, 7, 8, 9, 15, 16, 17, B - 1, B, B + 1, 2 * B + 3])
    return r.choice(["d", "d", "i %016x" % r.choice([0, 1, r.getrandbits(64), 2**64 - 1]), "b " + hx(r.randbytes(k))])


def script(r, a, wide):
    """one object: messages around the block boundaries, results, continuation"""
    B = max(block(a), 8)
    L = ["N 0 %s %s" % (a, seeds_for(r, a))]
    top = 2 * B + 20 if wide else B + 20
    L.append("U 0 %s" % hx(msg(r, r.choice([0, 1, 3, B - 9, B - 8, B - 1, B, B + 1, B - 17, r.randrange(top), r.randrange(top)]) % top)))
    for _ in range(r.randrange(3)):
        L.append(r.choice(["R 0", "C 0 1", "U 0 %s" % hx(msg(r, r.randrange(B)))]))
    L += ["R 0", "R 0"]
    if any(x == "C 0 1" for x in L):
        L.append("R 1")
    return L


def hash_source(r, cfg, algs, gen, per):
    g = CGen(r, cfg[1], cfg[0] == "g++", cfg[0] == "run")
    for a in algs:
        for k in range(per):
            g.behaviour("%s.%d" % (a, k), script(r, a, k % 2 == 0))
    for i, b in enumerate(gen):
        b = concretize(r, b, algs, "gen%d" % i)
        g.behaviour(b.id, b.lines)
    return g.source()


def append_source(r, cfg, n, algs=DOCUMENTED, portable=False):
    g = CGen(r, cfg[1], cfg[0] == "g++", cfg[0] == "run", portable)
    for i in range(n):
        while True:
            rec = r.randrange(4) > 0
            a = "rec64" if rec else r.choice(algs)
            L = ["N 0 %s %s" % (a, "d" if rec else seeds_for(r, a))]
            for _ in range(r.randrange(2, 6)):
                k = r.randrange(8)
                L.append(("A", "0", g.ty(r.randrange(4), True)) if k < 5 else ("Q", "0") if k < 7 else "U 0 %s" % hx(msg(r, r.randrange(40))))
            if r.randrange(3) == 0:
                L += ["C 0 1", ("A", "1", g.ty(2, True)), "R 1"]
            L += ["R 0"]
            if g.behaviour("app%d" % i, L):
                break
    for i in range(6):
        g.projection("proj%d" % i, r.randrange(1, 6))
    return g.source()


def digest_source(r, cfg, n):
    g = CGen(r, cfg[1], cfg[0] == "g++", cfg[0] == "run")
    for i in range(n):
        g.digest("dig%d" % i, r.choice([1, 2, 3, 4, 8, 16, 20, 28, 32, 48, 64]))
    return g.source()


def run(ctx):
    r = ctx.rng
    rounds = 6 if ctx.thorough else 1
    gen = generated(ctx, 600 * rounds)
    r.shuffle(gen)
    jobs, kinds = [], []

    def add(kind, k, text, cfg):
        p = ctx.path("%s%d.cpp" % (kind, k))
        open(p, "w").write(text)
        cxx, std = cfg
        jobs.append((p, None, {"cxx": cxx, "std": "c++%d" % std, "opts": LIMITS[cxx] + ("-w",), "extra_inc": (HARN,)}))
    k = 0
    for q in range(rounds):
        for i, cfg in enumerate(CONFIGS):
            algs = list(DOCUMENTED)
            r.shuffle(algs)
            add("hash", k, hash_source(r, cfg, algs, [gen.pop() for _ in range(14) if gen], 3), cfg)
            add("append", k, append_source(r, cfg, 40), cfg)
            if ctx.thorough or i % 2 == q % 2:
                add("digest", k, digest_source(r, cfg, 24), cfg)
            k += 1
    xs = exes(ctx, jobs)
    acheck(ctx, "hashes", [x for x in xs if x.tag.startswith("hash")])
    acheck(ctx, "appends", [x for x in xs if x.tag.startswith("append")])
    acheck(ctx, "digests", [x for x in xs if x.tag.startswith("digest")], cfg="TraceDigest.cfg", spec="TraceDigest.tla")
    ctx.assumptions = ["g++ 13 and clang 18, C++14 to C++23, without optimization", "types and values sampled from the grammar; the legacy algorithms are not documented as constexpr"]
