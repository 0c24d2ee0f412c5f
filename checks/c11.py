import json
from vlib.core import *
from vlib.atrace import *
from checks.c10 import universe
LEVEL = "model_checking"
RULE = ("record = a multiset of elements after a prefix, appended in every permutation and through standard and Boost containers with different insertion, "
        "erasure and rehash histories: one result, the one TLC computes from the multiset; or a family of all multisets up to four elements of a small "
        "domain, whose results must differ; all 29 algorithms; non-trivial: all")


def run(ctx):
    universe(ctx, 2, 400 if ctx.thorough else 200, None, ["Combine <- M_Xor"])
    jobs = [("unordered.cpp", p, {"std": ("c++14", "c++17", "c++11", "c++20")[p % 4], "cxx": CLANG if p % 3 == 2 else GXX}) for p in range(8)]
    jobs += [("append_values.cpp", 4, {}), ("append_values.cpp", 4, {"cxx": CLANG, "std": "c++20"})]
    jobs += [("append_calls.cpp", p, {}) for p in range(5)]
    if ctx.thorough:
        jobs += [("unordered.cpp", p, {"std": "c++20", "cxx": CLANG, "opts": ("-O2",)}) for p in range(8)]
    jobs += [("append_large.cpp", 0, {"cxx": CLANG, "std": "c++17", "opts": ("-O0", "-w")})]
    xs = exes(ctx, jobs)
    un = [x for x in xs if x.tag.startswith("unordered")]
    cheap = [x for x in un if x.tag.split(".")[1] in "015"]
    recs = acheck(ctx, "permutations", cheap, ["--count", 100 if ctx.thorough else 15])
    acheck(ctx, "permutations_md", [x for x in un if x not in cheap], ["--count", 30 if ctx.thorough else 5])
    fnv_sums(ctx, recs)
    acheck(ctx, "values", [x for x in xs if x.tag.startswith("append_values")], ["--count", 60 if ctx.thorough else 10])
    acheck(ctx, "calls", [x for x in xs if x.tag.startswith("append_calls")], ["--count", 40 if ctx.thorough else 12])
    acheck(ctx, "large", [x for x in xs if x.tag.startswith("append_large")], filt=lambda l: "unordered" in l[:60])
    ctx.assumptions = ["contents sampled; permutations exhaustive up to five elements", "no collision of the element hashes among the multisets compared"]


def fnv_sums(ctx, recs):
    """the listed finding: with FNV-1a, which only multiplies, sums of element hashes collide (the records are exact)"""
    hit = []
    for l in recs:
        if not l.startswith('{"id":"family fnv1a'):
            continue
        ev = json.loads(l)["ev"]
        seen = {}
        for a, r in zip([e for e in ev if e["op"] == "app"], [e for e in ev if e["op"] == "res"]):
            k = json.dumps(r["r"])
            if k in seen and len(hit) < 1:
                hit.append((json.loads(l)["id"], seen[k], a["v"]))
            seen[k] = a["v"]
    ctx.extra["fnv_collision"] = str(hit)
    if not hit:
        return
    what = known(ctx.pid, "fnv1a-sums")
    if not what:
        raise Violation("different multisets feed the same stream under FNV-1a", {"collisions": str(hit)})
    print("KNOWN-FINDING: property=%s %s" % (ctx.pid, what), flush=True)
