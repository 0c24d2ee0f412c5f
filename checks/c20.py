from vlib.core import *
from vlib.htrace import *
from checks.c04 import seeds, distinct
LEVEL = "model_checking"
RULE = ("behaviours of the legacy classes: every message length up to three blocks under 9 cutting plans, sweeps of all 2- and 3-part "
        "divisions, integer, two-word and byte seeds; groups of results under different seeds must differ; non-trivial: bytes are fed")


def run(ctx):
    r = ctx.rng
    exe = driver(ctx)
    behs = []
    for a in LEGACY:
        B = block(a)
        for n in list(range(0, 3 * B + 20)) + [r.randrange(3 * B, 9 * B + 50) for _ in range(30)] + [5003]:
            behs.append(Beh("%s.msg%d.%d" % (a, n, len(behs)), ["N 0 %s d" % a, "U 0 %s" % hx(msg(r, n)), "R 0", "R 0", "."], n > 0))
            s = r.choice([1 << r.randrange(64), r.getrandbits(64), r.getrandbits(32)])
            behs.append(Beh("%s.seeded%d.%d" % (a, n, len(behs)), ["N 0 %s i %016x" % (a, s), "U 0 %s" % hx(msg(r, n)), "R 0", "."], n > 0))
        for n in [0, 1, B - 1, B, B + 1, 2 * B + 3, 3 * B + 1]:
            behs.append(Beh("%s.two%d" % (a, n), ["S %s %s 2" % (a, hx(r.randbytes(n)))]))
        for n in [2 * B + 2, 3 * B + 1][:1 if B > 32 else 2]:
            behs.append(Beh("%s.three%d" % (a, n), ["S %s %s 3" % (a, hx(r.randbytes(n)))]))
    for i, b in enumerate(generated(ctx, 400 if ctx.thorough else 90, depth=8, names=1)):
        behs.append(concretize(r, b, [LEGACY[i % 3]], "gen%d" % i))
    r.shuffle(behs)
    check_records(ctx, "legacy", behs, exe)
    bh, recs, fam = seeds(ctx, LEGACY, exe, "legacyseeds")
    # Known finding: bytes of a long byte-sequence seed that fall into its trailing partial block do
    # not take part (only their number does).
    fam = {a: (f1, f2, f3) for a, (f1, f2, f3) in fam.items()}
    distinct(ctx, recs, fam, "legacydistinct", skip=skip)
    known_tail(ctx, recs, fam)
    ctx.assumptions = ["the TLA+ transcription of the published functions", "contents sampled"]


def tail_byte(a, bid):
    """is the byte this seed differs in part of the trailing partial block of a murmur3 seed?"""
    head, B = {"murmur3_32": (4, 4), "murmur3_128": (16, 16), "spooky2_128": (1 << 30, 192)}[a]
    n0 = {"spooky2_128": 40}.get(a, min(40, 2 * max(block(a), 8) + 3))
    i = int(bid.rsplit("byte", 1)[1])
    return i >= 0 and n0 > head and i >= n0 - (n0 - head) % B


def partial(a, bid):
    """does a murmur3 seed of this length end in a partial block (of more than one byte)?"""
    head, B = {"murmur3_32": (4, 4), "murmur3_128": (16, 16), "spooky2_128": (1 << 30, 192)}[a]
    n = int(bid.rsplit("len", 1)[1])
    return n > head and (n - head) % B != 1


def skip(a, k, i):
    return k == 2 and tail_byte(a, i) or k == 1 and partial(a, i)


def known_tail(ctx, recs, fam):
    """the listed finding, exactly: the trailing partial block of the seed has no influence"""
    res = {}
    for x in recs:
        j = json.loads(x)
        res[j["id"]] = [b for e in j["ev"] if e["op"] == "res" for b in e["r"][0]]
    for a in ("murmur3_32", "murmur3_128"):
        tail = [i for i in fam[a][2] if tail_byte(a, i)]
        if all(res[i] != res["%s.byte-1" % a] for i in tail):
            continue      # repaired
        what = known(ctx.pid, "%s-byte-seed-tail" % a)
        if not what:
            raise Violation("bytes in the trailing partial block of a byte seed do not take part in %s" % a, {"seeds": tail})
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, what), flush=True)
