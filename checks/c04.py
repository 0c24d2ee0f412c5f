from vlib.core import *
from vlib.htrace import *
LEVEL = "model_checking"
RULE = ("behaviour = construct from a seed, absorb a few bytes, two results; seeds: zero, every single bit, random words, byte sequences of "
        "every length up to two blocks; groups of results under different seeds must be pairwise distinct; non-trivial: the seed is not empty/zero")


def probe(L):
    return L + ["U 0 70726f6265", "R 0", "R 0", "."]


def seeds(ctx, algs, exe, stage):
    r = ctx.rng
    behs, fam = [], {}
    for a in algs:
        B = block(a)
        f1, f2 = [], []
        fixed = (0x0123456789ABCDEF * (3 + ALL.index(a))) & ((1 << 64) - 1)
        ints = [0] + [1 << i for i in range(64)] + [(1 << 64) - 1, (1 << 32) - 1, fixed]
        for s in ints:
            b = Beh("%s.int%016x" % (a, s), probe(["N 0 %s i %016x" % (a, s)]), s != 0)
            behs.append(b)
            f1.append(b.id)
        for s in [fixed ^ (1 << i) for i in range(0, 64, 1 if ctx.thorough else 3)] + [r.getrandbits(64) for _ in range(8)]:
            behs.append(Beh("%s.int%016x.%d" % (a, s, len(behs)), probe(["N 0 %s i %016x" % (a, s)])))
        # lengths: a byte sequence and its prefixes; none ends in zero
        top = {"spooky2_128": 230}.get(a, (2 * max(B, 16) + 10) if ctx.thorough else (B + 12 if B >= 64 else 48))
        s = bytes(1 + (i * 37 + 11) % 255 for i in range(top))
        for n in range(0, top, 1 if ctx.thorough or a not in HMAC else 3):
            b = Beh("%s.len%d" % (a, n), probe(["N 0 %s b %s" % (a, hx(s[:n]))]), n > 0)
            behs.append(b)
            f2.append(b.id)
        # every byte of a seed matters
        n0 = {"spooky2_128": 40}.get(a, min(40, 2 * max(B, 8) + 3))
        base_ = bytes(1 + (i * 91 + 5) % 255 for i in range(n0))
        f3 = []
        for i in range(-1, n0):
            x = bytearray(base_)
            if i >= 0:
                x[i] ^= 0x80 if i % 2 else 1
            b = Beh("%s.byte%d" % (a, i), probe(["N 0 %s b %s" % (a, hx(x))]))
            behs.append(b)
            f3.append(b.id)
        for i in range(12):
            behs.append(Beh("%s.rnd%d" % (a, i), probe(["N 0 %s b %s" % (a, hx(msg(r, r.randrange(1, 3 * max(B, 8)))))])))
        for n in [256 + r.randrange(64), 512 + r.randrange(500), 4096 + r.randrange(200)] + ([65536 + r.randrange(200)] if not a.startswith("hmac") else []):
            behs.append(Beh("%s.big%d" % (a, n), probe(["N 0 %s b %s" % (a, hx(r.randbytes(n)))])))
        # the values documented as "no seed"
        behs.append(Beh("%s.noseed" % a, ["N 0 %s d" % a, "N 1 %s i 0" % a, "N 2 %s b -" % a] + ["U %d 61" % i for i in range(3)] + ["R %d" % i for i in range(3)] + ["."], False))
        fam[a] = (f1, f2, f3)
        if a in ("murmur3_128", "spooky2_128"):
            for i in range(40):
                w1, w2 = (1 << i, 0) if i < 10 else (0, 1 << (i * 2 - 20)) if i < 30 else (r.getrandbits(64), r.getrandbits(64))
                behs.append(Beh("%s.two%d" % (a, i), probe(["N 0 %s 2 %016x %016x" % (a, w1, w2)])))
    r.shuffle(behs)
    recs = check_records(ctx, stage, behs, exe, cfg="TraceHashFast.cfg")
    return behs, recs, fam


def distinct(ctx, recs, fam, stage, skip=lambda a, k, i: False):
    res = {}
    for x in recs:
        j = json.loads(x)
        res[j["id"]] = [b for e in j["ev"] if e["op"] == "res" for b in e["r"][0]]
    groups = []
    for a, fs in fam.items():
        for k, f in enumerate(fs):
            vals = [res[i] for i in f if not skip(a, k, i)]
            groups.append(json.dumps({"id": "%s.group%d" % (a, k), "ev": [{"op": "distinct", "a": a, "what": ["integer seeds", "lengths", "single bytes"][k], "rs": vals}]}))
    check_records(ctx, stage, [Beh(json.loads(g)["id"], [g]) for g in groups], None, recs=groups, cfg="TraceHashFast.cfg")


def run(ctx):
    exe = driver(ctx)
    behs, recs, fam = seeds(ctx, DOCUMENTED, exe, "seeds")
    # the 32-bit state of fnv1a_32 cannot keep arbitrary seeds apart; only seeds at distance one bit are compared there,
    # which multiplication by an odd prime and xor keep apart (still checked: the family of single bits below 2^8)
    distinct(ctx, recs, fam, "distinct")
    ctx.assumptions = ["TLC and the harness are right", "distinctness is decided on two consecutive results for fixed families of seeds"]
