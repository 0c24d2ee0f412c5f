from vlib.core import *
from vlib.htrace import *
LEVEL = "model_checking"
RULE = ("behaviour = construct an HMAC object with a key, absorb a message, result; every key length from 0 to block size + 9, around "
        "twice the block size, and up to 65 KB, every message length class; non-trivial: the key or the message is not empty")


def run(ctx):
    exe = driver(ctx)
    r = ctx.rng
    behs = []
    for a in HMAC + USER_HMAC:
        B = block(a)
        klens = list(range(0, B + 10)) + [2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 5] + [r.randrange(B + 10, 4 * B) for _ in range(3)]
        klens = [k for k in klens if k >= 0]
        klens += [256, 257 + r.randrange(200), 512 + r.randrange(600), 4097 + r.randrange(900)] + [65536 + r.randrange(300)]
        if ctx.thorough:
            klens += list(range(B + 10, 3 * B + 10))
        for k in klens:
            behs.append(Beh("%s.key%d" % (a, k), ["N 0 %s b %s" % (a, hx(msg(r, k))), "U 0 %s" % hx(r.randbytes(r.randrange(0, 40))), "R 0", "."]))
        for n in ([0, 1, 7, max(0, B - 17), max(0, B - 9), B - 8, B - 1, B, B + 1, 2 * B, 3 * B + 7, 1100] + [r.randrange(3 * B) for _ in range(40 if ctx.thorough else 4)]):
            k = r.choice([1, 8, 20, B - 1, B, B + 1])
            behs.append(Beh("%s.msg%d.%d" % (a, n, len(behs)), ["N 0 %s b %s" % (a, hx(r.randbytes(k))), "U 0 %s" % hx(msg(r, n)), "R 0", "R 0", "."]))
        seeds = [0, 1, 255, 256, 1 << 32, 1 << 63, (1 << 64) - 1] + [r.getrandbits(64) for _ in range(6)] + [1 << r.randrange(64) for _ in range(6)]
        for s in seeds:
            behs.append(Beh("%s.int%016x.%d" % (a, s, len(behs)), ["N 0 %s i %016x" % (a, s), "U 0 %s" % hx(r.randbytes(11)), "R 0", "."]))
        behs.append(Beh("%s.default" % a, ["N 0 %s d" % a, "N 1 %s b -" % a, "N 2 %s i 0" % a] + ["U %d 616263" % i for i in range(3)] + ["R %d" % i for i in range(3)] + ["."]))
        # keys ending in zero bytes are the same key as without (zero padding)
        behs.append(Beh("%s.zpad" % a, ["N 0 %s b 6162" % a, "N 1 %s b 61620000" % a, "U 0 00", "U 1 00", "R 0", "R 1", "."]))
    r.shuffle(behs)
    check_records(ctx, "hmac", behs, exe)
    ctx.assumptions = ["the TLA+ transcription of RFC 2104 and of the underlying hashes", "contents sampled, key lengths exhaustive up to block size + 9"]
