from vlib.core import *
from vlib.htrace import *
LEVEL = "model_checking"
RULE = ("one behaviour = default-construct, absorb one message, result; under 9 ways of cutting/placing it; every length from 0 to "
        "two blocks and 18 bytes for every algorithm plus longer random ones; non-trivial: all (each message is a different one)")


def run(ctx):
    exe = driver(ctx)
    r = ctx.rng
    behs = []
    for a in PLAIN:
        for n in lengths(r, a, 12 if ctx.thorough else 4, top=(5 if ctx.thorough else 2) * max(block(a), 16) + 18):
            behs.append(Beh("%s.%d.%d" % (a, n, len(behs)), ["N 0 %s d" % a, "U 0 %s" % hx(msg(r, n)), "R 0", "."], n > 0))
        for n in ([4096, 10007, 65537, 131072 + r.randrange(500)] if ctx.thorough else [1024 + r.randrange(300), 4099, 65536 + r.randrange(300)]):
            behs.append(Beh("%s.long%d" % (a, n), ["N 0 %s d" % a, "U 0 %s" % hx(r.randbytes(n)), "R 0", "."]))
    r.shuffle(behs)
    check_records(ctx, "published", behs, exe)
    ctx.assumptions = ["the TLA+ transcription of the published definitions (cross-checked against openssl and published vectors)",
                       "TLC 1.8.0 and the harness are right", "message contents are sampled, lengths are exhaustive up to two blocks + 18"]
