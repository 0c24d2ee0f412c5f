from vlib.core import *
from vlib.htrace import *
LEVEL = "model_checking"
RULE = ("sweep = one message under every division into two (or three) update calls, all observations must coincide and equal the "
        "specification's; behaviour = several updates with every cutting/placing plan; non-trivial: at least one byte is fed")


def run(ctx):
    r = ctx.rng
    model(ctx, "BufferImpl.tla", "BufferImpl.cfg", ["count", "lasttail", "padroom", "keepcount"])
    model(ctx, "MCBlockStream.tla", "MCBlockStream.cfg")
    exe = driver(ctx)
    behs = []
    for a in ALL:
        B = block(a)
        # every two-part division, lengths up to three blocks
        ns = {0, 1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 3} | {r.randrange(2, 3 * B + 9) for _ in range(24 if ctx.thorough else 5)}
        if ctx.thorough:
            ns |= set(range(0, min(3 * B, 200)))
        for n in sorted(ns):
            behs.append(Beh("%s.two%d" % (a, n), ["S %s %s 2" % (a, hx(msg(r, n)))], n > 0))
        # every three-part division: every (fill, chunk) transition, up to 2 blocks
        ns = {2 * B + 2, 3 * B + 1} if B <= 32 else {B + 2, 2 * B + 1}
        for n in sorted(ns):
            behs.append(Beh("%s.three%d" % (a, n), ["S %s %s 3" % (a, hx(r.randbytes(n)))]))
        # large pieces between small ones
        for i, ls in enumerate([[3, 300 + r.randrange(99), 5, 1030 + r.randrange(99)], [1, 4096 + r.randrange(300), 257], [B - 1, 65536 + r.randrange(100), B + 1]]):
            L = ["N 0 %s d" % a]
            for n in ls:
                L.append("U 0 %s" % hx(r.randbytes(n)))
            behs.append(Beh("%s.large%d" % (a, i), L + ["R 0", "."]))
        # several updates in a row, also after results and with seeds
        for i in range(40 if ctx.thorough else 6):
            L = ["N 0 %s %s" % (a, r.choice(["d", "i %016x" % r.getrandbits(64), "b %s" % hx(r.randbytes(r.randrange(1, 40)))]))]
            for j in range(r.randrange(2, 5)):
                L.append("U 0 %s" % hx(msg(r, r.randrange(0, 2 * max(B, 8) + 3))))
                if r.randrange(3) == 0:
                    L.append("R 0")
            behs.append(Beh("%s.multi%d" % (a, i), L + ["R 0", "R 0", "."]))
    r.shuffle(behs)
    check_records(ctx, "cuts", behs, exe, cfg="TraceHashFast.cfg")
    ctx.extra["divisions"] = "every 2-part division of each swept message; every 3-part division of messages of 2-3 blocks"
    ctx.assumptions = ["TLC and the harness are right", "longer messages and finer divisions only as sampled; the models cover all chunk sequences for B=6"]
