from vlib.core import *
from vlib.htrace import *
LEVEL = "model_checking"
RULE = ("behaviour = generated by TLC from GenHash: construct/copy/assign/move/update/result/free over three objects; executed alone, and "
        "by 8 threads at once under ThreadSanitizer; non-trivial: something is copied or two objects live, and bytes are fed")


def run(ctx):
    r = ctx.rng
    exe, tsan = par([lambda: driver(ctx), lambda: driver(ctx, "tsan", opts=("-O1", "-g", "-fsanitize=thread", "-DNO_SIGNALS"))])
    gens = generated(ctx, 3000 if ctx.thorough else 500, depth=10)
    behs = []
    for i, b in enumerate(gens):
        algs = [ALL[i % len(ALL)]]
        if i % 3 == 0:
            algs.append(ALL[(i * 7 + 3) % len(ALL)])      # objects of different algorithms side by side
        bb = concretize(r, b, algs, "gen%d" % i)
        # a copy target may hold an object of another type: assignment needs the same one
        if valid(bb):
            bb.nontrivial = bb.nontrivial and any(l[0] in "CM" for l in bb.lines)
            behs.append(bb)
    # copies in the middle of a message, at every fill level
    for a in ALL:
        B = max(block(a), 8)
        for m in range(0, B + 1, 1 if B <= 16 or ctx.thorough else 5):
            behs.append(Beh("%s.mid%d" % (a, m), ["N 0 %s d" % a, "U 0 %s" % hx(r.randbytes(m)), "C 0 1", "U 0 %s" % hx(r.randbytes(r.randrange(1, B))), "U 1 %s" % hx(r.randbytes(r.randrange(1, B))),
                        "R 1", "C 1 0" if m % 2 else "C 0 1", "R 0", "R 1", "F 0", "U 1 00ff", "R 1", "."]))
    r.shuffle(behs)
    check_records(ctx, "store", behs, exe, cfg="TraceHashFast.cfg")
    sub = [b for b in behs if r.randrange(3) == 0]
    n = 40 if not ctx.thorough else 200
    for i in range(0, min(len(sub), 4 * n), n):
        check_records(ctx, "threads%d" % i, sub[i:i + n], tsan, args=["--threads", "8"], cfg="TraceHashFast.cfg", shards=1)
    # objects are shared read-only: copying one object from several threads
    ctx.assumptions = ["TLC, ThreadSanitizer and the harness are right", "histories sampled by TLC's simulator; copies at every fill level"]


def valid(b):
    t = {}
    for l in b.lines:
        f = l.split()
        if f[0] == "N":
            t[f[1]] = f[2]
        if f[0] == "C":
            if f[2] in t and t[f[2]] != t[f[1]]:
                return False
            t[f[2]] = t[f[1]]
        if f[0] == "M":
            t[f[2]] = t[f[1]]
        if f[0] == "F":
            t.pop(f[1], None)
    return True
