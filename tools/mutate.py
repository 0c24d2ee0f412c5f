#!/usr/bin/env python3
"""mutate.py HEADER-REGEX COUNT [SEED]: random one-token changes of /repo's headers, in a scratch clone; those that the repository's
tests do not notice are shown to the checks (most likely ones first).  Prints one line per mutant; not part of any check."""
import os, sys, re, random, subprocess, glob, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SCRATCH", "/tmp/bugs/mut")
pat, count, seed = sys.argv[1], int(sys.argv[2]), int((sys.argv + ["1"])[3])
rng = random.Random(seed)
ORDER = {"hmac": "C03 C05 C02 C04 C12 C16 C07 C06 C18 C17", "legacy": "C20 C16 C05 C07 C17 C06 C18", "append": "C09 C19 C11 C10 C12 C18 C08 C16 C13",
         "get_integral": "C14 C12 C11", "digest.hpp": "C15 C12 C16 C09", "is_|has_constant|endian": "C19 C09 C12 C13 C10",
         "detail": "C01 C08 C12 C13 C14 C15 C20 C16", "": "C01 C02 C04 C05 C12 C17 C16 C07 C06 C18 C13"}


def sh(c, t=600, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "", "timeout")


def mutants(line):
    out = []
    code = line.split("//")[0]
    if code.strip().startswith(("#", "template", "//", "namespace", "using", "static_assert", "BOOST")) or not code.strip():
        if not re.match(r"\s*#\s*(if|elif)", code):
            return out
    S = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), ("&&", "||"), (r"||", "&&"), (" + ", " - "), (" - ", " + "),
         ("+= ", "= "), ("^= ", "= "), ("-= ", "+= "), (" & ", " | "), (" | ", " & "), (" ^ ", " | "), ("<<", ">>"), (">>", "<<"), ("uint64_t", "uint32_t"), ("uint32_t", "uint64_t"), ("uint32_t", "uint16_t"), ("std::size_t", "unsigned short"), ("std::size_t", "int"),
         ("true", "false"), ("false", "true"), ("unsigned char", "char"), ("++", "--"), (" % ", " / "), (" * ", " + "), ("little", "big"), ("big", "little"), ("native", "little"), ("const&", "&"), ("rotl", "rotr"), ("read32le", "read32be"), ("write64be", "write64le")]
    for a, b in S:
        for m in re.finditer(re.escape(a), code):
            out.append(line[:m.start()] + b + line[m.end():])
    for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(u?l*)\b", code):
        v = int(m.group(1), 0)
        for w in {v + 1, v - 1, v ^ 1 << rng.randrange(8)}:
            if w >= 0:
                out.append(line[:m.start(1)] + str(w) + line[m.end(1):])
    if re.match(r"\s+[\w:.]+(\[.*\])?\s*(=|\+=|\^=|\().*;\s*$", code) and not re.match(r"\s+(return|typename|std::|unsigned|using|typedef|constexpr|static|auto|int)\b", code):
        out.append(re.match(r"\s+", line).group(0) + ";\n")
    if re.match(r"\s+if\(", code) and "constexpr" not in code:
        out.append(re.sub(r"if\((.*)\)", r"if( false && (\1) )", line))
        out.append(re.sub(r"if\((.*)\)", r"if( true || (\1) )", line))
    return [o for o in out if o != line]


if not os.path.exists(R):
    sh("git clone -q /repo " + R)
sh("git -C %s fetch -q; git -C %s reset -q --hard $(git -C /repo rev-parse HEAD); mkdir -p %s-bin" % (R, R, R))
files = [f for f in glob.glob(R + "/include/boost/hash2/**/*.hpp", recursive=True) if re.search(pat, f)]
cands = []
for f in files:
    L = open(f).readlines()
    for i, l in enumerate(L):
        cands += [(f, i, m) for m in mutants(l)]
rng.shuffle(cands)
tests = sorted([t for t in glob.glob(R + "/test/*.cpp") + glob.glob(R + "/test/legacy/*.cpp")])
names = [os.path.basename(t) for t in tests]


def one_test(t, std="17"):
    src = open(t).read()
    if "main" not in src or os.path.basename(t).startswith(("quick", "fail")) and False:
        return True
    exe = "%s-bin/%s.%s" % (R, os.path.basename(t), std)
    c = sh("clang++ -std=c++%s -O0 -w -I%s/include %s -o %s" % (std, R, t, exe), 120)
    if c.returncode:
        return False
    return sh(exe, 60, cwd=R + "/test").returncode == 0


def prints(p, repo):
    """what the check would hand to TLC"""
    fp = R + "-bin/fp"
    open(fp, "w").close()
    r = sh("./check " + p, 900, cwd=V, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_FINGERPRINT=fp))
    return ["rc %d" % r.returncode] + sorted(open(fp).read().split("\n"))


base = {}
print("candidates", len(cands), "tests", len(tests), flush=True)
bad = {t for t, ok in zip(tests, cf.ThreadPoolExecutor(4).map(one_test, tests)) if not ok}
print("not runnable this way:", sorted(os.path.basename(t) for t in bad), flush=True)
done = 0
for f, i, m in cands:
    if done >= count:
        break
    sh("git -C %s checkout -q -- ." % R)
    L = open(f).readlines()
    old = L[i]
    L[i] = m
    open(f, "w").writelines(L)
    h = os.path.relpath(f, R + "/include/boost/hash2")
    stem = os.path.basename(f)[:-4]
    if sh("echo '#include <boost/hash2/%s>' | clang++ -std=c++17 -w -I%s/include -fsyntax-only -x c++ -" % (h, R)).returncode:
        continue
    good = [t for t in tests if t not in bad]
    near = [t for t in good if stem in open(t).read()] or good
    rng2 = random.Random(i)
    rng2.shuffle(near)
    rest = [t for t in good if t not in near]
    dead = False
    with cf.ThreadPoolExecutor(6) as ex:
        for part in (near[:8], near[8:], rest):
            if not all(ex.map(one_test, part)):
                dead = True
                break
    if dead:
        continue
    done += 1
    print("%s:%d\n   - %s\n   + %s" % (h, i + 1, old.strip(), m.strip()), flush=True)
    order = next(v for k, v in ORDER.items() if re.search(k, h))
    res = "SURVIVED"
    for p in order.split():
        if p not in base:
            sh("git -C %s stash -q" % R)
            a, b = prints(p, R), prints(p, R)
            sh("git -C %s stash pop -q" % R)
            unstable = {x.split()[0] for x in set(a) ^ set(b) if x}
            base[p] = (unstable, [x for x in a if x and x.split()[0] not in unstable])
            print("   base %s: %d stages%s" % (p, len(base[p][1]) - 1, ", not reproducible: %s" % unstable if unstable else ""), flush=True)
        q = [x for x in prints(p, R) if x and x.split()[0] not in base[p][0]]
        if q == base[p][1]:
            continue
        r = sh("./check " + p, 900, cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"))
        if r.returncode:
            w = [l for l in r.stdout.splitlines() if l.startswith(("what:", "CHECK ERROR"))]
            res = "%s rc=%d %s" % (p, r.returncode, " ".join(w)[:160])
            break
        print("   (%s differs and is quiet)" % p, flush=True)
    print("   => " + res, flush=True)
sh("git -C %s checkout -q -- ." % R)
