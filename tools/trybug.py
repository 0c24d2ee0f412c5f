#!/usr/bin/env python3
"""trybug.py [--no-tests] [--prop CXX,..] ID...: in a scratch copy of /repo: demo before/after, stable tests, check(s)."""
import os, sys, json, subprocess, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notests = "--no-tests" in args
nocheck = "--no-check" in args
props = None
if "--prop" in args:
    k = args.index("--prop"); props = args[k + 1].split(","); del args[k:k + 2]
ids = [a for a in args if not a.startswith("-")]
R = os.environ.get("SCRATCH", "/tmp/bugs/repo")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


if not os.path.exists(R):
    sh("git -C /repo worktree prune; git clone -q /repo " + R)
sh("git -C %s fetch -q; git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)" % (R, R))
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"] if isinstance(base, dict) and "stable" in base else base.get("passed", [])) if isinstance(base, dict) else set(base)
for i in ids:
    d = os.path.join(V, "seeded", i)
    sh("git checkout -q -- . && git clean -fdq include", cwd=R)
    r0 = sh(d + "/demo.sh", cwd=R)
    a = sh("git apply " + d + "/patch.diff", cwd=R)
    r1 = sh(d + "/demo.sh", cwd=R)
    msg = "%s demo %d->%d%s" % (i, r0.returncode, r1.returncode, " APPLY FAILED " + a.stderr if a.returncode else "")
    if r0.returncode or not r1.returncode or r1.returncode in (98, 99):
        msg += " DEMO? " + (r0.stderr + r1.stderr)[:800]
    print(msg, flush=True)
    if not notests:
        sh("export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S /opt/vp/driver -B _build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE= && ninja -C _build -k 0; ctest --test-dir _build -j8 --timeout 300 --output-junit $PWD/_build/junit.xml" % R, cwd=R)
        import xml.etree.ElementTree as E
        ok = {t.get("name") for t in E.parse(R + "/_build/junit.xml").getroot().iter("testcase") if t.get("status") == "run" and t.find("failure") is None}
        bad = sorted(s for s in stable if s not in ok and s.split("::")[-1] not in ok)
        print("   tests: %d of %d stable fail %s" % (len(bad), len(stable), bad[:6]), flush=True)
    if nocheck:
        continue
    for p in props or [json.load(open(d + "/meta.json"))["property"]]:
        t = time.time()
        r = sh("./check " + p, cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"))
        w = [l for l in r.stdout.splitlines() if l.startswith(("what:", "CHECK ERROR"))]
        print("   %s %s rc=%d %.0fs %s" % (p, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, "?"), r.returncode, time.time() - t, " ".join(w)[:300]), flush=True)
    sh("git checkout -q -- .", cwd=R)
