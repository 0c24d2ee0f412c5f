#!/usr/bin/env python3
"""plant.py [ID...]: write seeded/<ID>/ from the definitions in bugs.py (patches are made against /repo's HEAD)."""
import os, sys, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from bugs import BUGS
DEMO = """#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
%s
"""
STD = "%s -std=%s %s -Iinclude \"$D/demo.cpp\" -o \"$T/demo\" -pthread || exit 98\ntimeout 200 \"$T/demo\""


def plant(i, b):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp/bugs")
    files = sorted({e[0] for e in b["edits"]})
    for f in files:
        src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:include/boost/hash2/" + f], capture_output=True, text=True, check=True).stdout
        new = src
        for (g, old, rep, *k) in b["edits"]:
            if g == f:
                n = new.count(old)
                want = k[0] if k else 0
                assert n == 1 or (k and n > want), (i, f, old, n)
                parts = new.split(old)
                new = old.join(parts[:want + 1]) + rep + old.join(parts[want + 1:])
        for side, txt in (("a", src), ("b", new)):
            p = os.path.join(t, side, "include/boost/hash2", f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(txt)
    diff = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=t, capture_output=True, text=True).stdout
    diff = diff.replace("a/a/", "a/").replace("b/b/", "b/")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(t)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (b.get("sh") or STD % (b.get("cxx", "g++"), b.get("std", "c++17"), b.get("opts", "-O1"))))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(b["demo"].lstrip("\n"))
    for f in b.get("copy", ()):
        shutil.copytree(os.path.join(V, f), os.path.join(d, os.path.basename(f)), dirs_exist_ok=True)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


for i, b in BUGS.items():
    if len(sys.argv) == 1 or i in sys.argv[1:]:
        plant(i, b)
        print(i)
