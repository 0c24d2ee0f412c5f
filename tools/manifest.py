#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification + TLC: trace validation of recorded executions"
INFO = {
 "C01": (T + " against whole-message functions", "Every recorded digest equals TLC's evaluation of the published function (and of the streaming machine); lengths exhaustive to two blocks + 18, contents sampled. Trusts the TLA+ transcription (cross-checked with openssl and vectors), TLC, the harness."),
 "C02": ("TLC refinement check of the buffering machine + trace validation of every 2-/3-part division", "Model exhaustive for B=6 with a free compression function; conformance exhaustive over divisions of the swept messages."),
 "C03": (T + " against RFC 2104", "Key lengths exhaustive to block size + 9; contents sampled."),
 "C04": (T + " against the seeding actions; distinctness of seed families", "All single-bit integer seeds, all byte-seed lengths up to the bound; exact state semantics by results and continuation."),
 "C05": ("TLC refinement check of result() in the buffering machine + trace validation", "Every fill level of the last block; histories generated by TLC."),
 "C06": ("TLC-generated object-store behaviours + trace validation, ThreadSanitizer records as events", "Histories of up to three objects sampled by TLC's simulator; copies at every fill level; 8 threads."),
 "C07": ("TLC invariant on the buffering machine (with refuted mutants) + validation of object-dump experiments", "Retention of any input byte, up to a constant xor, in the object representation after result(), for every message length to two blocks and sampled histories."),
 "C08": ("TLA+ serialization spec + trace validation of recorded update streams", "Exhaustive for 8-/16-bit types, every exponent of float/double, one- and two-bit patterns otherwise; signaling NaNs excluded; other platforms: C21."),
 "C09": ("TLA+ serialization spec + trace validation of recorded update streams", "Hand-picked types plus a generated grammar of depth 3, every iterator category, ranges to 70 000 elements and one of more than 2^32; values sampled. One known finding."),
 "C10": ("TLC exhaustive injectivity check of the serialization spec + trace validation", "Injectivity exhaustive over a universe of small types and values on the model; the real code is run on the same universe, on random small-domain values and on neighbouring values of longer ones."),
 "C11": ("TLA+ unordered-range spec + trace validation over container histories", "All permutations to five elements, generated insertion/erasure/rehash histories, up to 5 000 elements, all algorithms. One known finding (FNV-1a)."),
 "C12": ("TLA+ spec values + trace validation of constant-expression results", "Generated constant expressions for g++ and clang, C++14..23; described classes from C++17, container limits of GCC 13 as stated in DESIGN.md."),
 "C13": ("TLA+ spec values + trace validation across a configuration matrix", "15 (thorough 65) builds of the same inputs; other platforms: C21."),
 "C14": ("TLC exhaustive check of the projection spec + trace validation", "Exhaustive for 8-/16-bit results, counts over 2^32 results, patterns otherwise; the exact rule is in the specification."),
 "C15": ("TLA+ digest object spec + trace validation", "Histories from TLC's simulator over 15 sizes, all classes of output ranges, ASan/UBSan."),
 "C16": ("trace validation with memory faults and sanitizer reports as events the TLA+ spec has no action for", "Guard pages, read-only pages, redzones, null pointers at every fill level; ASan/UBSan builds of all harnesses."),
 "C17": ("TLC length-accounting model + trace validation of > 2^32-byte messages against TLA+ finalization and known answers", "2^29, 2^32 (thorough 5*2^31) real bytes; counts up to 2^61 by raising the recognized byte count in the object representation; chaining values from an evaluator tied to the specification by an ASSUME."),
 "C18": ("TLA+ serialization spec + trace validation with minimal hash algorithms", "Minimal recorders with every shape of result, all library algorithms; values sampled."),
 "C19": ("TLA+ serialization spec + trace validation of fast-path calls and traits", "Fast and slow path compared with one specification over generated types, storages and flavors; values sampled."),
 "C20": (T + " against whole-message functions, seeding actions", "As C01, C02, C04 for the legacy classes; two known findings listed."),
"C21": ("TLA+ specification with the platform's order and pointer size as parameters + trace validation of programs executed on x86-64, 32-bit x86 and interpreted big-endian MIPS64", "Freestanding builds, without exceptions and RTTI; messages of 2^32 bytes on 32-bit x86; no big-endian 32-bit and no 16-bit platform."),
}
LV = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import importlib
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        t, n = INFO[i]
        n = getattr(m, "LEVEL_NOTE", n)
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": getattr(m, "TECHNIQUE", t), "level": m.LEVEL, "level_note": n or "see DESIGN.md"})
    else:
        na.append({"property": i, "reason": "check under construction"})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "hooks": {"guard": "none", "enable": "no hooks are needed: everything is observed through the public interface", "source_commits": []},
       "notes": "Checks compile harness/ against /repo/include on every run; see DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
