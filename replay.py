#!/usr/bin/env python3
"""Runs a counterexample again:  replay.py build/replay/C01-1.json

Rebuilds the harness of the counterexample from /repo's current tree and runs it on
the recorded input: natively under sanitizers, or in the engine as a concrete
execution of the compiled code when the target is not this machine.
Exit 1 when it still fails, 0 when it does not."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.build import Tree, SYMEX
from run import native_run
r = json.load(open(sys.argv[1]))
tool = tuple(r["tool"]) if r["tool"] else None
t = Tree(); bad = False
try:
    if r["target"] == "host":
        for kind in ("asan", "msan"):
            rc, err, tr = native_run(t.native(r["harness"], r["defs"], tool, kind), r["input"])
            fails = [l for l in tr if l.startswith("VF_FAIL")] + re.findall(r"ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|WARNING: MemorySanitizer[^\n]*", err)
            print("%s: exit %s %s" % (kind, rc, "; ".join(fails) or "no failure"))
            bad |= bool(fails) or rc == "timeout"
    o = os.path.join(t.dir, "o.jsonl")
    subprocess.run([SYMEX, t.bitcode(r["harness"], r["defs"], r["target"], tool), "--entry", "sym_main", "--out", o, "--workers", "1", "--time", "60", "--repo", t.src, "--input", r["input"]])
    for l in open(o):
        x = json.loads(l)
        if x["type"] in ("error", "incomplete"):
            print("engine: %s: %s at %s\n  stack %s" % (x.get("kind", "incomplete"), x["msg"], x.get("repo_loc"), x.get("stack"))); bad |= x["type"] == "error"
finally:
    t.close()
print("FAILS" if bad else "does not fail on this tree")
sys.exit(bad)
