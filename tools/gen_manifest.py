"""Writes MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
NOTE = ("Bounded: every path and every value within the bounds below is covered, nothing outside them. %s. Trusted: this repository's LLVM-IR executor and Z3 (every run replays witnesses of the explored paths natively and compares what they observe), "
        "clang's IR at -O0 as the meaning of the code, the model of the C library in harness/env.c.%s")
EXTRA = {"C24": " One finding is recorded in known-findings.txt.", "C29": " The foreign targets are decided on the IR clang makes for them; they cannot be replayed natively here, so counterexamples are confirmed by concrete execution of that IR."}
checks = []
for p in sorted(CHECKS):
    seen = []
    for j in CHECKS[p]["jobs"]:
        q = ",".join(k if v is None else "%s=%s" % (k, v) for k, v in j["defs"]["quick"].items())
        b = (j["name"] if j["target"] == "host" else j["name"]) + ": " + j["bounds"] + (" [%s]" % q if q else "") if "target" in j else j["name"] + ": " + j["bounds"] + (" [%s]" % q if q else "")
        seen.append(b)
    checks.append({"property": p, "quick_cmd": "python3 run.py --prop %s --tier quick" % p, "thorough_cmd": "python3 run.py --prop %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "symbolic execution of the compiled code (LLVM IR) with SMT (Z3), counterexamples replayed natively",
                   "level": CHECKS[p]["level"], "level_note": NOTE % ("; ".join(seen), EXTRA.get(p, ""))})
m = {"version": 1, "setup_cmd": "make -C engine", "checks": checks, "not_applicable": [{"property": p, "reason": ""} for p in props if p not in CHECKS],
     "notes": "No hooks: the checks compile /repo's sources unchanged and map the C library's names with a forced include (harness/envmap.h). /repo carries only fix: commits, listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
