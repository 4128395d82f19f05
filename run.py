#!/usr/bin/env python3
"""Decides one property:  run.py --prop C01 [--tier quick|thorough] [--job NAME]

Rebuilds bitcode and replay executables from /repo's current tree, explores every
harness of the property symbolically, replays counterexamples against the real
code, and writes evidence/<id>.json.  See DESIGN.md."""
import argparse, json, os, re, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vf.build import Tree, BuildError, SYMEX, sh
from checks import CHECKS

SUM = ["paths", "dead", "errors", "incomplete", "steps", "forks", "smt_queries", "smt_sat", "smt_unsat", "smt_unknown",
       "byte_enum_queries", "domain_queries", "model_hits", "cache_hits", "asserts", "asserts_symbolic", "ub_obligations", "block_obligations", "solver_s"]

def load_known():
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) match=\"([^\"]*)\" (.*)", l.strip())
        if m:
            out.append({"property": m.group(1), "match": m.group(2), "text": m.group(3), "seen": False})
    return out

def native_run(exe, hexin, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1", MSAN_OPTIONS="allocator_may_return_null=1:max_allocation_size_mb=4096")
    tr = exe + "-%d-%s.trace" % (os.getpid(), abs(hash(hexin)))
    try:
        r = subprocess.run([exe, hexin, tr], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    lines = []
    if os.path.exists(tr):
        lines = open(tr, errors="replace").read().split("\n")
        os.remove(tr)
    return rc, err, lines

class Job:
    def __init__(self, tree, prop, spec, tier, seed):
        self.tree, self.prop, self.spec, self.tier, self.seed = tree, prop, spec, tier, seed
        self.defs = ["P=%d" % spec.get("p", int(prop[1:]))] + ["%s=%s" % kv if kv[1] is not None else kv[0] for kv in spec["defs"][tier].items()]
        self.target, self.tool = spec.get("target", "host"), spec.get("tool")
        self.natives = {}
        self.errors, self.incs, self.wits, self.stats = [], [], [], []
        self.violations, self.unconfirmed, self.mismatch, self.replayed = [], [], [], 0

    def native(self, kind="asan"):
        if kind not in self.natives:
            self.natives[kind] = self.tree.native(self.spec["harness"], self.defs, self.tool, kind)
        return self.natives[kind]

    def build(self):
        if self.target == "host":
            fut = self.tree.pool2.submit(self.native)
        self.bc = self.tree.bitcode(self.spec["harness"], self.defs, self.target, self.tool)
        if self.target == "host":
            fut.result()

    def symex(self, extra, out, tlim):
        cmd = [SYMEX, self.bc, "--entry", "sym_main", "--out", out, "--workers", "8", "--time", str(tlim), "--repo", self.tree.src, "--seed", str(self.seed)]
        for k in ("depth", "steps", "frontier", "witness"):
            if k in self.spec:
                cmd += ["--" + k, str(self.spec[k])]
        stuck = False
        p = subprocess.Popen(cmd + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            said = p.communicate(timeout=tlim + 30)[0]
        except subprocess.TimeoutExpired:  # one step that takes too long
            stuck = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            said = p.communicate()[0]
        recs = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        if stuck:
            recs.append({"type": "incomplete", "msg": "stopped: the engine did not end at its time limit", "input": ""})
        elif not any(x["type"] == "end" for x in recs):
            recs.append({"type": "incomplete", "msg": "engine failure rc=%s %s" % (p.returncode, said[-500:]), "input": ""})
            if not any(x["type"] == "stats" for x in recs):
                raise BuildError("engine failed: rc=%s %s" % (p.returncode, said[-2000:]))
        elif p.returncode != 0:
            recs.append({"type": "incomplete", "msg": "a worker of the engine failed (rc=%s)" % p.returncode, "input": ""})
        return recs

    def confirm(self, e):
        """-> text when the counterexample reproduces against the real code"""
        k = e["kind"]
        if self.target == "host":
            rc, err, tr = native_run(self.native(), e["input"])
            if rc == 42:
                return "replay: " + next((l for l in tr if l.startswith("VF_FAIL")), "assertion failed")
            if rc == "timeout":
                if k in ("steps", "depth"):
                    return "replay: did not terminate within 20 s"
            elif rc not in (0, 77):
                m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*)", err)
                if m or rc < 0:
                    return "replay: " + (m.group(1) if m else "killed by signal %d" % -rc)
            if k == "uninit":
                rc, err, tr = native_run(self.native("msan"), e["input"])
                if "MemorySanitizer" in err:
                    return "replay: MemorySanitizer: use-of-uninitialized-value"
            if k not in ("format",):
                return None
        # no sanitizer for this: concrete execution of the compiled code in the engine
        o = os.path.join(self.tree.dir, "concrete.jsonl")
        for r in self.symex(["--input", e["input"]], o, 60):
            if r["type"] == "error" and r["kind"] == k and r["msg"] == e["msg"]:
                return "replay: concrete execution of the compiled code (%s) fails the same way" % self.target
        return None

    def run(self):
        t0 = time.time()
        out = os.path.join(self.tree.dir, "out.jsonl")
        recs = self.symex([], out, min(self.spec["time"][self.tier], max(15, self.budget)))
        self.engine_s = time.time() - t0
        for r in recs:
            t = r["type"]
            if t == "error": self.errors.append(r)
            elif t == "incomplete": self.incs.append(r)
            elif t == "witness": self.wits.append(r)
            elif t == "stats": self.stats.append(r)
        self.tot = {k: sum(s.get(k, 0) for s in self.stats) for k in SUM}
        self.tot["solver_s"] = round(self.tot["solver_s"], 3)
        self.tot["max_query_ms"] = max([s.get("max_query_ms", 0) for s in self.stats] + [0])
        self.timeout = any(s.get("timeout") for s in self.stats)
        self.labels = {}
        for s in self.stats:
            for k, v in s["labels"].items(): self.labels[k] = self.labels.get(k, 0) + v
        self.functions = sorted(set(f for s in self.stats for f in s["functions"]))
        self.lines = set(l for s in self.stats for l in s["lines"])
        seen, todo = set(), []
        for e in self.errors:
            key = (e["kind"], e["msg"], e["repo_loc"])
            if key not in seen:
                seen.add(key); todo.append(e)
        for e in todo[:40]:
            c = self.confirm(e)
            if not c:  # another model of the same failure
                for e2 in [x for x in self.errors if (x["kind"], x["msg"], x["repo_loc"]) == (e["kind"], e["msg"], e["repo_loc"]) and x is not e][:3]:
                    c = self.confirm(e2)
                    if c:
                        e = e2; break
            if c: self.violations.append((e, c))
            else: self.unconfirmed.append(e)
        self.validate()
        self.missing = [] if self.timeout or self.incs or self.errors else [l for l in self.spec.get("labels", []) if l not in self.labels]
        self.wall = time.time() - t0

    def validate(self):
        """replays witnesses natively: the encoding must agree with the compiled code"""
        if self.target != "host":
            return
        pick, per = [], {}
        for w in sorted(self.wits, key=lambda w: (w["input"])):
            k = tuple(w["labels"])
            if per.setdefault(k, 0) < 6:
                per[k] += 1; pick.append(w)
        pick = pick[:60]
        def one(w):
            rc, err, tr = native_run(self.native(), w["input"])
            labels = sorted(set(l[6:] for l in tr if l.startswith("REACH ")))
            obs = [int(l[4:]) for l in tr if l.startswith("OBS ")]
            return rc, err, tr, labels, obs
        with ThreadPoolExecutor(8) as ex:
            for w, (rc, err, tr, labels, obs) in zip(pick, ex.map(one, pick)):
                self.replayed += 1
                if rc == 42 or (rc not in (0, "timeout", 77) and ("AddressSanitizer" in err or "runtime error" in err)):
                    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*)", err)
                    msg = next((l[8:] for l in tr if l.startswith("VF_FAIL")), m.group(1) if m else "failure")
                    if not self.errors:
                        self.violations.append(({"kind": "witness", "msg": msg, "repo_loc": "", "loc": "", "stack": "", "input": w["input"]}, "replay of an explored path fails natively: " + msg))
                elif rc != 0 or labels != sorted(set(w["labels"])) or obs != w["obs"]:
                    self.mismatch.append({"input": w["input"], "rc": rc, "labels": [labels, w["labels"]], "obs": [obs[:20], w["obs"][:20]], "err": err[-300:]})

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if not os.path.exists(SYMEX):
        sh(["make", "-C", os.path.join(VERIF, "engine")])
    spec = CHECKS[a.prop]
    known = load_known()
    tree = Tree(); tree.pool2 = ThreadPoolExecutor(4)
    jobs, rc, skipped = [], 0, []
    try:
        for s in spec["jobs"]:
            if a.job and s["name"] != a.job or not s["defs"].get(tier) is not None and tier not in s["defs"]:
                continue
            spent = time.time() - t0
            if any(x.violations for x in jobs) and spent > (120 if tier == "quick" else 1800) or tier == "quick" and spent > 780:
                skipped.append(s["name"]); continue
            j = Job(tree, a.prop, s, tier, seed)
            j.budget = 760 - spent if tier == "quick" else 10 ** 6
            j.build(); j.run(); jobs.append(j)
            if a.v or j.unconfirmed or j.mismatch or j.missing:
                print("job %s: %.1fs paths=%d queries=%d solver=%.1fs errors=%d incomplete=%d timeout=%s replayed=%d labels=%s" % (s["name"], j.wall, j.tot["paths"], j.tot["smt_queries"], j.tot["solver_s"], j.tot["errors"], len(j.incs), j.timeout, j.replayed, j.labels))
        viol = 0
        rdir = os.path.join(VERIF, "build", "replay"); os.makedirs(rdir, exist_ok=True)
        for j in jobs:
            for e, c in j.violations:
                ident = "%s:%s %s@%s" % (j.spec["name"], e["kind"], e["msg"], e["repo_loc"])
                kf = [k for k in known if k["property"] == a.prop and k["match"] in ident]
                if kf:
                    kf[0]["seen"] = True; continue
                viol += 1
                p = os.path.join(rdir, "%s-%d.json" % (a.prop, viol))
                json.dump({"property": a.prop, "job": j.spec["name"], "harness": j.spec["harness"], "defs": j.defs, "target": j.target, "tool": j.tool,
                           "input": e["input"], "kind": e["kind"], "message": e["msg"], "location": e["repo_loc"], "stack": e["stack"], "confirmed": c,
                           "how": "python3 replay.py %s rebuilds the harness from /repo and runs it on this input" % p}, open(p, "w"), indent=1)
                print("violated: %s [%s] %s; input=%s" % (ident, c, e["stack"][:300], e["input"][:400]))
                if viol <= 5:
                    print("VIOLATION property=%s replay=%s" % (a.prop, p))
        for k in known:
            if k["seen"]: print("KNOWN-FINDING: property=%s %s" % (a.prop, k["text"]))
        exhausted = not skipped
        if skipped: print("INCOMPLETE: not run (%s): %s" % ("a violation was found already" if viol else "time", " ".join(skipped)))
        for j in jobs:
            for e in j.unconfirmed: print("UNCONFIRMED (not reported): %s %s@%s input=%s" % (e["kind"], e["msg"], e["repo_loc"], e["input"][:200]))
            for m in j.mismatch[:5]: print("ENCODING-MISMATCH %s: %s" % (j.spec["name"], json.dumps(m)[:800]))
            for i in j.incs[:5]: print("INCOMPLETE %s: %s" % (j.spec["name"], i["msg"]))
            if j.timeout: print("INCOMPLETE %s: time limit reached before every path was explored" % j.spec["name"])
            if j.unconfirmed or j.incs or j.timeout or j.tot["smt_unknown"]: exhausted = False
            if j.missing and not viol:
                print("%s %s: not reached: %s" % ("NOT-REACHED" if j.labels else "VACUOUS", j.spec["name"], j.missing)); exhausted = False
                if not j.labels: rc = 2
        if viol: rc = 1
        tot = {k: sum(j.tot[k] for j in jobs) for k in SUM}
        tot["solver_s"] = round(tot["solver_s"], 3)
        cov = {
            "states": tot["forks"] + len(jobs), "transitions": tot["steps"], "paths_completed": tot["paths"],
            "traces_validated_against_impl": sum(j.replayed - len(j.mismatch) for j in jobs),
            "samples": [{"job": j.spec["name"], "input": w["input"][:300], "labels": w["labels"], "observed": w["obs"][:12]} for j in jobs for w in j.wits[:2]][:12] or [{"note": "no labelled path"}],
            "exhaustive": exhausted, "jobs_not_run": skipped,
            "queries": {k: tot[k] for k in ("smt_queries", "smt_sat", "smt_unsat", "smt_unknown", "byte_enum_queries", "domain_queries", "model_hits", "cache_hits")},
            "solver_s": tot["solver_s"],
            "obligations_by_kind": {k: tot[k] for k in ("asserts", "asserts_symbolic", "ub_obligations", "block_obligations")},
            "functions_encoded": sorted(set(f for j in jobs for f in j.functions)),
            "repo_lines_executed": len(set(l for j in jobs for l in j.lines)),
            "jobs": [{"job": j.spec["name"], "harness": j.spec["harness"], "defs": j.defs, "target": j.target, "bounds": j.spec.get("bounds", ""), "paths": j.tot["paths"], "smt_queries": j.tot["smt_queries"],
                      "solver_s": j.tot["solver_s"], "max_query_ms": j.tot["max_query_ms"], "engine_s": round(j.engine_s, 2), "labels": j.labels, "time_limit_hit": j.timeout,
                      "incomplete": [i["msg"] for i in j.incs[:5]], "unconfirmed": len(j.unconfirmed), "encoding_mismatches": len(j.mismatch)} for j in jobs],
            "known_findings": [k["text"] for k in known if k["seen"]],
            "tool": "symex (this repository's own LLVM-IR symbolic executor) with Z3",
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": a.prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
                   "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol},
                  open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
        print("%s %s: %s, %d paths, %d queries, %.1f s solver, %.1f s wall" % (a.prop, tier, "VIOLATED" if viol else "holds within the stated bounds" if exhausted else "no violation found, exploration incomplete", tot["paths"], tot["smt_queries"], tot["solver_s"], time.time() - t0))
    except BuildError as e:
        print("BUILD-ERROR: %s" % e); rc = 3
    finally:
        tree.pool2.shutdown(wait=True); tree.close()
    sys.exit(rc)
if __name__ == "__main__":
    main()
