#!/usr/bin/env python3
"""seedtest.py [id...]: applies each planted change to a scratch copy, builds, runs the stable
tests and the demonstration, runs the checks of its property (or ALL=1: every check) and
records what was caught in seeded/results.json."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded"); os.environ["ASAN_OPTIONS"] = "detect_leaks=0"; W = os.environ.get("SEEDW", "/tmp/seedrepo")
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def script(f): return open(f).read().replace("/repo", W)
if not os.path.isdir(W):
    shutil.copytree("/repo", W, symlinks=True)
    run("git checkout -q -- .; make clean; ", shell=True, cwd=W)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
res_f = os.path.join(S, "results.json"); res = json.load(open(res_f)) if os.path.exists(res_f) else {}
ids = sys.argv[1:] or sorted(d for d in os.listdir(S) if os.path.isdir(os.path.join(S, d)))
for i in ids:
    d = os.path.join(S, i); m = json.load(open(os.path.join(d, "meta.json")))
    run(["git", "checkout", "-q", "--", "."], cwd=W)
    out = {"property": m["property"], "problems": []}
    if os.environ.get("DEMO", "1") == "1":
        b = run(["bash", "-c", script("/opt/vp/build.sh")])
        r = run(["sh", os.path.join(d, "demo.sh")], cwd=W)
        if r.returncode: out["problems"].append("demo fails on the unchanged tree: " + r.stdout[-400:])
    a = run(["git", "apply", os.path.join(d, "patch.diff")], cwd=W)
    if a.returncode: out["problems"].append("does not apply: " + a.stdout)
    if os.environ.get("DEMO", "1") == "1":
        b = run(["bash", "-c", script("/opt/vp/build.sh")])
        if b.returncode: out["problems"].append("does not build: " + b.stdout[-300:])
        t = run(["bash", "-c", script("/opt/vp/test.sh"), "x", "/tmp/seedres.json"])
        # results.py reads /repo paths given as arguments only
        try: passed = set("tests/" + os.path.basename(x) for x in json.load(open("/tmp/seedres.json"))["passed"])
        except Exception: passed = set()
        miss = sorted(stable - passed)
        if miss: out["problems"].append("tests fail: %s %s" % (miss[:5], t.stdout[-200:] if len(miss) > 50 else ""))
        r = run(["sh", os.path.join(d, "demo.sh")], cwd=W)
        if r.returncode == 0: out["problems"].append("demo passes with the change")
        out["demo"] = r.stdout[-200:]
    out["caught_by"] = []
    env_ = None
    props = [m["property"]] if os.environ.get("ALL") != "1" else ["C%02d" % k for k in range(1, 34)]
    for p in props:
        r = run([sys.executable, os.path.join(V, "run.py"), "--prop", p, "--tier", os.environ.get("TIER", "quick")], env=dict(os.environ, VF_REPO=W), cwd=V)
        if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout: out["caught_by"].append(p)
        elif r.returncode: out["problems"].append("%s rc=%d %s" % (p, r.returncode, r.stdout[-300:]))
        if p == m["property"]: out["first"] = next((l for l in r.stdout.split("\n") if l.startswith("violated")), r.stdout[-200:])[:260]; out["wall"] = re.findall(r"([\d.]+) s wall", r.stdout)
    run(["git", "checkout", "-q", "--", "."], cwd=W)
    print(i, m["property"], "CAUGHT" if m["property"] in out["caught_by"] else "MISSED", out["caught_by"], out.get("wall"), out["problems"], "|", out.get("first"), "|", out.get("demo", "")[:120].replace("\n", " "), flush=True)
    res = json.load(open(res_f)) if os.path.exists(res_f) else {}
    old = res.get(i, {})
    if os.environ.get("ALL") != "1" and old.get("caught_by"): out["caught_by"] = sorted(set(out["caught_by"]) | set(x for x in old["caught_by"] if x != m["property"]))
    res[i] = {k: out[k] for k in ("property", "caught_by", "problems")}
    json.dump(res, open(res_f, "w"), indent=1)
