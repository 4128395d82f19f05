"""Fills the generated tables of DESIGN.md."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
P = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
def cost(p):
    try:
        return re.search(r"([\d.]+) s wall", open(os.path.join(V, "build", "log." + p)).read()).group(1) + " s"
    except Exception:
        return ""
def defs(j, t): return ",".join(k if v is None else "%s=%s" % (k, v) for k, v in j["defs"][t].items())
out = []
for p in sorted(CHECKS):
    d = P[p]
    out.append("**%s %s** (%s). Not decided by tests: %s" % (p, d["title"], cost(p), d["why_tests_cant"]))
    merged = {}
    for j in CHECKS[p]["jobs"]:
        n = j["name"]; tg = j.get("target", "host")
        if tg != "host" and n.endswith("-" + tg): n = n[:-len(tg) - 1] + "-*"
        merged.setdefault(n, (j, []))[1].append(tg)
    for n, (j, tg) in merged.items():
        q, t = defs(j, "quick"), defs(j, "thorough")
        out.append("  - `%s` (%s%s): %s. Quick `%s`%s." % (n, j["harness"], "; " + " ".join(tg) if len(tg) > 1 else "", j["bounds"].split(": ", 1)[1] if len(tg) > 1 else j["bounds"], q or "no parameters", "" if q == t else ", thorough `%s`" % t))
    out.append("")
sd = ["| id | property | change | caught by |", "|---|---|---|---|"]
res = {}
f = os.path.join(V, "seeded", "results.json")
if os.path.exists(f): res = json.load(open(f))
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); r = res.get(i, {})
    sd.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/"), ", ".join(r.get("caught_by", [])) or "not caught"))
s = open(os.path.join(V, "DESIGN.md")).read()
for k, b in (("TABLE", out), ("SEEDED", sd)):
    s = re.sub(r"<!--%s-->.*?<!--/%s-->" % (k, k), lambda m: "<!--%s-->\n%s\n<!--/%s-->" % (k, "\n".join(b), k), s, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
