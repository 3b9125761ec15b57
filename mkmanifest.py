#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has sub-checks in harness/."""
import glob, json, os, re
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {}
for f in glob.glob(os.path.join(V, "harness", "*_test.go")):
    for m in re.finditer(r"^func Test(C\d\d)_(\w+)\(t \*testing\.T\)", open(f).read(), re.M):
        have.setdefault(m.group(1), []).append(m.group(2))
TECH = {}
exec(open(os.path.join(V, "techniques.py")).read())
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "No hooks: every check drives the exported API of /repo from a separate Go module (harness/), with pgregory.net/rapid."}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, "property-based testing (rapid)"), "level": "exploration",
            "level_note": "Generated-input search with shrinking against an explicit oracle; no counterexample among the cases counted in the evidence, not a proof. Sub-checks: " + ", ".join(sorted(have[i])) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
