"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C23": "every query of the alignment model raises on every table tried, AttributeError (it calls semiring.one_, which no "
           "semiring has) or AssertionError, and behind that needs the native genbmm extension, which is absent, so there is "
           "no run to monitor",
}
NOTE = {}
checks = []
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    if not os.path.exists(os.path.join(ROOT, "vmon", "props", p.lower() + ".py")):
        continue
    doc = open(os.path.join(ROOT, "vmon", "props", p.lower() + ".py")).read().split('"""')[1]
    checks.append(dict(
        property=p, quick_cmd="bash check.sh %s quick" % p, thorough_cmd="bash check.sh %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique="runtime monitoring: generated workloads at the public API, each answer compared with a reference model",
        level="exploration",
        level_note="held on every generated input of the run (see DESIGN.md %s for bounds); not a proof" % p,
    ))
na = [dict(property=p, reason=NA[p]) for p in props if p in NA]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo; all monitors sit at the public API. Known findings: known_findings.json.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
