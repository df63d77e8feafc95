"""Validates properties.jsonl, MANIFEST.json and evidence against the schemas (run with python3-vt)."""
import glob, json, os
import jsonschema
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "/root/.vp/"
sch = {k: json.load(open(V + k + ".schema.json")) for k in ("PROPERTIES", "MANIFEST", "EVIDENCE")}
ids = []
for line in open(R + "/properties.jsonl"):
    d = json.loads(line)
    jsonschema.validate(d, sch["PROPERTIES"])
    ids.append(d["id"])
m = json.load(open(R + "/MANIFEST.json"))
jsonschema.validate(m, sch["MANIFEST"])
assert sorted([c["property"] for c in m["checks"]] + [c["property"] for c in m["not_applicable"]]) == sorted(ids)
for f in glob.glob(R + "/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), sch["EVIDENCE"])
print("valid:", len(ids), "properties,", len(m["checks"]), "checks")
