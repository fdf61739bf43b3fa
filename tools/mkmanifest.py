#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/*.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "P01": ("NodeTree", "TLA+ model of list-and-parent edits, every transition replayed; random histories judged by the trace spec"),
}
NOTES = json.load(open(V + "/tools/notes.json")) if os.path.exists(V + "/tools/notes.json") else {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/harness/%s.py" % i.lower()):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
            technique=n.get("technique", "TLA+ specification (TLC): model behaviours replayed into the code, recorded traces judged by the trace specification"),
            level="model_checking",
            level_note=n.get("note", "exhaustive within small bounds on the model, every emitted behaviour replayed; beyond the bounds random recorded traces are judged by the same specification")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Specification language: TLA+ checked with TLC. See DESIGN.md. known_findings.jsonl lists findings and fixed defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "n/a")
