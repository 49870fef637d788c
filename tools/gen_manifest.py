#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(D, "..")
sys.path.insert(0, D)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=s.get("technique", "property-based testing: generated cases against an independent reference model, tape shrinking and replay"),
                           level=s.get("level", "exploration"), level_note=s.get("note", "generated-input search; samples the quantified space, no proof")))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="python3 run.py <id> builds /repo's current sources into the harness and runs the check; run.py --replay FILE re-runs a recorded case. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
