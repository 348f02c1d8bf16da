"""found.py PROPERTY COMMIT WHAT: record a repaired defect in known-findings.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, commit, what = sys.argv[1:]
p = os.path.join(HERE, "known-findings.jsonl")
with open(p) as f:
    lines = f.readlines()
e = {"property": prop, "status": "fixed", "commit": commit, "what": what,
     "line": "fixed: property=%s %s %s" % (prop, commit, what)}
i = max(k for k, l in enumerate(lines) if json.loads(l)["status"] == "fixed")
lines.insert(i + 1, json.dumps(e) + "\n")
with open(p, "w") as f:
    f.writelines(lines)
