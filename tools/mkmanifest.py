"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECHNIQUE[i], level="exploration", level_note=NOTE[i]))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=p["id"], reason="the check for this property is not built yet") for p in props if p["id"] not in CHECKS],
         notes="No hooks are needed in /repo: harnesses compile its sources into /verif/build. Every check rebuilds what it needs from /repo's "
               "working tree (content-addressed cache). VERIF_SEED seeds every random choice; run.py <id> --replay FILE replays a counterexample.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(m["not_applicable"]), "not")
