import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks redirect std concurrency names before including the sources", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS],
     "notes": "All checks are generated-input searches driven by lib/pbt (choice-sequence generators, shrinking, replay) and, for concurrent properties, lib/vsched (generated schedules, virtual time). check.py --replay FILE re-runs a saved case."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks")
