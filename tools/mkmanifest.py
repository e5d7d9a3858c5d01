"""Writes MANIFEST.json from the table below; properties without a workload are listed as not claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i == "C27" or os.path.exists(os.path.join(ROOT, "harness/src/bin", i.lower() + ".rs")):
        tech, note = T.get(i, ("runtime monitoring: reference-model oracle over generated and edge-biased executions", "Holds on every execution observed; the reference model and the compiler are trusted."))
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "workload not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check mirrors /repo's sources by content into .build/ws (the optional git dependency concrete-ntt is stripped from the manifests because it is not available offline), builds the monitored workload against that mirror and runs it."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
