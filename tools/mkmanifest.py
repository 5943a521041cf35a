"""regenerates MANIFEST.json from the property modules present"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = "generated inputs against an independent Python reference / model; bounded by case counts, absence of violations is not proved"
FUZZ = {"C23"}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/props/%s.py" % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique="property-based testing (Hypothesis generators and shrinking, ASan-instrumented library)" + (" plus coverage-guided fuzzing (libFuzzer)" if i in FUZZ else ""), level="exploration", level_note=NOTE))
    else: na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./check.py --build", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
