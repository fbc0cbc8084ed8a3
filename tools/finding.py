"""finding.py ID COMMIT "what failed" : records a repaired defect."""
import json, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
i, c, w = sys.argv[1:]
k["findings"].append({"id": f"fixed-{i}-{c}", "property": i, "status": "fixed", "commit": c, "match": [],
                      "what": f"fixed: property={i} {c} {w}"})
json.dump(k, open(p, "w"), indent=1)
