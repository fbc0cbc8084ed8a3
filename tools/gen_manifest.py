"""Writes MANIFEST.json: a check for every property with props/<ID>.py, a reason for every other."""
import json, os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = ("contract-based deductive verification: contracts on the real functions of /repo, obligations generated from "
        "the current source by pyvc (path-wise symbolic execution with inferred and checked loop invariants) and "
        "discharged by z3/cvc5")
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
REASONS = NOTES["not_applicable"]
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NOTES["claimed"]:
        lvl = NOTES["claimed"][i]
        checks.append({
            "property": i, "quick_cmd": f"python3-vt -m pyvc.check {i}",
            "thorough_cmd": f"python3-vt -m pyvc.check {i} --thorough",
            "technique": TECH, "level": "proof", "level_note": lvl,
        })
    else:
        na.append({"property": i, "reason": REASONS.get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
