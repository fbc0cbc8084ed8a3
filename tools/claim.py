"""claim.py ID "level note" : lists a property as claimed and regenerates MANIFEST.json and properties.jsonl."""
import json, subprocess, sys
p = "/verif/tools/levels.json"
l = json.load(open(p))
a = sys.argv[1:]
while a:
    l["claimed"][a[0]] = a[1]
    l["not_applicable"].pop(a[0], None)
    a = a[2:]
json.dump(l, open(p, "w"), indent=1)
for t in ("gen_properties", "gen_manifest"):
    subprocess.run([sys.executable, f"/verif/tools/{t}.py"], check=True)
