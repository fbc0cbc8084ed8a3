"""mkbug.py SPEC.py : builds /verif/seeded/<id>/ from a spec and confirms the demonstration.

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source), FILES={name: text}
With --tests the stable tests are also run on the patched tree.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

HEAD = '''"""%s"""
import os, sys, types, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
if True:  # the compiled bindings are not needed here
    stub = types.ModuleType("fairseq2n")
    stub.DOC_MODE, stub.__version__ = True, "0.0"
    sys.modules["fairseq2n"] = stub
import logging
logging.disable(logging.CRITICAL)
import torch
import fairseq2.recipe
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec env PYTHONDONTWRITEBYTECODE=1 "$py" "$here/demo.py"
'''


def build(spec):
    s = runpy.run_path(spec)
    out = f"/verif/seeded/{s['ID']}"
    d = tempfile.mkdtemp(prefix="bug", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    run = lambda *a, **k: subprocess.run(a, cwd=d, capture_output=True, text=True, **k)
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join(d, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = run("git", "diff", "--", "src").stdout
        # lines removed or changed have to be lines of the original repository
        for f in {e[0] for e in s["EDITS"]}:
            base = subprocess.run(["git", "-C", "/repo", "show", "4c9fcfe:" + f], capture_output=True, text=True).stdout.split("\n")
            gone = [x[1:] for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
            own = [x for x in gone if x not in base and len({e[0] for e in s["EDITS"]}) == 1]
            if own:
                print("  NOT ORIGINAL:", own)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(HEAD % s["BREAKS"].replace('"', "'") + s["DEMO"])
        for n, t in s.get("FILES", {}).items():
            open(f"{out}/{n}", "w").write(t)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        bad = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=280)
        good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=280)
        ok = good.returncode == 0 and bad.returncode != 0
        print(s["ID"], "OK" if ok else "WRONG", "unchanged:", good.returncode, "patched:", bad.returncode,
              (bad.stdout + bad.stderr).strip().split("\n")[-1][:200])
        if good.returncode:
            print((good.stdout + good.stderr)[-1500:])
        return ok
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for sp in sys.argv[1:]:
        build(sp)
