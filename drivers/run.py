"""Runs drivers/<ID>.py against the real code.

A driver module has
  cases(rng, tier)      generator of JSON-able inputs
  check(inp)            None, or a failure detail (str), or (key, detail)
  RULE                  how cases are made, what makes one non-trivial
  nontrivial(inp)       optional
  from_cex(unit, obligation, cex)   optional; inputs to try for a solver counterexample
"""
import argparse
import importlib
import json
import random
import sys
import time
import traceback


def evaluate(mod, inp):
    """-> failure dict or None.  An exception of the harness itself is not a failure."""
    r = mod.check(inp)
    if r is None:
        return None
    key, detail = r if isinstance(r, tuple) else ("violation", r)
    return {"key": key, "detail": detail, "input": inp}


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--out")
    ap.add_argument("--search", action="store_true")
    ap.add_argument("--cex")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", type=float, default=25)
    a = ap.parse_args()
    from . import boot  # noqa: F401

    mod = importlib.import_module(f"drivers.{a.pid}")
    rng = random.Random(a.seed)
    out = {"evaluations": 0, "distinct": 0, "rule": getattr(mod, "RULE", ""), "samples": [],
           "failures": [], "error": ""}
    if a.replay:
        data = json.load(open(a.replay))
        bad = 0
        for f in data["failing_inputs"]:
            r = evaluate(mod, f["input"])
            print(json.dumps(r, default=str))
            bad |= r is not None
        return int(bad)
    if a.cex:
        todo = json.load(open(a.cex))
        def gen():
            f = getattr(mod, "from_cex", None)
            if f is None:
                return
            for c in todo:
                try:
                    r = f(c["unit"], c["obligation"], c["cex"])
                except Exception:
                    out["error"] = traceback.format_exc()[-800:]
                    continue
                if r is None:
                    continue
                yield from (r if isinstance(r, list) else [r])
        src = gen()
    else:
        src = mod.cases(rng, a.tier)
    nontrivial = getattr(mod, "nontrivial", lambda x: True)
    seen = set()
    errors = 0
    t0 = time.time()
    # the solver of the proof shares the machine: bound by the clock and by the generator
    for inp in src:
        if time.time() - t0 > a.secs:
            break
        s = json.dumps(inp, sort_keys=True, default=str)
        try:
            f = evaluate(mod, inp)
        except Exception:
            errors += 1
            out["error"] = f"{errors} harness errors; last: input={s[:500]} " + traceback.format_exc()[-1500:]
            if errors > 20:
                break
            continue
        out["evaluations"] += 1
        if s not in seen:
            seen.add(s)
            if nontrivial(inp):
                out["distinct"] += 1
                if len(out["samples"]) < 3:
                    out["samples"].append(json.loads(s))
        if f is not None:
            out["failures"].append(f)
            if len({x["key"] for x in out["failures"]}) >= 5 or len(out["failures"]) >= 12:
                break
    if hasattr(mod, "finish"):
        mod.finish()
    if a.out:
        with open(a.out, "w") as fo:
            json.dump(out, fo, default=str)
    else:
        print(json.dumps(out, indent=1, default=str))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    import os

    os._exit(rc)
