"""python3-vt -m pyvc.check <PROPERTY> : decides one property of /repo's working tree.

1. Every unit of props/<ID>.py is run: the real source is parsed, symbolically executed function
   by function and every obligation is given to z3 (then cvc5).
2. In parallel drivers/<ID>.py exercises the real code under the repository's interpreter: the
   audit of the trusted contracts, and the search that turns a failed obligation into a failing
   input.
3. A refuted obligation is replayed on the real code from the solver's counterexample.
"""
from __future__ import annotations

import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PY = os.environ.get("VERIF_REPO_PY", "/opt/venv/bin/python")
HARD_SECS = {"quick": 420.0, "thorough": 3600.0}
DRIVER_SECS = {"quick": 12.0, "thorough": 300.0}


def run_unit(args: tuple) -> dict:
    pid, idx, tier = args
    sys.setrecursionlimit(20000)
    from . import api, core
    from .interp import Interp
    from .world import World

    units = load_units(pid)
    u = units[idx]
    t0 = time.time()
    mult = 1.0 if tier == "quick" else 6.0
    try:
        world = World()

        def body(ctx: core.Path) -> None:
            u.fn(ctx, Interp(ctx))

        ex = core.Explorer(u.name, body, world, max_paths=int(u.max_paths * mult),
                           max_secs=u.max_secs * mult, solver=core.Solver(int(u.timeout_ms * mult)))
        r = ex.run()
    except BaseException as e:  # an engine failure is never a verdict
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"name": u.name, "about": u.about, "obligations": [], "unsupported": [
            f"engine error {type(e).__name__}: {e} " + traceback.format_exc()[-1500:]], "paths": 0,
            "covers": {}, "required": [], "functions": [], "lines": 0, "trusted": [], "contracts": [],
            "loops": {}, "secs": time.time() - t0, "stats": {}, "assumes": u.assumes}
    files: dict[str, set] = {}
    for p, ln in r.lines:
        files.setdefault(os.path.relpath(p, world.repo), set()).add(ln)
    return {
        "name": u.name, "about": u.about,
        "obligations": [(o.name, o.path, o.status, o.backend, round(o.secs, 4), o.cex, o.where, o.goal)
                        for o in r.obligations],
        "unsupported": r.unsupported, "paths": r.paths, "passes": r.passes, "covers": r.covers,
        "required": sorted(r.required_covers), "functions": sorted(r.functions),
        "lines": {k: len(v) for k, v in files.items()}, "trusted": sorted(r.trusted),
        "contracts": sorted(r.contracts_used), "loops": r.loops, "secs": r.secs, "stats": r.stats,
        "assumes": u.assumes,
    }


def load_units(pid: str) -> list:
    from . import api

    api.REGISTRY.clear()
    sys.modules.pop(f"props.{pid}", None)
    mod = importlib.import_module(f"props.{pid}")
    return list(getattr(mod, "UNITS", None) or api.REGISTRY)


def driver_env() -> dict:
    env = dict(os.environ)
    repo = os.environ.get("VERIF_REPO", "/repo")
    env.update(PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", HF_HUB_OFFLINE="1",
               TRANSFORMERS_OFFLINE="1", HF_DATASETS_OFFLINE="1",
               PYTHONPATH=os.path.join(repo, "src") + ":" + VERIF, OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", TOKENIZERS_PARALLELISM="false")
    return env


def start_driver(pid: str, args: list[str], out: str) -> subprocess.Popen | None:
    if not os.path.exists(os.path.join(VERIF, "drivers", f"{pid}.py")):
        return None
    err = open(out + ".err", "w")
    return subprocess.Popen([REPO_PY, "-m", "drivers.run", pid, "--out", out] + args, cwd=VERIF,
                            env=driver_env(), stdout=err, stderr=err, stdin=subprocess.DEVNULL,
                            start_new_session=True)


def wait_driver(p: subprocess.Popen | None, out: str, timeout: float) -> dict | None:
    if p is None:
        return None
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        try:
            with open(out + ".err") as f:
                tail = f.read()[-1500:]
        except OSError:
            tail = ""
        return {"error": f"driver gave no result (rc={p.returncode}): {tail}", "evaluations": 0,
                "distinct": 0, "failures": []}


def load_known(pid: str) -> list[dict]:
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == pid]


def main() -> int:
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in DRIVER_SECS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.chdir(VERIF)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    t0 = time.time()
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replays", exist_ok=True)
    known = load_known(pid)
    tmp = tempfile.mkdtemp(prefix=f"pyvc-{pid}-")
    try:
        return _main(pid, tier, seed, t0, known, tmp)
    finally:
        for n in os.listdir(tmp):
            try:
                os.unlink(os.path.join(tmp, n))
            except OSError:
                pass
        try:
            os.rmdir(tmp)
        except OSError:
            pass


def _main(pid: str, tier: str, seed: int, t0: float, known: list, tmp: str) -> int:
    out1 = os.path.join(tmp, "search.json")
    drv = start_driver(pid, ["--search", "--tier", tier, "--seed", str(seed),
                             "--secs", str(DRIVER_SECS[tier])], out1)
    units = load_units(pid)
    todo = [(pid, i, tier) for i, u in enumerate(units) if u.tier == "quick" or tier == "thorough"]
    results: list[dict] = []
    hard = HARD_SECS[tier]
    nproc = max(1, min(8, len(todo)))
    if todo:
        pool = mp.get_context("fork").Pool(nproc, maxtasksperchild=1)
        try:
            pend = [(a, pool.apply_async(run_unit, (a,))) for a in todo]
            for a, p in pend:
                left = max(1.0, hard - (time.time() - t0))
                try:
                    results.append(p.get(left))
                except Exception as e:
                    results.append({"name": units[a[1]].name, "about": units[a[1]].about, "obligations": [],
                                    "unsupported": [f"no answer: {type(e).__name__} {e}"], "paths": 0,
                                    "covers": {}, "required": [], "functions": [], "lines": {},
                                    "trusted": [], "contracts": [], "loops": {}, "secs": 0.0,
                                    "stats": {}, "assumes": []})
        finally:
            pool.terminate()
            pool.join()

    proof_wall = time.time() - t0
    refuted, undecided = [], []
    n_obl = n_ok = 0
    backends: dict[str, int] = {}
    for r in results:
        for o in r["obligations"]:
            n_obl += 1
            if o[2] == "ok":
                n_ok += 1
                backends[o[3]] = backends.get(o[3], 0) + 1
            elif o[2] == "sat":
                refuted.append((r["name"], o))
            else:
                undecided.append(f"{r['name']}: obligation '{o[0]}' on path {o[1]} undecided")
        for s in r["unsupported"]:
            undecided.append(f"{r['name']}: {s}")
        for c in r["required"]:
            if r["covers"].get(c) != "sat":
                undecided.append(f"{r['name']}: vacuity guard '{c}' not reached ({r['covers'].get(c)})")
        if not r["obligations"] and not r["unsupported"]:
            undecided.append(f"{r['name']}: no obligation generated")

    search = wait_driver(drv, out1, DRIVER_SECS[tier] * 2 + 120)
    failures = list(search["failures"]) if search else []

    # replay the solver's counterexamples on the real code
    replayed = 0
    if refuted and drv is not None:
        out2 = os.path.join(tmp, "cex.json")
        cexf = os.path.join(tmp, "in.json")
        with open(cexf, "w") as f:
            seen, sel = {}, []
            for un, o in refuted:
                n = seen.get((un, o[0]), 0)
                seen[(un, o[0])] = n + 1
                if n < 5:
                    sel.append({"unit": un, "obligation": o[0], "cex": o[5]})
            json.dump(sel[:200], f)
        drv2 = start_driver(pid, ["--cex", cexf, "--tier", tier, "--seed", str(seed), "--secs",
                                  str(DRIVER_SECS[tier])], out2)
        rep = wait_driver(drv2, out2, DRIVER_SECS[tier] * 2 + 120)
        if rep:
            replayed = rep.get("evaluations", 0)
            failures = rep["failures"] + failures

    def known_for(text: str) -> dict | None:
        for k in known:
            if k.get("status") == "fixed":
                continue
            if any(fnmatch.fnmatch(text, pat) for pat in k["match"]):
                return k
        return None

    hit_known: dict[str, dict] = {}
    new_failures = []
    for f in failures:
        k = known_for(f["key"])
        if k is not None:
            hit_known[k["id"]] = k
        else:
            new_failures.append(f)
    new_refuted = []
    for un, o in refuted:
        k = known_for(f"obligation:{un}:{o[0]}")
        if k is not None:
            hit_known[k["id"]] = k
        else:
            new_refuted.append((un, o))

    violation = None
    replay = os.path.join("replays", f"{pid}.json")
    if new_failures or new_refuted:
        violation = {
            "property": pid,
            "failed_obligations": [
                {"unit": un, "obligation": o[0], "path": o[1], "where": o[6], "goal": o[7],
                 "backend": o[3], "verdict": "refuted: a counterexample to the obligation exists",
                 "counterexample": o[5]} for un, o in new_refuted[:20]],
            "failing_inputs": new_failures[:10],
            "undecided": undecided[:20],
            "how_to_replay": f"cd /verif && PYTHONPATH=/repo/src:/verif {REPO_PY} -m drivers.run {pid} "
                             f"--replay {replay}" if new_failures else
                             f"cd /verif && python3-vt -m pyvc.check {pid}",
        }
        with open(replay, "w") as f:
            json.dump(violation, f, indent=1, default=str)

    lines: dict[str, int] = {}
    for r in results:
        for k, v in (r["lines"] or {}).items():
            lines[k] = max(lines.get(k, 0), v)
    trusted = sorted({t for r in results for t in r["trusted"]})
    assumed = sorted({t for r in results for t in r["contracts"]})
    ev: dict[str, Any] = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": n_obl, "discharged": n_ok,
            "checker_cmd": f"python3-vt -m pyvc.check {pid}" + (" --thorough" if tier == "thorough" else ""),
            "trusted_base": [
                "pyvc: the VC generator in /verif/pyvc (Python semantics as implemented in interp.py)",
                "z3 5.3.2 / cvc5 1.1.2",
                "machine floats treated as mathematical reals; ints are unbounded in Python",
            ] + trusted,
            "units": [
                {"unit": r["name"], "about": r["about"], "paths": r["paths"],
                 "obligations": len(r["obligations"]),
                 "distinct_obligations": len({o[0] for o in r["obligations"]}),
                 "discharged": sum(1 for o in r["obligations"] if o[2] == "ok"),
                 "secs": round(r["secs"], 2), "solver": r["stats"], "covers": r["covers"],
                 "loop_invariants": r["loops"], "not_decided": r["unsupported"]}
                for r in results],
            "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
            "source_lines_executed": lines,
            "functions_replaced_by_contract": assumed,
            "discharged_by": backends,
            "solver_secs": round(sum(r["stats"].get("solver_secs", 0.0) for r in results), 2),
            "proof_wall_s": round(proof_wall, 2),
            "undecided": undecided,
            "refuted": len(refuted),
            "bounded_audit": {
                "label": "bounded: concrete runs of the real code, never counted as proved",
                "evaluations": (search or {}).get("evaluations", 0),
                "distinct_nontrivial": (search or {}).get("distinct", 0),
                "rule": (search or {}).get("rule", ""),
                "samples": (search or {}).get("samples", []),
                "error": (search or {}).get("error", ""),
                "counterexamples_replayed": replayed,
            },
        },
        "assumptions": sorted({a for r in results for a in r["assumes"]}) + [
            f"assumed contract: {c}" for c in assumed],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join("evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{pid}: {n_ok}/{n_obl} obligations discharged in {len(results)} units "
          f"({proof_wall:.1f} s proof), bounded audit: {(search or {}).get('evaluations', 0)} runs; "
          f"total {time.time() - t0:.1f} s")
    for u in undecided[:12]:
        print("  undecided:", u if len(u) < 700 else u[:200] + " ... " + u[-480:])
    if search and search.get("error"):
        print("  driver:", search["error"][-800:])
    for k in hit_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if violation is None:
        return 0
    for un, o in new_refuted[:6]:
        print(f"  failed obligation: [{un}] {o[0]} ({o[6]}) cex={json.dumps(o[5], default=str)[:300]}")
    for f in new_failures[:3]:
        print(f"  failing input: {f['key']}: {f['detail'][:400]} input={json.dumps(f['input'], default=str)[:400]}")
    tail = "" if new_failures else " no-failing-input-found"
    print(f"VIOLATION property={pid} replay={replay}{tail}")
    return 1


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 0 if os.environ.get("PYVC_ERRORS_QUIET") else 2
    sys.stdout.flush()
    os._exit(code)
