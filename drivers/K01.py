import copy

import fairseq2.recipe  # noqa: F401
from fairseq2.utils.config import StandardConfigMerger

RULE = ("random nested configurations, overrides and directives on the real merger, compared with an independent definition; "
        "non-trivial: nested overrides with directives")

KEYS = ["a", "b", "c", "_del", "x.y"]


def value(rng, d):
    r = rng.random()
    if r < 0.45 and d > 0:
        return {k: value(rng, d - 1) for k in rng.sample(KEYS, rng.randint(0, 4))}
    if r < 0.6:
        return [rng.randint(0, 3) for _ in range(rng.randint(0, 2))]
    return rng.choice([0, 1, "s", "", None, False, [1, {"a": 1}]])


def override(rng, d):
    out = {k: (override(rng, d - 1) if d > 0 and rng.random() < 0.5 else value(rng, d - 1)) for k in rng.sample(KEYS, rng.randint(0, 4))}
    r = rng.random()
    if r < 0.35:
        out["_del_"] = rng.choice([[], None]) if rng.random() < 0.15 else [rng.choice(KEYS) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.06:
            out["_del_"] = rng.choice([["a", 3], "a", {"a": 1}, [None], ("a",)])
    if rng.random() < 0.35:
        out["_set_"] = value(rng, d) if rng.random() < 0.08 else {k: value(rng, d - 1) for k in rng.sample(KEYS, rng.randint(0, 3))}
        if rng.random() < 0.04:
            out["_set_"] = {"pairs": 1}
            out["_set_"] = [["a", 1]]
        if isinstance(out["_set_"], dict) and rng.random() < 0.05:
            out["int key"] = 0
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def cases(rng, tier):
    yield {"base": {"a": 1, "b": {"c": 2}}, "over": {"b": {"_del_": ["c"], "_set_": {"d": 1}}}}
    yield {"base": {"a": {"b": 1}}, "over": {"a": {}}}
    yield {"base": {"a": 1}, "over": {"_del_": ["a"], "a": {"b": 1}}}
    yield {"base": {"a": {"x": 1}}, "over": {"_del_": ["a"], "a": {"b": 1}}}
    yield {"base": {"a": {"x": 1}}, "over": {"_set_": {"a": {"b": 1}}, "a": {"c": 1}}}
    while True:
        yield {"base": value(rng, 3) if rng.random() < 0.1 else {k: value(rng, 3) for k in rng.sample(KEYS, rng.randint(0, 5))},
               "over": value(rng, 2) if rng.random() < 0.05 else override(rng, 3)}


def nontrivial(i):
    return isinstance(i["over"], dict) and ("_del_" in i["over"] or "_set_" in i["over"] or any(isinstance(v, dict) for v in i["over"].values()))


class Bad(Exception):
    pass


def oracle(base, over):
    if not isinstance(over, dict):
        return over
    if not isinstance(base, dict):
        base = {}
    dels, sets = over.get("_del_"), over.get("_set_")
    if dels is not None and (not isinstance(dels, list) or any(not isinstance(k, str) for k in dels)):
        raise Bad()
    if sets is not None and (not isinstance(sets, dict) or any(not isinstance(k, str) for k in sets)):
        raise Bad()
    out = {k: v for k, v in base.items() if k not in (dels or [])}
    kept = dict(out)
    for k, v in over.items():
        if k in ("_del_", "_set_"):
            continue
        out[k] = oracle(kept.get(k), v) if isinstance(v, dict) else v
    out.update(sets or {})
    return out


def parts(v, seen):
    if isinstance(v, (dict, list)):
        seen.add(id(v))
        for x in v.values() if isinstance(v, dict) else v:
            parts(x, seen)
    return seen


def check(inp):
    base, over = inp["base"], inp["over"]
    b0, o0 = copy.deepcopy(base), copy.deepcopy(over)
    try:
        want = oracle(b0, o0)
    except Bad:
        want = Bad
    try:
        got = StandardConfigMerger().merge(base, over)
    except TypeError as e:
        got = e
        if want is not Bad:
            return f"TypeError: {e}"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    if base != b0 or over != o0:
        return "the merge modifies an input"
    if isinstance(got, TypeError):
        return None
    if want is Bad:
        return "a malformed directive is accepted"
    if got != want or repr_sorted(got) != repr_sorted(want):
        return f"{got} instead of {want}"
    if isinstance(over, dict) and parts(got, set()) & (parts(base, set()) | parts(over, set())):
        return "the result shares parts with an input"
    return None


def repr_sorted(v):
    if isinstance(v, dict):
        return {k: repr_sorted(v[k]) for k in sorted(v)}.__repr__()
    if isinstance(v, list):
        return [repr_sorted(x) for x in v].__repr__()
    return repr(v)


def from_cex(unit, obligation, cex):
    return None
