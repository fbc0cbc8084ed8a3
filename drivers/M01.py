import torch
from torcheval.metrics import Max, Mean, Sum

from fairseq2.error import InvalidOperationError
from fairseq2.metrics.bag import MetricBag

RULE = ("random histories of begin/update/add/commit/rollback on the real MetricBag with real torcheval metrics, compared with "
        "plain numbers; non-trivial: a rollback after an update")
KINDS = {"sum": Sum, "mean": Mean, "max": Max}


def cases(rng, tier):
    while True:
        h = []
        for _ in range(rng.randint(1, 14)):
            op = rng.choice(["begin", "begin", "commit", "rollback", "rollback", "update", "update", "update", "add", "get", "reset"])
            h.append([op, rng.randrange(4), rng.choice(list(KINDS)), rng.randint(-4, 9)])
        yield {"history": h}


def nontrivial(inp):
    ops = [o[0] for o in inp["history"]]
    return "begin" in ops and "rollback" in ops[ops.index("begin"):] and "update" in ops


def view(vals):
    return {n: (k, list(v)) for n, (k, v) in vals.items()}


def value(kind, v):
    if kind == "sum":
        return float(sum(v))
    if kind == "mean":
        return sum(v) / len(v) if v else 0.0
    return float(max(v)) if v else float("-inf")


def check(inp):
    bag = MetricBag(torch.device("cpu"))
    cur, snap = {}, None
    try:
        for i, (op, j, kind, x) in enumerate(inp["history"]):
            name = f"m{j}"
            at = f"operation {i} ({op})"
            try:
                err = None
                if op == "begin":
                    bag.begin_updates()
                elif op == "commit":
                    bag.commit_updates()
                elif op == "rollback":
                    bag.rollback_updates()
                elif op == "add":
                    bag.add(name, KINDS[kind]())
                elif op == "get":
                    bag.get(name, KINDS[kind])
                elif op == "reset":
                    bag.reset_metrics()
                elif name in cur:
                    bag.get(name, KINDS[cur[name][0]]).update(torch.tensor(float(x)))
            except (InvalidOperationError, ValueError, TypeError) as e:
                err = type(e)
            want = None
            if op == "begin":
                want = InvalidOperationError if snap is not None else None
                if want is None:
                    snap = view(cur)
            elif op in ("commit", "rollback"):
                want = InvalidOperationError if snap is None else None
                if want is None:
                    if op == "rollback":
                        cur = snap
                    snap = None
            elif op == "add":
                want = ValueError if name in cur else None
                if want is None:
                    cur[name] = (kind, [])
            elif op == "get":
                want = ValueError if name not in cur else TypeError if cur[name][0] != kind else None
            elif op == "reset":
                cur = {n: (k, []) for n, (k, v) in cur.items()}
            elif name in cur:
                cur[name][1].append(x)
            if err != want:
                return f"{at}: raised {err}, must raise {want}"
            got = {n: float(m.compute()) for n, m in bag.metrics.items()}
            must = {n: value(k, v) for n, (k, v) in cur.items()}
            if got.keys() != must.keys() or any(abs(got[n] - must[n]) > 1e-6 and got[n] != must[n] for n in got):
                return f"{at}: metrics {got}, must be {must}"
        return None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
