import math
import warnings

import torch

import fairseq2.recipe  # noqa: F401
from fairseq2.gang import create_fake_gangs
from fairseq2.optim import fp16_loss_scaler as m

RULE = ("random overflow histories of the real loss scaler over the real torch GradScaler (CPU), compared with an "
        "independent scale automaton; non-trivial: at least one overflow or growth")


REAL = m._InternalGradScaler


class OnCpu(REAL):
    """The real scaler; without a GPU torch would disable it."""

    def __init__(self, *a, **k):
        super().__init__("cpu", *a, **k)


def from_cex(unit, obligation, cex):
    out = []
    for inf in ([True] * 3, [False] * 3):
        for k in (1.0, 2.0 ** -14, 2.0 ** -18):
            out.append({"init": float(cex.get("scale", 1.0)) * k, "factor": max(1.1, float(cex.get("scale_factor", 2.0))),
                        "window": 1, "min": float(cex.get("min_scale", 1e-4)), "inf": inf, "closure": False, "noop": False})
    return out


def cases(rng, tier):
    while True:
        yield {"init": rng.choice([2.0 ** 16, 1.0, 0.5, 2.0 ** -10, 2.0 ** -16, 2.0 ** -18, 3e-5]),
               "factor": rng.choice([2.0, 2.0, 1.5, 4.0, 1.1]), "window": rng.choice([1, 2, 3]),
               "min": rng.choice([1e-4, 1e-4, 1.0, 1e-6, 1e-8, 2.0 ** -12]),
               "inf": [rng.random() < 0.5 for _ in range(rng.randint(1, 10))], "closure": False,
               "noop": rng.random() < 0.1}


def nontrivial(inp):
    return any(inp["inf"]) or len(inp["inf"]) >= inp["window"]


def check(inp):
    warnings.filterwarnings("ignore")
    p = torch.nn.Parameter(torch.zeros(1))
    opt = torch.optim.SGD([p], lr=1.0)
    if inp["noop"]:
        s = m.NOOP_FP16_LOSS_SCALER
    else:
        m._InternalGradScaler = OnCpu
        s = m.StandardFloat16LossScaler(create_fake_gangs(torch.device("cpu")), init_scale=inp["init"],
                                        scale_factor=inp["factor"], scale_window=inp["window"], min_scale=inp["min"])
    f32 = lambda x: float(torch.tensor(x, dtype=torch.float32))
    scale, good = f32(inp["init"]), 0
    try:
        for i, inf in enumerate(inp["inf"]):
            before = float(p.detach())
            loss = (p * (float("inf") if inf and not inp["noop"] else 1.0)).sum()
            s.backward(loss)
            s.unscale_grads_(opt)
            r = s.run_optimizer_step(opt)
            opt.zero_grad()
            moved = float(p.detach()) - before
            if inp["noop"]:
                if (r.overflowed, r.scaled, r.exploded) != (False, False, False) or abs(moved + 1.0) > 1e-3 or r.old_scale != r.new_scale:
                    return f"step {i}: disabled scaler reports {r}, update {moved}"
                continue
            old = scale
            if inf:
                scale, good = f32(old * (1 / inp["factor"])), 0
            else:
                good += 1
                if good == inp["window"]:
                    scale, good = f32(old * inp["factor"]), 0
            if math.isclose(scale, inp["min"], rel_tol=1e-5):
                return None  # single precision decides
            boom = scale < old and scale < inp["min"]
            want = (scale < old, scale > old, boom)
            if boom:
                scale = f32(inp["min"])
            if abs(moved - (0.0 if inf else -1.0)) > 1e-3:
                return f"step {i}: update {moved} with inf={inf}"
            if (r.overflowed, r.scaled, r.exploded) != want:
                return f"step {i}: scale {old:g} -> {scale:g}: (overflowed, scaled, exploded)={(r.overflowed, r.scaled, r.exploded)}, must be {want}"
            cur = s._grad_scaler.get_scale()
            if not math.isclose(r.old_scale, old, rel_tol=1e-5) or not math.isclose(r.new_scale, scale, rel_tol=1e-5) \
                    or not math.isclose(cur, scale, rel_tol=1e-5):
                return f"step {i}: scale {old:g} -> {scale:g}, reported {r.old_scale:g} -> {r.new_scale:g}, now {cur:g}"
            scale = cur
        return None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
