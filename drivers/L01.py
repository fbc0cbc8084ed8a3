import math, warnings
import torch
from torch.optim import SGD
from fairseq2.optim.lr_schedulers import CosineAnnealingLR, MyleLR, NoamLR, PolynomialDecayLR, TriStageLR

RULE = ("random schedules over one to three parameter groups, stepped on a real optimizer and probed at random steps and at the "
        "boundaries of warm-up, cycles and stages; the rates are compared with the closed forms in double precision; non-trivial: "
        "a step after warm-up")
warnings.simplefilter("ignore")
KINDS = ("cosine", "cosine-growing", "noam", "myle", "polynomial", "tri-stage")


def cases(rng, tier):
    n = 0
    while True:
        kind = KINDS[n % len(KINDS)]
        n += 1
        g = rng.randint(1, 3)
        w = rng.choice([0, 1, 2, 3, 10, 100, 4000, rng.randint(0, 60)])
        inp = {"kind": kind, "w": w, "base": [rng.choice([0.1, 1.0, 0.05, 2e-4, 3.0]) for _ in range(g)],
               "start": [rng.choice([0.0, 0.01, 1e-6, 0.5]) for _ in range(g)],
               "final": [rng.choice([0.0, 0.01, 1e-6, 0.1]) for _ in range(g)],
               "scalar": rng.random() < 0.4}
        marks = [0, 1, w - 1, w, w + 1, w * 4]
        if kind.startswith("cosine"):
            inp["len"] = rng.choice([1, 2, 7, 20, 80, 1000])
            inp["lr_mul"] = rng.choice([1.0, 0.5, 0.9, 1.01])
            inp["mul"] = 1.0
            if kind == "cosine-growing":
                m = inp["mul"] = float(rng.choice([2, 3, 4, 5, 10, 9, 1.5, 1.2]))
                if m == int(m):
                    k = rng.randint(1, 7)
                    s = w + inp["len"] * (int(m) ** k - 1) // (int(m) - 1)
                    marks += [s - 1, s, s + 1]
            marks += [w + inp["len"] * k + d for k in (1, 2, 3) for d in (-1, 0, 1)]
        elif kind == "polynomial":
            inp["total"] = rng.choice([w + 1, w + 2, w + 50, 2 * w + 10, w, max(w - 1, 0)])
            inp["power"] = rng.choice([1.0, 0.5, 2.0, 3.0, 0.9])
            marks += [inp["total"] + d for d in (-2, -1, 0, 1, 100)] + [(w + inp["total"]) // 2]
        elif kind == "tri-stage":
            inp["total"] = rng.choice([1, 10, 100, 1000, 77])
            inp["ratio"] = rng.choice([[0.1, 0.4, 0.5], [0.0, 0.5, 0.5], [0.25, 0.25, 0.5], [1.0, 0.0, 0.0], [0.5, 0.0, 0.5],
                                       [0.0, 0.0, 1.0], [0.3, 0.7, 0.0], [0.5, 0.5, 0.5], [0.2, 0.2, 0.2]])
            inp["final"] = [rng.choice([0.01, 0.5, 1.0, 1e-4]) for _ in range(g)]
            b, acc = [int(r * inp["total"]) for r in inp["ratio"]], 0
            for x in b:
                acc += x
                marks += [acc - 1, acc, acc + 1]
        if inp["scalar"]:
            inp["start"], inp["final"] = [inp["start"][0]] * g, [inp["final"][0]] * g
        inp["steps"] = sorted({m for m in marks + [rng.randint(0, 3000) for _ in range(4)] if m >= 0})
        yield inp


def nontrivial(inp):
    return any(s > inp["w"] for s in inp["steps"])


def make(inp):
    ps = [{"params": [torch.nn.Parameter(torch.zeros(1))], "lr": b} for b in inp["base"]]
    opt = SGD(ps, lr=1.0)
    pg = (lambda v: v[0]) if inp["scalar"] else (lambda v: list(v))
    k, w = inp["kind"], inp["w"]
    if k.startswith("cosine"):
        s = CosineAnnealingLR(opt, inp["len"], w, cycle_mul=inp["mul"], lr_mul=inp["lr_mul"], start_lr=pg(inp["start"]), final_lr=pg(inp["final"]))
    elif k == "noam":
        s = NoamLR(opt, w)
    elif k == "myle":
        s = MyleLR(opt, w, start_lr=pg(inp["start"]))
    elif k == "polynomial":
        s = PolynomialDecayLR(opt, inp["total"], w, power=inp["power"], start_lr=pg(inp["start"]), final_lr=pg(inp["final"]))
    else:
        s = TriStageLR(opt, inp["total"], tuple(inp["ratio"]), start_lr_scale=pg(inp["start"]), final_lr_scale=pg(inp["final"]))
    return opt, s


def cycle(d, n, m):
    """(number, position, length) of the cycle that holds the d-th step after warm-up."""
    if m == 1.0:
        return d // n, d % n, n
    k = 0
    if m == int(m):
        begin, ln = 0, n
        while begin + ln <= d:
            begin, ln, k = begin + ln, ln * int(m), k + 1
        return k, d - begin, ln
    x = 1 - d / n * (1 - m)
    while m ** (k + 1) <= x * (1 + 1e-12):
        if abs(m ** (k + 1) / x - 1) < 1e-9:
            return None  # on a boundary that machine numbers do not resolve
        k += 1
    off = (1 - m ** k) / (1 - m) * n
    if any(abs(v - round(v)) < 1e-6 for v in (off, m ** k * n)) and k:
        return None
    return k, d - int(off), int(m ** k * n)


def expect(inp, t, i):
    k, w, b = inp["kind"], inp["w"], inp["base"][i]
    s, f = inp["start"][i], inp["final"][i]
    if k == "noam":
        return b * (t * w ** -1.5 if t < w else 1.0 if t == 0 else t ** -0.5)
    if k == "tri-stage":
        a, h, d = [int(r * inp["total"]) for r in inp["ratio"]]
        if t < a:
            return s * b + (b - s * b) * t / a
        if t < a + h:
            return b
        return b * f ** ((t - a - h) / d) if t < a + h + d else b * f
    if k == "polynomial" and t >= inp["total"]:
        return f
    if t < w:
        return s + (b - s) * t / w
    if k == "myle":
        return b * math.sqrt(w / t)
    if k == "polynomial":
        return f + (b - f) * ((inp["total"] - t) / (inp["total"] - w)) ** inp["power"]
    c = cycle(t - w, inp["len"], inp["mul"])
    if c is None:
        return None
    n, pos, ln = c
    sc = inp["lr_mul"] ** n
    return sc * (f + (b - f) * (1 + math.cos(math.pi * pos / ln)) / 2)


def check(inp):
    bad = (inp["kind"] == "myle" and inp["w"] == 0 or inp["kind"] == "polynomial" and inp["w"] >= inp["total"]
           or inp["kind"] == "tri-stage" and abs(sum(inp["ratio"]) - 1) > 1e-6)
    try:
        opt, s = make(inp)
    except ValueError as ex:
        return None if bad else f"a valid schedule is rejected: {ex}"
    except Exception as ex:
        return f"the schedule cannot be made: {ex!r}"
    if bad:
        return "an invalid schedule is accepted"
    last, walked = max(inp["steps"]), 0
    seen = {}
    try:
        for t in range(0, min(last, 40) + 1):  # stepped
            seen[t] = [g["lr"] for g in opt.param_groups]
            opt.step()
            s.step()
        for t in inp["steps"]:
            s.last_epoch = t
            s._get_lr_called_within_step = True
            seen.setdefault(t, s.get_lr())
    except Exception as ex:
        return f"computing a rate fails: {ex!r}"
    for t, got in seen.items():
        if len(got) != len(inp["base"]):
            return f"step {t}: {len(got)} rates for {len(inp['base'])} groups"
        for i, v in enumerate(got):
            e = expect(inp, t, i)
            if e is not None and not math.isclose(float(v), e, rel_tol=1e-6, abs_tol=1e-9):
                return f"step {t}, group {i}: rate {float(v)!r}, the closed form is {e!r}"
    return None


def from_cex(unit, obligation, cex):
    if unit not in KINDS:
        return []
    num = lambda n, d=0.0: float(cex.get(n, d) if not isinstance(cex.get(n, d), str) else eval_q(cex[n]))
    t, w = int(num("step")), int(num("warmup"))
    out = []
    for lrs in ({}, {"base": [0.5, 0.25], "start": [0.01, 0.02], "final": [0.001, 0.02]}):
        inp = {"kind": unit, "w": w, "base": [1.0], "start": [0.125], "final": [0.0625], "scalar": False, "steps": sorted({t, 0, w, w + 1})}
        inp.update(lrs)
        inp.update({"len": int(num("cycle_len", 1)), "mul": num("cycle_mul", 1.0), "lr_mul": num("lr_mul", 1.0),
                    "total": int(num("total", 1)), "power": num("power", 1.0), "ratio": [num(f"ratio{k}") for k in range(3)]})
        if t < 10 ** 9:
            out.append(inp)
    return out


def eval_q(s):
    from fractions import Fraction
    try:
        return Fraction(s.rstrip("?"))
    except ValueError:
        return 0.0
