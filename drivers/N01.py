import drivers.boot  # noqa
from unittest.mock import patch

import torch

import fairseq2.recipe  # noqa
from fairseq2.generation.sampling.sampler import TopKSampler, TopPSampler

RULE = ("the real samplers with a multinomial that records its weights and returns every index in turn, on dyadic probabilities (exact "
        "sums, ties, zeros), against the sets of the definition; non-trivial: an entry of positive probability is not permitted")


def cases(rng, tier):
    while True:
        V, n = rng.randint(1, 7), rng.randint(1, 3)
        rows = []
        for _ in range(n):
            total = rng.choice([16, 16, 16, 8, 32])  # of 16: not normalised at times
            cuts = sorted(rng.randint(0, total) for _ in range(V - 1))
            rows.append([b - a for a, b in zip([0] + cuts, cuts + [total])])
        for r in rows:
            rng.shuffle(r)
        yield {"rows": rows, "what": rng.choice(["p", "p", "k"]), "p": rng.choice([0, 1, 2, 4, 7, 8, 9, 12, 15, 16, 20]), "k": rng.randint(1, 9)}


def permitted(row, inp):
    """The values of the permitted entries, most probable first."""
    s = sorted(row, reverse=True)
    if inp["what"] == "k":
        return s[:inp["k"]]
    out, mass = [], 0
    for v in s:
        if mass * 16 > inp["p"] * sum(row):
            break
        out.append(v)
        mass += v
    return out


def nontrivial(inp):
    return any(len([v for v in permitted(r, inp) if v]) < len([v for v in r if v]) for r in inp["rows"])


def check(inp):
    rows = inp["rows"]
    probs = torch.tensor(rows, dtype=torch.float64) / 16
    sampler = TopPSampler(inp["p"] / 16) if inp["what"] == "p" else TopKSampler(inp["k"])
    name = f"top-{inp['what']}"
    seen = []

    def draw(j):
        def f(weights, num_samples=1, **kw):
            seen.append(weights.clone())
            return torch.full((weights.shape[0], 1), min(j, weights.shape[1] - 1))
        return f

    entries, j = [], 0
    while True:
        before = probs.clone()
        try:
            with patch("torch.multinomial", draw(j)), patch("torch.Tensor.multinomial", lambda t, *a, **k: draw(j)(t, *a, **k)):
                r = sampler.sample(probs)
        except Exception as e:  # noqa
            return (name, f"{name}: {e!r}")
        if not torch.equal(probs, before):
            return (name, f"{name}: the given probabilities are changed")
        if tuple(r.shape) != (len(rows),):
            return (name, f"{name}: result of shape {tuple(r.shape)}")
        entries.append(r)
        j += 1
        if not seen or j >= seen[-1].shape[1]:
            break
    for b, row in enumerate(rows):
        want = permitted(row, inp)
        idx = [int(e[b]) for e in entries]
        if any(not 0 <= i < len(row) for i in idx):
            return (name, f"{name}: index {idx} of {len(row)} entries")
        if not seen:
            if len([v for v in want if v]) > 1:
                return (name, f"{name}: {row} is not sampled")
            if row[idx[0]] != max(row):
                return (name, f"{name}: entry {idx[0]} of {row}")
            continue
        w = seen[-1][b].tolist()
        got = [(i, x) for i, x in zip(idx, w) if x != 0]
        if any(not x > 0 for _, x in got) or len({i for i, _ in got}) != len(got):
            return (name, f"{name}: draw probabilities {w} of {idx}")
        if sorted((row[i] for i, _ in got), reverse=True) != [v for v in want if v]:
            return (name, f"{name} ({inp['p']}/16 or {inp['k']}): entries {[i for i, _ in got]} of {row} can be drawn")
        z, zw = sum(x for _, x in got), sum(row[i] for i, _ in got)
        if any(abs(x / z - row[i] / zw) > 1e-6 for i, x in got):
            return (name, f"{name}: draw probabilities {got} for {row}")
    return None


def from_cex(unit, obligation, cex):
    return None
