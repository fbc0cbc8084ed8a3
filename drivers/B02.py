import torch

import fairseq2.recipe  # noqa: F401
from fairseq2.datasets.batch import Seq2SeqBatch, SequenceBatch
from fairseq2.error import InvalidOperationError

RULE = ("exhaustive small shapes, lists of lengths and masks and random larger ones on the real batches, counters and both sides of the split compared "
        "with the sequences themselves; non-trivial: batches with padding")


def lists(n, hi):
    if n == 0:
        yield []
        return
    for r in lists(n - 1, hi):
        for x in range(0, hi + 1):
            yield r + [x]


def one(shape, lens, packed, mask=None):
    return {"target": [list(shape), lens], "source": None, "packed": packed, "mask": mask}


def cases(rng, tier):
    for W in range(0, 4):
        for packed in (True, False):
            yield one([W] if packed else [2, W], None, packed)
            yield one([], None, packed)
            yield one([3], [1] * 3, False)
            for n in range(0, 4):
                for ls in lists(n, W + 1):
                    for sh in ([W] if packed else [n, W],) if n else ([W] if packed else [0, W], [W] if packed else [2, W]):
                        for m in (None, 3, 0):
                            yield one(sh, ls, packed, m)
                if not packed:
                    yield one([n + 1, W], [1] * n, packed)
    for m in ([3], [2, 2], [2, 3, 1], [3, 2]):
        yield {**one([2, 3], [3, 2], False), "mask_shape": m, "mask": 1}
        yield {**one([3], [1, 2], True), "mask_shape": m, "mask": 1}

    def some(packed, n, w, few):
        if packed:
            ls = [rng.randint(1, 4) for _ in range(n)]
            if rng.random() < 0.3:
                ls[-1] = 1
            return [[sum(ls) + rng.choice([0, 0, 1, 3, -1])] + few, ls if rng.random() < 0.9 else None]
        ls = [w if rng.random() < 0.3 else rng.randint(1, w + (rng.random() < 0.05)) for _ in range(n)]
        if rng.random() < 0.8:
            ls = [max(2, x) if w > 1 else x for x in ls]
        return [[n, w] + few, ls if rng.random() < 0.8 else None]

    while True:
        packed = rng.random() < 0.5
        n = rng.randint(1, 5)
        t = some(packed, n, rng.randint(1, 8), rng.choice([[], [2]]))
        src = some(packed, n if rng.random() < 0.9 else n + 1, rng.randint(1, 8), rng.choice([[], [2]])) if rng.random() < 0.6 else None
        yield {"target": t, "source": src, "packed": packed, "mask": rng.choice([None, rng.randint(0, 1000)])}


def nontrivial(i):
    sh, ls = i["target"]
    return bool(ls) and bool(sh) and (sum(ls) < sh[0] if i["packed"] else min(ls) < sh[-1])


def fits(sh, ls, packed):
    """The lengths the batch must have, or None."""
    if len(sh) < (1 if packed else 2):
        return None
    W = sh[0] if packed else sh[1]
    if W < 1 or ls == []:
        return None
    want = ls if ls is not None else ([W] if packed else [W] * sh[0])
    if any(x < 1 for x in want) or (sum(want) > W if packed else len(want) != sh[0] or any(x > W for x in want)):
        return None
    return want


def padding(sh, want, packed):
    return sh[0] - sum(want) if packed else sum(sh[1] - x for x in want)


def check(inp):
    packed, (sh, ls) = inp["packed"], inp["target"]
    k = 1 if packed else 2
    ls0 = None if ls is None else list(ls)
    t = torch.arange(max(1, int(torch.tensor(sh).prod())) if sh else 1)[: int(torch.tensor(sh).prod()) if sh else 1].reshape(sh)
    m, mfit = None, True
    if inp["mask"] is not None:
        msh = inp.get("mask_shape", sh[:k])
        mfit = list(msh) == list(sh[:k])
        m = torch.rand(msh, generator=torch.Generator().manual_seed(inp["mask"])) < 0.6
        if inp["mask"] == 0:
            m = torch.zeros(msh, dtype=torch.bool)
    want, src = fits(sh, ls, packed), None
    ok = want is not None and mfit
    ex = object()
    try:
        if inp["source"] is None:
            b = SequenceBatch(t, ls, packed=packed, target_mask=m, example=ex)
        else:
            ssh, sls = inp["source"]
            src = fits(ssh, sls, packed)
            ok = ok and src is not None and (len(src) == len(want) if packed else ssh[0] == sh[0])
            s = torch.zeros(ssh)
            b = Seq2SeqBatch(s, sls, t, ls, packed=packed, target_mask=m, example=ex)
    except ValueError:
        return "a batch that fits is rejected" if ok else None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    if not ok:
        return "a batch that does not fit is accepted"
    pad = padding(sh, want, packed) + (padding(ssh, src, packed) if src else 0)
    exp = {"num_elements": sum(want) + (sum(src) if src else 0), "num_examples": len(want), "padding": pad, "batch_size": 1 if packed else sh[0],
           "num_target_elements": sum(want) if m is None else int(m.to(torch.int64).sum())}
    if src:
        exp["num_source_elements"] = sum(src)
    for a, v in exp.items():
        got = getattr(b, a)
        if got != v:
            return f"{a} is {got} instead of {v}"
    short = (len(want) == 1 and want[0] == 1) if packed else 1 in want
    try:
        x, y = b.as_auto_regressive()
    except InvalidOperationError:
        return None if short else "a batch without sequences of length one cannot be split"
    except Exception as e:
        if isinstance(e, ValueError) and not short and sh[0 if packed else 1] > 1 and want:
            return f"splitting: {type(e).__name__}: {e}"
        return None if not want else f"splitting: {type(e).__name__}: {e}"
    if short:
        return "a sequence of length one is split"
    if ls is not None and ls != ls0:
        return f"the split changes the lengths of the batch to {ls}"
    less = (want[:-1] + ([want[-1] - 1] if want[-1] > 1 else [])) if packed else [v - 1 for v in want]
    d = 0 if packed else 1
    W = sh[d]
    for what, p, lo, xs, xl in (("input", x, 0, "seqs" if src is None else "target_seqs", "seq_lens" if src is None else "target_seq_lens"), ("target", y, 1, "seqs", "seq_lens")):
        if not torch.equal(getattr(p, xs), t.narrow(d, lo, W - 1)):
            return f"the {what} is not the batch without its {'first' if lo else 'last'} position"
        if list(getattr(p, xl)) != less:
            return f"the {what} has lengths {getattr(p, xl)} instead of {less}"
    if src is not None and (x.source_seqs is not s or list(x.source_seq_lens) != src[: len(less)]):
        return "the source changes"
    if x.target_mask is not None or (m is None) != (y.target_mask is None) or (m is not None and not torch.equal(y.target_mask, m.narrow(d, 1, W - 1))):
        return "the target mask is not that of the targets"
    if x.example is not ex:
        return "the example is lost"
    return None


def from_cex(unit, obligation, cex):
    return None
