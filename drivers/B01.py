import torch

from fairseq2.nn.batch_layout import BatchLayout

RULE = ("exhaustive small shapes and lists of lengths and random larger ones on the real BatchLayout, every position checked; "
        "non-trivial: padded layouts")


def lists(n, hi):
    if n == 0:
        yield []
        return
    for r in lists(n - 1, hi):
        for x in range(0, hi + 1):
            yield r + [x]


def cases(rng, tier):
    for W in range(-1, 5):
        for n in range(0, 4):
            for ls in lists(n, max(W + 1, 1)):
                yield {"shape": [W], "lens": ls, "packed": True}
                yield {"shape": [n, W], "lens": ls, "packed": False}
        yield {"shape": [W], "lens": None, "packed": True}
        for n in range(0, 4):
            yield {"shape": [n, W], "lens": None, "packed": False}
            yield {"shape": [n, W], "lens": [1] * (n + 1), "packed": False}
    for sh in ([], [2, 3], [2, 3, 4]):
        yield {"shape": sh, "lens": None, "packed": True}
    for sh in ([], [3], [2, 3, 4]):
        yield {"shape": sh, "lens": None, "packed": False}
    while True:
        W = rng.randint(1, 40)
        if rng.random() < 0.5:
            ls, t = [], 0
            while t < W and rng.random() < 0.85:
                x = rng.randint(1, min(8, W - t) + (rng.random() < 0.05))
                ls.append(x)
                t += x
            yield {"shape": [W], "lens": ls, "packed": True}
        else:
            n = rng.randint(1, 6)
            ls = [W if rng.random() < 0.4 else rng.randint(1, W + (rng.random() < 0.03)) for _ in range(n)]
            yield {"shape": [n, W], "lens": ls, "packed": False}


def nontrivial(i):
    return bool(i["lens"]) and (sum(i["lens"]) < i["shape"][0] if i["packed"] else min(i["lens"]) < i["shape"][-1])


def check(inp):
    shape, lens, packed = tuple(inp["shape"]), inp["lens"], inp["packed"]
    ok = len(shape) == (1 if packed else 2) and shape[-1] >= 1
    if ok:
        W = shape[-1]
        want = lens if lens is not None else ([W] if packed else [W] * shape[0])
        ok = all(x >= 1 for x in want) and (sum(want) <= W if packed else len(want) == shape[0] and all(x <= W for x in want))
    try:
        r = BatchLayout(shape, lens, packed=packed)
    except ValueError:
        return "lengths that fit are rejected" if ok else None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    if not ok:
        return "lengths that cannot fit are accepted"
    rows = [[]] if packed else []
    begins = [0]
    for x in want:
        if packed:
            rows[0] += list(range(x))
            begins.append(begins[-1] + x)
        else:
            rows.append(list(range(x)) + [-1] * (W - x))
            begins.append(begins[-1] + W)
    if packed:
        rows[0] += [-1] * (W - len(rows[0]))
        rows = rows[0]
    pos = r.position_indices.tolist()
    if tuple(r.position_indices.shape) != shape or pos != rows:
        return f"position indices {pos} instead of {rows}"
    if list(r.seq_begin_indices) != begins or r.seq_begin_indices_pt.tolist() != begins:
        return f"boundaries {list(r.seq_begin_indices)} instead of {begins}"
    if list(r.seq_lens) != want or r.seq_lens_pt.tolist() != want:
        return f"lengths {list(r.seq_lens)}"
    if want and (r.min_seq_len, r.max_seq_len) != (min(want), max(want)):
        return f"least and greatest length {r.min_seq_len}, {r.max_seq_len} of {want}"
    pad = any(x == -1 for x in (rows if packed else sum(rows, [])))
    if r.width != W or r.packed != packed or r.padded != pad:
        return f"width {r.width}, packed {r.packed}, padded {r.padded}"
    b = torch.zeros(shape + (2,))
    q = BatchLayout.of(b, lens, packed=packed)
    if not torch.equal(q.position_indices, r.position_indices) or q.packed != packed or q.width != W or list(q.seq_lens) != want:
        return "another layout for a batch tensor of that shape"
    return None


def from_cex(unit, obligation, cex):
    return None
