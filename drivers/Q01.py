import math

import torch

import fairseq2.recipe  # noqa: F401
from fairseq2.models.transformer.attention_bias import (ALiBiAttentionBias, AttentionBiasCache, CausalAttentionBias, ChunkedAttentionBias, IdentityBias,
                                                        materialize_attention_bias, maybe_get_attention_bias_tensor)
from fairseq2.models.transformer.sdpa.naive import NaiveSDPA
from fairseq2.models.transformer.sdpa.soft_capped import SoftCappedSDPA
from fairseq2.models.transformer.sdpa.torch import TorchSDPA
from fairseq2.nn import BatchLayout

RULE = ("random biases (identity, causal, windowed, chunked, ALiBi) over random pairs of layouts (full, padded, packed) against the permitted pairs computed one by "
        "one, also through the real naive, PyTorch and soft-capped attention; non-trivial: cases in which some pair is not permitted")
INF = float("inf")


def cases(rng, tier):
    for kind in ("identity", "causal", "windowed", "chunked", "alibi"):
        for q in range(1, 6):
            for k in range(1, 6):
                for w in range(1, 5) if kind in ("windowed", "chunked") else (2,):
                    yield {"kind": kind, "w": w, "q": [q], "k": [k], "qw": q, "kw": k, "packed": False, "seed": q * 7 + k}
    while True:
        kind = rng.choice(["identity", "causal", "windowed", "chunked", "alibi"])
        n = rng.randint(1, 3)
        packed = rng.random() < 0.3
        q = [rng.randint(1, 5) for _ in range(n)]
        k = [rng.randint(1, 5) for _ in range(n)] if rng.random() < 0.5 else list(q)
        if rng.random() < 0.2:
            q = [1] * n
        if kind == "chunked":
            k = [max(a, b) for a, b in zip(q, k)]
        f = sum if packed else max
        yield {"kind": kind, "w": rng.randint(1, 5), "q": q, "k": k, "qw": f(q) + rng.choice([0, 0, 1, 2]), "kw": f(k) + rng.choice([0, 0, 1, 2]), "packed": packed,
               "seed": rng.randrange(10 ** 6)}


def allowed(kind, w, q, k, i, j):
    p = i + k - q
    if kind == "identity":
        return True
    if j > p:
        return False
    if kind == "windowed":
        return j > p - w
    if kind == "chunked":
        return j // w == p // w
    return True


def nontrivial(inp):
    return inp["kind"] != "identity" or inp["kw"] > max(inp["k"])


def bias_of(inp):
    k, w = inp["kind"], inp["w"]
    return {"identity": IdentityBias, "causal": CausalAttentionBias, "windowed": lambda: CausalAttentionBias(attn_window_len=w),
            "chunked": lambda: ChunkedAttentionBias(w), "alibi": lambda: ALiBiAttentionBias(2)}[k]()


def expected(inp):
    """For every row of the batch: a list of (query position, {key position: bias per head}) for real queries."""
    kind, w = inp["kind"], inp["w"]
    slopes = [2.0 ** (-8 / 2 * (h + 1)) for h in range(2)]
    rows = []
    qo = ko = 0
    row = []
    for q, k in zip(inp["q"], inp["k"]):
        for i in range(q):
            row.append((qo + i, {ko + j: [s * j if kind == "alibi" else 0.0 for s in slopes] for j in range(k) if allowed(kind, w, q, k, i, j)}))
        if inp["packed"]:
            qo, ko = qo + q, ko + k
        else:
            rows.append(row)
            row = []
    return rows or [row]


def check(inp):
    try:
        return check_(inp)
    except Exception as ex:  # noqa: BLE001
        import traceback
        return ("error", f"{type(ex).__name__}: {ex} in {traceback.extract_tb(ex.__traceback__)[-1].name}")


def check_(inp):
    kind, packed, n = inp["kind"], inp["packed"], len(inp["q"])
    if kind == "chunked" and any(a > b for a, b in zip(inp["q"], inp["k"])):
        return None
    Q, K = inp["qw"], inp["kw"]
    ql = BatchLayout((Q,) if packed else (n, Q), inp["q"], packed=packed)
    kl = BatchLayout((K,) if packed else (n, K), inp["k"], packed=packed)
    bias = bias_of(inp)
    want = expected(inp)
    t = materialize_attention_bias(bias, ql, kl, torch.device("cpu"), torch.float32)
    full = t
    while full.ndim < 4:
        full = full.unsqueeze(0)
    full = full.expand(len(want), 2, Q, K)
    for b, row in enumerate(want):
        real = {i for i, _ in row}
        for i, ks in row:
            for j in range(K):
                for h in range(2):
                    v = full[b, h, i, j].item()
                    if j in ks:
                        if abs(v - ks[j][h]) > 1e-5:
                            return ("materialized", f"query {i} of row {b} may attend to key {j}, but its bias is {v}")
                    elif v != -INF:
                        return ("materialized", f"query {i} of row {b} may not attend to key {j}, but its bias is {v}")
        for i in set(range(Q)) - real:
            for h in range(2):
                if not any(full[b, h, i, j].item() > -INF for j in range(K)):
                    return ("padding queries", f"padding query {i} of row {b} has no key, so its attention is not a number")
    g = torch.Generator().manual_seed(inp["seed"])
    lead = () if packed else (n,)
    q = torch.randn(*lead, Q, 2, 4, generator=g)
    k, v = torch.randn(*lead, K, 2, 4, generator=g), torch.randn(*lead, K, 2, 3, generator=g)
    cache = AttentionBiasCache()
    r = maybe_get_attention_bias_tensor(bias, q, ql, kl, cache)
    if r is None:
        for b, row in enumerate(want):
            for i, ks in row:
                if len(ks) != K or kind == "alibi":
                    return ("omitted", f"the bias is omitted, but query {i} of row {b} may attend to {sorted(ks)} of {K} keys only")
    elif not torch.equal(r, t):
        return ("cached", "another bias is returned")
    elif maybe_get_attention_bias_tensor(bias, q, ql, kl, cache) is not r:
        return ("cached", "the bias is not cached")
    for S, scale in ((NaiveSDPA, None), (NaiveSDPA, 0.7), (TorchSDPA, None), (TorchSDPA, 0.7), (SoftCappedSDPA, None)):
        m = S(bias, **({"scale": scale} if scale else {}))
        m.eval()
        out, wts = m(q, ql, k, kl, v, AttentionBiasCache())
        if out.isnan().any() and all(ks for row in want for _, ks in row):
            return ("numbers", f"the attention of {S.__name__} is not a number")
        o = out.unsqueeze(0) if packed else out
        qq, kk, vv = (x.unsqueeze(0) if packed else x for x in (q, k, v))
        for b, row in enumerate(want):
            for i, ks in row:
                if not ks:
                    continue
                for h in range(2):
                    js = sorted(ks)
                    l = [float(qq[b, i, h] @ kk[b, j, h]) * (scale or 0.5) for j in js]
                    if S is SoftCappedSDPA:
                        l = [math.tanh(x / 30.0) * 30.0 for x in l]
                    l = [x + ks[j][h] for x, j in zip(l, js)]
                    mx = max(l)
                    e = [math.exp(x - mx) for x in l]
                    ref = sum(a / sum(e) * vv[b, j, h] for a, j in zip(e, js))
                    if not torch.allclose(o[b, i, h], ref, atol=1e-3):
                        return (f"attention of {S.__name__}", f"query {i} of row {b} attends to other keys than {js}")
    return None


def from_cex(unit, obligation, cex):
    kind = {"causal": "windowed" if "window" in cex else "causal", "chunked": "chunked", "identity": "identity", "alibi": "alibi"}.get(unit)
    if kind is None:
        return None
    q, k, w = (int(cex.get(a, b)) for a, b in (("q_len", 1), ("k_len", 1), ("window" if unit == "causal" else "chunk", 1)))
    if not (1 <= q <= 40 and 1 <= k <= 40):
        return None
    return {"kind": kind, "w": max(w, 1), "q": [q], "k": [k], "qw": q, "kw": k, "packed": False, "seed": 1}
