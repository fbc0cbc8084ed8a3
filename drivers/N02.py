from drivers import boot  # noqa: F401

import torch

from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor

RULE = ("random and exhaustive small sequences over small vocabularies; every score after the real processors compared with "
        "an oracle that searches each sequence for the n-gram or banned sequence a token would complete; non-trivial: "
        "cases where some but not all tokens are banned")


def cases(rng, tier):
    for g in (1, 2, 3, 4):
        for s in range(1, 6):
            for n in (1, 2, 3):
                yield {"kind": "ngram", "g": g, "V": 3, "seqs": [[rng.randrange(3) for _ in range(s)] for _ in range(n)], "lprob": bool(s % 2)}
    yield {"kind": "size", "g": 0}
    yield {"kind": "banned", "V": 3, "banned": [[1], []], "seqs": [[0]], "lprob": False}
    yield {"kind": "banned", "V": 3, "banned": [], "seqs": [[0]], "lprob": False}
    while True:
        V = rng.choice([2, 2, 3, 4, 7])
        n, s = rng.randint(1, 4), rng.randint(1, 12)
        seqs = [[rng.randrange(V) for _ in range(s)] for _ in range(n)]
        if rng.random() < 0.2:
            period = rng.randint(1, 3)
            seqs = [[q[i % period] for i in range(s)] for q in seqs]
        if rng.random() < 0.5:
            yield {"kind": "ngram", "g": rng.choice([1, 2, 2, 3, 4, s, s + 1, s + 2]), "V": V, "seqs": seqs, "lprob": rng.random() < 0.5}
        else:
            b = rng.choice([0, 1, 1, 2, 3, 6])
            fix = rng.choice([None, None, 1, 2, 3])
            banned = []
            for _ in range(b):
                ln = fix or rng.randint(1, 4)
                q = rng.choice(seqs)
                k = min(ln - 1, len(q))
                pre = [rng.randrange(V) for _ in range(ln - 1 - k)] + (q[len(q) - k:] if rng.random() < 0.6 else [rng.randrange(V) for _ in range(k)])
                banned.append(pre + [rng.randrange(V)])
            yield {"kind": "banned", "V": V, "banned": banned, "seqs": seqs, "lprob": rng.random() < 0.5}


def oracle(inp):
    out = []
    for q in inp["seqs"]:
        row = set()
        for v in range(inp["V"]):
            s = q + [v]
            if inp["kind"] == "ngram":
                g = inp["g"]
                if len(s) > g and any(s[i:i + g] == s[-g:] for i in range(len(s) - g)):
                    row.add(v)
            elif any(len(s) >= len(b) and s[-len(b):] == b for b in inp["banned"]):
                row.add(v)
        out.append(row)
    return out


def nontrivial(inp):
    return inp["kind"] != "size" and any(0 < len(r) < inp["V"] for r in oracle(inp))


def check(inp):
    try:
        if inp["kind"] == "size":
            try:
                NGramRepeatBlockProcessor(inp["g"])
            except ValueError:
                return None if inp["g"] == 0 else "a positive n-gram size is rejected"
            return "an n-gram size of zero is accepted" if inp["g"] == 0 else None
        if inp["kind"] == "ngram":
            p = NGramRepeatBlockProcessor(inp["g"])
        else:
            bad = any(not b for b in inp["banned"])
            try:
                p = BannedSequenceProcessor([torch.tensor(b, dtype=torch.int64) for b in inp["banned"]])
            except ValueError as e:
                return None if bad else f"banned sequences are rejected: {e}"
            if bad:
                return "an empty banned sequence is accepted"
        seqs = torch.tensor(inp["seqs"])
        n, V = len(inp["seqs"]), inp["V"]
        before = -1.0 - torch.arange(n * V, dtype=torch.float32).reshape(n, V)
        if not inp["lprob"]:
            before = -before
        probs, keep = before.clone(), seqs.clone()
        p(seqs, probs, lprob=inp["lprob"])
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    if not torch.equal(seqs, keep):
        return "the sequences are changed"
    ban = -float("inf") if inp["lprob"] else 0.0
    for i, row in enumerate(oracle(inp)):
        for v in range(V):
            want = ban if v in row else before[i, v].item()
            if probs[i, v].item() != want:
                return f"{inp['kind']}: the score of token {v} after {inp['seqs'][i]} is {probs[i, v].item()} instead of {want}"
    return None


def from_cex(unit, obligation, cex):
    return None
