import torch

import fairseq2.recipe  # noqa: F401
from fairseq2.models.transformer.multihead_attention import FullAttentionState, LocalAttentionState, LocalAttentionStateFactory, StaticAttentionState
from fairseq2.nn.incremental_state import IncrementalStateBag

RULE = ("random histories of constructions, appends of 1-4 steps and reorders of the real FullAttentionState and LocalAttentionState (also through "
        "IncrementalStateBag) against the list of all steps; exhaustive small step counters; non-trivial: histories with an append and a reorder")


def cases(rng, tier):
    for M in range(-1, 5):
        for vs in ([], [1], [1, 1], [2], [0, 3], [1, 4, 1], [5, 1], [3, 1, 1]):
            yield {"kind": "counter", "max": M, "values": vs}
    yield {"kind": "bag"}
    for win in range(1, 5):
        for a in range(1, 6):
            for b in range(1, 5):
                yield {"kind": "local", "max": 20, "win": win, "inc": (a + b) % 4 or None, "first": a, "ops": [b, 1], "seed": a * 7 + b}
    while True:
        inc = rng.choice([None, 1, 2, 3, 4, 16])
        first = rng.randint(1, 6)
        ops = [rng.choice([1, 1, 2, 3, 4, -rng.randint(1, 3)]) for _ in range(rng.randint(0, 7))]
        kind = rng.choice(["full", "local"])
        total = first + sum(max(o, 0) for o in ops)
        mx = total + rng.randint(0, 3) if kind == "full" else rng.randint(1, total + 3)
        yield {"kind": kind, "max": mx, "win": rng.randint(1, 7), "inc": inc, "first": first, "ops": ops, "seed": rng.randrange(10 ** 6)}


def nontrivial(i):
    return i["kind"] in ("full", "local") and any(o > 0 for o in i["ops"]) and any(o < 0 for o in i["ops"])


def counter(inp):
    M, bag = inp["max"], None
    bag = IncrementalStateBag(M)
    at = 0
    for v in inp["values"]:
        try:
            bag.increment_step_nr(v) if v != 1 else bag.increment_step_nr()
            if at + v >= M:
                return f"the counter goes from {at} by {v} with a maximum of {M}"
            at += v
        except ValueError:
            if at + v < M:
                return f"an increment of {v} at {at} is rejected with a maximum of {M}"
        if bag.step_nr != at:
            return f"the counter is {bag.step_nr} instead of {at}"
    return None


class Rec(StaticAttentionState):
    def __init__(self):
        self.got = []

    def reorder(self, o):
        self.got.append(o)


def bag_case():
    bag = IncrementalStateBag(10)
    ms = [torch.nn.Identity() for _ in range(4)]
    ss = [Rec() for _ in range(4)]
    for m, s in zip(ms, ss):
        bag.set_state(m, s)
    k = torch.zeros(1, 1, 1, 1)
    full = FullAttentionState(k, k, 5, None)
    bag.set_state(ms[3], full)
    for m, s in zip(ms[:3], ss):
        if bag.maybe_get_state(m, StaticAttentionState) is not s:
            return "a stored state is not returned"
        if bag.maybe_get_state(m, FullAttentionState) is not None:
            return "a state of another class is returned"
    if bag.maybe_get_state(ms[3], FullAttentionState) is not full or bag.maybe_get_state(ms[3], Rec) is not None:
        return "the last stored state is not returned"
    if bag.maybe_get_state(torch.nn.Identity(), StaticAttentionState) is not None:
        return "a state without a store"
    o = torch.tensor([0])
    bag.reorder(o)
    if any(len(s.got) != 1 or s.got[0] is not o for s in ss[:3]) or ss[3].got:
        return "states are not reordered once each"
    return None


def check(inp):
    if inp["kind"] == "counter":
        return counter(inp)
    if inp["kind"] == "bag":
        return bag_case()
    g = torch.Generator().manual_seed(inp["seed"])
    N, H, Dk, Dv = 3, 2, 2, inp.get("dv", 3 if inp["seed"] % 2 else 2)
    r = lambda n: (torch.rand(N, n, H, Dk, generator=g), torch.rand(N, n, H, Dv, generator=g))
    hk, hv = r(inp["first"])
    try:
        if inp["kind"] == "full":
            st = FullAttentionState(hk, hv, inp["max"], inp["inc"])
        elif inp["seed"] % 3:
            st = LocalAttentionState(hk, hv, inp["max"], inp["win"], inp["inc"])
        else:
            st = LocalAttentionStateFactory(inp["win"])(hk, hv, inp["max"], inp["inc"])
    except Exception as e:
        return f"no cache: {type(e).__name__}: {e}"
    bag = IncrementalStateBag(100)
    m = torch.nn.Identity()
    bag.set_state(m, st)
    W = 10 ** 9 if inp["kind"] == "full" else min(inp["max"], inp["win"])

    def bad(what):
        try:
            k, v = bag.maybe_get_state(m, type(st)).get()
        except Exception as e:
            return f"{what}: {type(e).__name__}: {e}"
        if not torch.equal(k, hk[:, -W:]) or not torch.equal(v, hv[:, -W:]):
            return f"{what}: the cache does not hold the last {min(W, hk.size(1))} of {hk.size(1)} steps"
        return None

    f = bad("at first")
    if f:
        return f
    for o in inp["ops"]:
        try:
            if o > 0:
                k, v = r(o)
                hk, hv = torch.cat([hk, k], 1), torch.cat([hv, v], 1)
                st.append(k, v)
            else:
                order = torch.randint(0, N, (-o + 1,), generator=g)
                N = -o + 1
                hk, hv = hk[order], hv[order]
                bag.reorder(order)
        except Exception as e:
            return f"operation {o}: {type(e).__name__}: {e}"
        f = bad(f"after {o}")
        if f:
            return f
    return None


def from_cex(unit, obligation, cex):
    try:
        if unit == "counter":
            return {"kind": "counter", "max": cex["max_num_steps"], "values": [cex["before"], cex.get("value", 1)]}
        if unit.startswith("bag"):
            return {"kind": "bag"}
        i = {"kind": unit.split(":")[0], "max": cex["max_seq_len"], "win": cex.get("window", 1), "inc": cex.get("increment"), "first": cex["steps"],
             "ops": [cex["input"]] if "input" in cex else [-1, 1], "seed": 1, "dv": min(cex["v_dim"], 9)}
        return i if max(i["max"], i["win"], i["first"], i["ops"][0]) < 500 else None
    except KeyError:
        return None
