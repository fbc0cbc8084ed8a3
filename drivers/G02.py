import torch
import torch.distributed as dist

from fairseq2 import gang as gang_mod
from fairseq2.gang import FakeGang, Gangs, ProcessGroupGang

RULE = ("exhaustive small ranks, sizes and rank lists, and random larger ones, on the real FakeGang, ProcessGroupGang (with "
        "torch.distributed replaced by a recorder) and Gangs; non-trivial: boundary ranks")
CPU = torch.device("cpu")


def cases(rng, tier):
    for size in range(-1, 4):
        for rank in range(-2, 5):
            yield {"kind": "gang", "rank": rank, "size": size}
    for bits in range(64):
        yield {"kind": "layout", "ranks": [bits >> i & 1 for i in range(6)]}
    while True:
        size = rng.randint(1, 6)
        lst = [rng.choice([rng.randrange(size), rng.randrange(size), rng.randint(-1, size)]) for _ in range(rng.randint(0, 4))]
        if rng.random() < 0.6:
            lst = list(dict.fromkeys(lst))
        yield {"kind": rng.choice(["sub", "pg"]), "rank": rng.randrange(size), "size": size, "ranks": lst}
        if rng.random() < 0.2:
            yield {"kind": "layout", "ranks": [rng.choice([0, 0, 1, 2]) for _ in range(6)]}


def nontrivial(inp):
    return inp["kind"] != "gang" or inp["rank"] in (0, inp["size"], inp["size"] - 1, -1)


def check(inp):
    saved = {n: getattr(dist, n) for n in ("get_rank", "get_world_size", "get_backend", "new_group")}
    try:
        if inp["kind"] == "gang":
            rank, size = inp["rank"], inp["size"]
            try:
                g = FakeGang(CPU, rank=rank, size=size)
            except ValueError:
                return f"rank {rank} of {size} rejected" if 0 <= rank < size else None
            if not 0 <= rank < size:
                return f"rank {rank} of {size} accepted"
            return None if (g.rank, g.size, g.device) == (rank, size, CPU) else "wrong gang"
        if inp["kind"] == "layout":
            r = inp["ranks"]
            gs = [FakeGang(CPU, rank=x, size=3) for x in r]
            ok = r[0] != 0 or (r[1] == r[4] == r[5] == 0)
            try:
                Gangs(root=gs[0], dp=gs[1], rdp=gs[2], sdp=gs[3], tp=gs[4], pp=gs[5])
            except ValueError:
                return f"layout {r} rejected" if ok else None
            return None if ok else f"layout {r} accepted"
        rank, size, ranks = inp["rank"], inp["size"], inp["ranks"]
        ok = len(set(ranks)) == len(ranks) and all(0 <= r < size for r in ranks)
        calls = []
        if inp["kind"] == "sub":
            g = FakeGang(CPU, rank=rank, size=size)
        else:
            dist.get_rank = lambda *a, **k: rank
            dist.get_world_size = lambda *a, **k: size
            dist.get_backend = lambda *a, **k: "gloo"
            dist.new_group = lambda r, **k: calls.append(list(r)) or object()
            g = ProcessGroupGang(dist.group.WORLD, CPU)
        try:
            s = g.create_gang(ranks)
        except ValueError:
            return f"ranks {ranks} of {size} rejected" if ok else f"group created from {calls}" if calls else None
        if not ok:
            return f"ranks {ranks} of {size} accepted"
        if (s is None) != (rank not in ranks):
            return f"rank {rank} gets {s} for {ranks}"
        if inp["kind"] == "pg":
            return None if calls == [list(ranks)] else f"groups created: {calls}, must be {ranks}"
        if s is not None and (s.rank, s.size) != (ranks.index(rank), len(ranks)):
            return f"rank {rank} is at {s.rank} of {s.size} in {ranks}"
        return None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    finally:
        for n, f in saved.items():
            setattr(dist, n, f)


def from_cex(unit, obligation, cex):
    if unit == "rank" and "rank" in cex:
        return {"kind": "gang", "rank": cex["rank"], "size": cex["size"]}
    if unit == "layout" and "root_rank" in cex:
        r = [min(cex.get(f"{n}_rank", 0), 2) for n in ("root", "dp", "rdp", "sdp", "tp", "pp")]
        return {"kind": "layout", "ranks": r}
    return None
