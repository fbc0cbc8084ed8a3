import drivers.boot  # noqa
from unittest.mock import patch

import torch
import torch.distributed.distributed_c10d  # noqa

import fairseq2.recipe  # noqa
import fairseq2.gang as gang_mod
from fairseq2.gang import FakeGang, Gang, Gangs, create_fsdp_gangs, create_parallel_gangs

RULE = ("the real functions run as every process of a world of up to 24 processes with a gang that records the sub-gangs made: all "
        "processes make the same ones in the same order, they are the rows and columns, positions match; non-trivial: both sizes above one")


class Rec(Gang):
    """A gang of the given world ranks; this process is one of them."""
    rank = size = device = supports_process_group = None

    def __init__(self, ranks, me, device, groups, log):
        self.ranks, self.me, self.device, self.supports_process_group, self.log = list(ranks), me, device, groups, log
        self.rank, self.size = self.ranks.index(me), len(self.ranks)

    def create_gang(self, ranks):
        ranks = list(ranks)
        if len(set(ranks)) != len(ranks) or any(not 0 <= r < self.size for r in ranks):
            raise ValueError("ranks")
        own = [self.ranks[r] for r in ranks]
        self.log.append(own)
        return Rec(own, self.me, self.device, self.supports_process_group, self.log) if self.me in own else None

    def close(self): pass
    def as_process_group(self): return self
    def barrier(self): pass
    def all_reduce(self, tensor, op): pass
    def all_gather(self, output_tensor, input_tensor): pass
    def all_gather_to_list(self, output_tensors, input_tensor): pass
    def broadcast(self, tensor, source_rank=0): pass
    def broadcast_objects(self, objects, source_rank=0): pass


def split_group(parent_pg=None, split_ranks=None, **kw):
    out = None
    for ranks in split_ranks:
        g = parent_pg.create_gang(ranks)
        out = out or g
    return out


def cases(rng, tier):
    while True:
        yield {"world": rng.randint(1, 24), "tp": rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 24, 0, -1]), "intra": rng.choice([None, None, 1, 2, 3, 4, 6, 12, 0]),
               "cuda": rng.random() < 0.4, "groups": rng.random() < 0.7}


def nontrivial(inp):
    return inp["tp"] > 1 and inp["world"] // inp["tp"] > 1


def ranks_of(g, me):
    return g.ranks if isinstance(g, Rec) else [me] if isinstance(g, FakeGang) and g.size == 1 and g.rank == 0 else None


def partition(name, groups, positions, world, want, log):
    for me in range(world):
        g, pos = groups[me], positions[me]
        if g != want[me]:
            return (name, f"{name}: process {me} of {world} is in {g} instead of {want[me]}")
        if g[pos] != me:
            return (name, f"{name}: process {me} of {world} is at position {pos} of {g}")
    return None


def check(inp):
    W, tp, intra = inp["world"], inp["tp"], inp["intra"]
    dev = torch.device("cuda", 0) if inp["cuda"] else torch.device("cpu")
    groups = inp["groups"] and inp["cuda"]
    logs, res, two = [], [], []
    with patch("torch.distributed.distributed_c10d.split_group", split_group), patch.object(gang_mod, "ProcessGroupGang", lambda pg, device: pg):
        for me in range(W):
            log = []
            root = Rec(range(W), me, dev, groups, log)
            ok = tp >= 1 and W % tp == 0
            try:
                g = create_parallel_gangs(root, tp_size=tp)
            except ValueError as e:
                if ok:
                    return ("parallel", f"world {W}, tensor parallel size {tp} is rejected: {e!r}")
                return None
            except Exception as e:  # noqa
                return ("parallel", f"world {W}, tensor parallel size {tp}, process {me}: {e!r}")
            if not ok:
                return ("parallel", f"world {W}, tensor parallel size {tp} is not rejected")
            res.append(g)
            logs.append(list(log))
    for me, g in enumerate(res):
        if logs[me] != logs[0]:
            return ("parallel", f"world {W}, tensor parallel size {tp}: process {me} makes {logs[me]}, process 0 makes {logs[0]}")
        if ranks_of(g.pp, me) != [me] or ranks_of(g.sdp, me) != [me] or g.rdp is not g.dp or ranks_of(g.root, me) != list(range(W)):
            return ("parallel", f"world {W}, tensor parallel size {tp}, process {me}: pipeline {g.pp}, sharded {g.sdp} or replicated gang {g.rdp}")
    n = W // tp
    err = partition("data parallel", [ranks_of(g.dp, m) for m, g in enumerate(res)], [g.dp.rank for g in res], W,
                    [[i * tp + m % tp for i in range(n)] for m in range(W)], logs[0])
    err = err or partition("tensor parallel", [ranks_of(g.tp, m) for m, g in enumerate(res)], [g.tp.rank for g in res], W,
                           [[m // tp * tp + j for j in range(tp)] for m in range(W)], logs[0])
    if err:
        return err
    for m, g in enumerate(res):
        if g.dp.rank * g.tp.size + g.tp.rank != m:
            return ("parallel", f"process {m}: positions {g.dp.rank}, {g.tp.rank}")
    # subdivision of a data parallel gang of W processes
    ok = intra is None or intra > 1 and W % intra == 0
    logs = []
    with patch("torch.distributed.distributed_c10d.split_group", split_group), patch.object(gang_mod, "ProcessGroupGang", lambda pg, device: pg):
        for me in range(W):
            log = []
            root, one = Rec(range(W), me, dev, groups, log), FakeGang(dev)
            base = Gangs(root=root, dp=root, rdp=root, sdp=one, tp=one, pp=one)
            try:
                g = create_fsdp_gangs(base, intra)
            except ValueError as e:
                return ("fsdp", f"{W} processes, intra-node size {intra} is rejected: {e!r}") if ok else None
            except Exception as e:  # noqa
                return ("fsdp", f"{W} processes, intra-node size {intra}, process {me}: {e!r}")
            if not ok:
                return ("fsdp", f"{W} processes, intra-node size {intra} is not rejected")
            if g.root is not root or g.dp is not root or g.tp is not one or g.pp is not one:
                return ("fsdp", "a gang is not kept")
            two.append(g)
            logs.append(list(log))
    for me in range(W):
        if logs[me] != logs[0]:
            return ("fsdp", f"{W} processes, intra-node size {intra}: process {me} makes {logs[me]}, process 0 makes {logs[0]}")
    k = W if intra is None else intra
    return (partition("intra-node", [ranks_of(g.sdp, m) for m, g in enumerate(two)], [g.sdp.rank for g in two], W,
                      [[m // k * k + j for j in range(k)] for m in range(W)], logs[0])
            or partition("inter-node", [ranks_of(g.rdp, m) for m, g in enumerate(two)], [g.rdp.rank for g in two], W,
                         [[i * k + m % k for i in range(W // k)] for m in range(W)], logs[0]))


def from_cex(unit, obligation, cex):
    v = (cex or {}).get("inputs", cex) or {}

    def num(k, d):
        try:
            return max(-2, min(int(v.get(k, d)), 6))
        except (TypeError, ValueError):
            return d
    key = "tp_size" if unit.startswith("parallel") else "intra_node_size"
    m, n, rem = max(num(key, 2), 1), max(num("outer", 2), 1), max(num("remainder", 0), 0)
    w = {"world": n * m + rem, "tp": 1, "intra": None, "cuda": v.get("device") == 1, "groups": v.get("process_groups") == 1}
    if unit.startswith("parallel"):
        w["tp"] = num("bad_tp_size", m) if "bad_tp_size" in v else m
    else:
        w["intra"] = num("bad_intra", m) if "bad_intra" in v else m
    return w
