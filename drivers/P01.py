import drivers.boot  # noqa
import shutil
import tempfile
import threading
from pathlib import Path
from types import SimpleNamespace

import torch

import fairseq2.recipe  # noqa
from fairseq2.file_system import LocalFileSystem
from fairseq2.gang import FakeGang, Gang, ReduceOperation
from fairseq2.model_checkpoint.common import reshard_tensor
from fairseq2.model_checkpoint.loader import ModelCheckpointLoadOptions
from fairseq2.model_checkpoint.native import _NativeModelCheckpointLoader
from fairseq2.nn import (ColumnShardedLinear, Linear, RowShardedLinear, ShardedEmbedding, StandardEmbedding,
                         VocabShardedEmbedding)
from fairseq2.nn.sharded import get_shard_dims
from fairseq2.ops.tensor_parallel import reduce

RULE = ("real sharded modules on every rank of an in-process gang (one thread per process) against the unsharded module: shards, "
        "output, gradients, unsharding; random resharding, native checkpoints loaded into other gangs, against slices of the full "
        "parameter; non-trivial: more than one process")
CPU = torch.device("cpu")


class Shared:
    def __init__(self, n):
        self.n, self.bar, self.slots = n, threading.Barrier(n, timeout=20), [None] * n

    def exchange(self, r, t):
        self.bar.wait()
        self.slots[r] = t.detach().clone()
        self.bar.wait()
        out = [x.clone() for x in self.slots]
        self.bar.wait()
        return out


class ThreadGang(Gang):
    rank = size = device = None
    supports_process_group = False

    def __init__(self, shared, rank):
        self.sh, self.rank, self.size, self.device = shared, rank, shared.n, CPU

    def close(self): pass
    def create_gang(self, ranks): raise NotImplementedError
    def as_process_group(self): raise NotImplementedError
    def barrier(self): self.sh.bar.wait()

    def all_reduce(self, tensor, op):
        ts = self.sh.exchange(self.rank, tensor)
        s = torch.stack(ts).sum(0) if op == ReduceOperation.SUM else torch.stack(ts).amax(0)
        tensor.copy_(s)

    def all_gather(self, output_tensor, input_tensor):
        output_tensor.copy_(torch.stack(self.sh.exchange(self.rank, input_tensor)))

    def all_gather_to_list(self, output_tensors, input_tensor):
        for o, t in zip(output_tensors, self.sh.exchange(self.rank, input_tensor), strict=True):
            o.copy_(t)

    def broadcast(self, tensor, source_rank=0):
        tensor.copy_(self.sh.exchange(self.rank, tensor)[source_rank])

    def broadcast_objects(self, objects, source_rank=0): raise NotImplementedError


def cases(rng, tier):
    while True:
        k = rng.choice(["module", "module", "reshard", "reshard", "native"])
        if k == "module":
            T = rng.choice([1, 2, 2, 3, 4])
            yield {"what": "module", "kind": rng.choice(["column", "row", "vocab", "embed"]), "T": T, "shard": rng.randint(1, 3),
                   "other": rng.randint(1, 4), "rem": rng.choice([0, 0, 0, 1]), "bias": rng.random() < 0.6, "flag": rng.random() < 0.5,
                   "shape": [rng.randint(1, 2), rng.randint(1, 3)], "seed": rng.randrange(1000), "pad": rng.random() < 0.3}
        elif k == "reshard":
            S, T = rng.randint(1, 6), rng.randint(1, 6)
            yield {"what": "reshard", "S": S, "T": T, "mult": rng.randint(1, 3), "dim": rng.choice([0, 1, None]), "D": rng.randint(1, 3)}
        else:
            yield {"what": "native", "P": rng.randint(1, 2), "S": rng.randint(1, 3), "D": rng.randint(1, 2), "T": rng.randint(1, 3),
                   "R": rng.randint(1, 2), "pp": rng.randint(1, 2), "dim": rng.choice([0, 1, None])}


def nontrivial(inp):
    return inp.get("T", 1) > 1


def lcm(a, b):
    import math
    return a * b // math.gcd(a, b)


def check(inp):
    return {"module": module, "reshard": reshard, "native": native}[inp["what"]](inp)


def reshard(inp):
    S, T, dim, D = inp["S"], inp["T"], inp["dim"], inp["D"]
    n = lcm(S, T) * inp["mult"] * (D if dim == 0 else 1)
    full = torch.arange(n * 2 * D, dtype=torch.float64).reshape((n, 2 * D) if dim != 1 else (2 * D, n))
    shards = [full for _ in range(S)] if dim is None else list(full.split(n // S, dim))
    splits = [[x.clone() for x in s.chunk(D, 0)] for s in shards]
    D = len(splits[0])
    for r in range(T):
        want = full if dim is None else full.split(n // T, dim)[r]
        try:
            got = reshard_tensor("w", [list(x) for x in splits], (S, D), (T, 1), (r, 0), {} if dim is None else {"w": dim})
        except Exception as e:  # noqa
            return ("reshard", f"resharding {S} to {T} (rank {r}, dim {dim}) of a parameter of {n}: {e!r}")
        if got.shape != want.shape or not torch.equal(got, want):
            return ("reshard", f"resharding {S} to {T} (rank {r}, dim {dim}) of a parameter of {n}: {got.tolist()} instead of {want.tolist()}")
    return None


def native(inp):
    P, S, D, T, R, pp, dim = (inp[k] for k in ("P", "S", "D", "T", "R", "pp", "dim"))
    n = lcm(S, T) * (D if dim == 0 else 1)
    fulls = {f"{p}.w": torch.arange(n * 2 * D, dtype=torch.float32).reshape((n, 2 * D) if dim != 1 else (2 * D, n)) + 1000 * p for p in range(P)}
    dims = {} if dim is None else {k: dim for k in fulls}
    tmp = Path(tempfile.mkdtemp(prefix="p01_"))
    try:
        for p in range(P):
            full = fulls[f"{p}.w"]
            for s in range(S):
                shard = full if dim is None else full.split(n // S, dim)[s]
                for d, split in enumerate(shard.chunk(D, 0)):
                    f = tmp / f"pp_{p:02d}" / f"tp_{s:02d}" / f"sdp_{d:02d}.pt"
                    f.parent.mkdir(parents=True, exist_ok=True)
                    torch.save({f"{p}.w": split.clone()}, f)
        fs = LocalFileSystem()
        tl = SimpleNamespace(load=lambda f, o=None: torch.load(f, weights_only=True))
        loader = _NativeModelCheckpointLoader(fs, tl, SimpleNamespace())
        for q in range(pp):
            for r in range(T):
                gangs = SimpleNamespace(pp=FakeGang(CPU, rank=q, size=pp), tp=FakeGang(CPU, rank=r, size=T), sdp=FakeGang(CPU, rank=R - 1, size=R))
                try:
                    got = dict(loader.lazy_load(tmp, dims, options=ModelCheckpointLoadOptions(gangs=gangs)))
                except Exception as e:  # noqa
                    return ("native", f"native checkpoint {P}x{S}x{D} into {pp}x{T}x{R}: {e!r}")
                for p in range(P):
                    if pp == P and q != p:
                        continue
                    k = f"{p}.w"
                    want = fulls[k] if dim is None else fulls[k].split(n // T, dim)[r]
                    if k not in got or got[k].shape != want.shape or not torch.equal(got[k], want):
                        return ("native", f"native checkpoint {P}x{S}x{D} into {pp}x{T}x{R}, rank {q}.{r}: parameter of stage {p}, dim {dim}: {got.get(k)} instead of {want}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return None


def module(inp):
    torch.manual_seed(inp["seed"])
    kind, T, D, other = inp["kind"], inp["T"], inp["T"] * inp["shard"] + (inp["rem"] if inp["T"] > 1 else 0), inp["other"]
    pad = 0 if inp["pad"] else None
    if kind in ("column", "row"):
        full = Linear(other, D, bias=inp["bias"]) if kind == "column" else Linear(D, other, bias=inp["bias"])
        with torch.no_grad():
            for p in full.parameters():
                p.copy_(torch.randn_like(p))
        x = torch.randn(*inp["shape"], full.input_dim)
    else:
        full = StandardEmbedding(D, other, pad) if kind == "vocab" else StandardEmbedding(other, D, pad)
        with torch.no_grad():
            full.weight.copy_(torch.randn_like(full.weight))
        x = torch.randint(0, full.num_embeddings, tuple(inp["shape"]))
    cls = {"column": ColumnShardedLinear, "row": RowShardedLinear, "vocab": VocabShardedEmbedding, "embed": ShardedEmbedding}[kind]
    flag = inp["flag"]
    dim = {"column": 0, "row": 1, "vocab": 0, "embed": 1}[kind]
    shared, out, errs = Shared(T), [None] * T, [None] * T
    fx = x.clone().requires_grad_() if x.is_floating_point() else x
    g = torch.randn(*inp["shape"], full.weight.shape[0] if kind in ("column", "row") else full.embed_dim)
    (full(fx) * g).sum().backward()

    def run(r):
        try:
            gangs = SimpleNamespace(tp=ThreadGang(shared, r), device=CPU)
            kw = {"gather_output": flag} if kind == "column" else {"scatter_input": not flag, "reduce_output": True} if kind == "row" else {}
            if kind in ("column", "row"):
                m = cls.from_linear(full, gangs=gangs, **kw)
            else:
                m = cls.from_embedding(full, gangs=gangs)
            v = torch.arange(4.0) + r
            tot = reduce(v, gangs.tp)
            if not torch.equal(v, torch.arange(4.0) + r) or not torch.equal(tot, torch.arange(4.0) * T + T * (T - 1) / 2):
                raise AssertionError(f"reduce: {tot.tolist()}, its input afterwards {v.tolist()}")
            res = {n: p.detach().clone() for n, p in m.named_parameters()}
            sx = x.clone()
            if kind == "row" and flag and T > 1:
                sx = x.split(inp["shard"], -1)[r].clone()
            lx = sx.requires_grad_() if x.is_floating_point() else sx
            y = m(lx)
            lg = g
            if kind == "column" and not flag and T > 1:
                lg = g.split(inp["shard"], -1)[r]
            (y * lg).sum().backward()
            un = m.to_linear() if kind in ("column", "row") else m.to_embedding()
            out[r] = {"params": res, "y": y.detach(), "dx": lx.grad if x.is_floating_point() else None,
                      "dw": {n: p.grad for n, p in m.named_parameters()},
                      "full": {n: p.detach() for n, p in un.named_parameters()}, "dims": get_shard_dims(m)}
        except Exception as e:  # noqa
            errs[r] = e
            if not isinstance(e, ValueError):
                shared.bar.abort()

    ts = [threading.Thread(target=run, args=(r,), daemon=True) for r in range(T)]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    name = f"{kind} sharded over {T}, dimension {D}"
    if T > 1 and D % T:
        return None if all(isinstance(e, ValueError) for e in errs) else ("module", f"{name}: not rejected")
    if any(errs):
        return ("module", f"{name}: {next(e for e in errs if e is not None)!r}")
    same = lambda a, b: a is not None and a.shape == b.shape and torch.allclose(a, b, atol=1e-4, rtol=1e-4)
    cut = lambda t, d, r: t.split(inp["shard"], d)[r] if T > 1 else t
    with torch.no_grad():
        fy = full(x)
    for r in range(T):
        o = out[r]
        dims = {"weight": dim} if kind != "column" or not inp["bias"] else {"weight": dim, "bias": 0}
        if o["dims"] != dims:
            return ("module", f"{name}: sharded dimensions {o['dims']}")
        for n, p in full.named_parameters():
            d = dims.get(n)
            own = p.detach() if d is None else cut(p.detach(), d, r)
            if not torch.equal(o["params"][n], own):
                return ("module", f"{name}: the {n} of rank {r} is not its slice")
            if not torch.equal(o["full"][n], p.detach()):
                return ("module", f"{name}: unsharding on rank {r} gives another {n}")
            gw = p.grad if d is None else cut(p.grad, d, r)
            if not same(o["dw"][n], gw):
                return ("module", f"{name}: the gradient of {n} of rank {r} is {o['dw'][n]} instead of {gw}")
        wy = cut(fy, -1, r) if kind == "column" and not flag else fy
        if not same(o["y"], wy):
            return ("module", f"{name}: rank {r} computes {o['y']} instead of {wy}")
        if x.is_floating_point():
            wd = cut(fx.grad, -1, r) if kind == "row" and flag else fx.grad
            if not same(o["dx"], wd):
                return ("module", f"{name}: the gradient of the input on rank {r} (flag {flag}) is {o['dx']} instead of {wd}")
    return None


def from_cex(unit, obligation, cex):
    v = (cex or {}).get("inputs", cex) or {}

    def num(k, d, lo=1, hi=8):
        try:
            return min(max(int(v.get(k, d)), lo), hi)
        except (TypeError, ValueError):
            return d
    if unit.startswith("reshard"):
        return None
    if unit.startswith("reduce"):
        return {"what": "module", "kind": "row", "T": 2, "shard": 1, "other": 2, "rem": 0, "bias": True, "flag": False, "shape": [1, 2], "seed": 1, "pad": False}
    for kind in ("column", "row", "vocab", "embed"):
        if kind in unit:
            return {"what": "module", "kind": kind, "T": num("tp_size", 2, hi=4), "shard": num("shard", 1, hi=3), "other": num("other_dim", 2, hi=4),
                    "rem": num("remainder", 0, lo=0, hi=1), "bias": True, "flag": False, "shape": [1, 2], "seed": 1, "pad": False}
    return None
