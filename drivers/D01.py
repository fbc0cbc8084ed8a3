import threading
from types import SimpleNamespace

import torch

import fairseq2.recipe  # noqa: F401
from fairseq2.data.data_pipeline import DataPipelineError
from fairseq2.datasets.data_reader import DataPipelineReader, DataReadError, SyncMode
from fairseq2.gang import FakeGang, ReduceOperation

RULE = ("the real DataPipelineReader of every process of a group of 1-4 (threads with exchanging gangs) over pipelines of 0-7 batches, read to "
        "the end and again after a reset or a restored state, compared with the batches the agreed numbers prescribe; some pipelines fail; "
        "non-trivial: more than one process with different numbers of batches")


class Hub:
    def __init__(self, n):
        self.n, self.bar, self.slots, self.calls = n, threading.Barrier(n, timeout=5), [None] * n, [0] * n

    def exchange(self, rank, v):
        self.calls[rank] += 1
        self.slots[rank] = v
        self.bar.wait()
        out = list(self.slots)
        self.bar.wait()
        return out


class Peer(FakeGang):
    def __init__(self, hub, rank):
        super().__init__(torch.device("cpu"), rank=rank, size=hub.n)
        self.hub = hub

    def all_reduce(self, tensor, op):
        vs = torch.stack(self.hub.exchange(self.rank, tensor.clone()))
        r = {ReduceOperation.SUM: lambda: vs.sum(0), ReduceOperation.MIN: lambda: vs.min(0).values, ReduceOperation.MAX: lambda: vs.max(0).values,
             ReduceOperation.PRODUCT: lambda: vs.prod(0), ReduceOperation.MEAN: lambda: vs.float().mean(0)}[op]()
        tensor.copy_(r)

    def all_gather(self, output_tensor, input_tensor):
        output_tensor.copy_(torch.cat([v.reshape(-1) for v in self.hub.exchange(self.rank, input_tensor.clone())]).view_as(output_tensor))


class Pipe:
    def __init__(self, name, n, bad):
        self.name, self.n, self.bad, self.pos, self.reads = name, n, bad, 0, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.reads += 1
        if self.pos == self.bad:
            raise DataPipelineError("corrupt")
        if self.pos >= self.n:
            raise StopIteration
        self.pos += 1
        return (self.name, self.pos - 1)

    def reset(self):
        self.pos = 0

    def state_dict(self, strict=True):
        return {"pos": self.pos, "strict": strict}

    def load_state_dict(self, sd):
        self.pos = sd["pos"]


def cases(rng, tier):
    for n in (1, 2):
        for acc in (1, 2, 3):
            for a in range(0, 5):
                for b in range(0, 5) if n == 2 else [0]:
                    for mode in ("UNTIL_FIRST", "UNTIL_LAST"):
                        for drop in (False, True):
                            yield {"counts": [a, b][:n], "acc": acc, "mode": mode, "drop": drop, "sync": True, "bad": -1}
    while True:
        n = rng.randint(1, 4)
        yield {"counts": [rng.randint(0, 7) for _ in range(n)], "acc": rng.randint(1, 4), "mode": rng.choice(["UNTIL_FIRST", "UNTIL_LAST"]),
               "drop": rng.random() < 0.4, "sync": rng.random() < 0.8, "bad": -1 if n > 1 or rng.random() < 0.7 else rng.randint(0, 7)}


def nontrivial(i):
    return len(set(i["counts"])) > 1 and i["sync"]


def check(inp):
    n = len(inp["counts"])
    acc, mode, sync, drop = inp["acc"], inp["mode"], inp["sync"] and n > 1, inp["drop"]
    hub = Hub(n)
    pipes = [Pipe(r, c, inp["bad"]) for r, c in enumerate(inp["counts"])]
    readers, gangs = [], []
    for r in range(n):
        g = Peer(hub, r)
        fake = FakeGang(torch.device("cpu"), rank=0, size=1)
        gangs.append(SimpleNamespace(root=g, dp=g, rdp=g, sdp=fake, tp=fake, pp=fake))
        readers.append(DataPipelineReader(pipes[r], gangs[r], num_accumulate=acc, drop_remainder=drop, sync=inp["sync"], sync_mode=SyncMode[mode], strict_state=r % 2 == 0))
    pos = [0] * n
    for it in range(60):
        res = [None] * n

        def go(r):
            try:
                res[r] = ("ok", next(readers[r]))
            except StopIteration:
                res[r] = ("end", None)
            except DataReadError:
                res[r] = ("bad", None)
            except threading.BrokenBarrierError:
                res[r] = ("stuck", None)
            except BaseException as e:
                res[r] = ("exc", f"{type(e).__name__}: {e}")
            if res[r][0] not in ("ok", "end"):
                hub.bar.abort()

        reads0 = [p.reads for p in pipes]
        if n == 1:
            go(0)
        else:
            ts = [threading.Thread(target=go, args=(r,)) for r in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
        own = []
        for r in range(n):
            k = min(acc, inp["counts"][r] - pos[r])
            own.append(0 if drop and k != acc else k)
            if pipes[r].reads - reads0[r] > acc:
                return f"process {r} reads {pipes[r].reads - reads0[r]} batches for {acc}"
        if n == 1 and 0 <= inp["bad"] <= inp["counts"][0] and inp["bad"] < pos[0] + acc:
            return None if res[0][0] == "bad" else f"failing pipeline gives {res[0]}"
        for r in range(n):
            if not sync:
                want = own[r] or None
            elif mode == "UNTIL_FIRST":
                want = min(own) or None
            else:
                want = own[r] if any(own) else None
            kind, got = res[r]
            if want is None:
                if kind != "end":
                    return f"iteration {it}: process {r} gives {res[r]} where data has ended (own numbers {own})"
            elif kind != "ok" or list(got) != [(r, pos[r] + j) for j in range(want)]:
                return f"iteration {it}: process {r} gives {res[r]} instead of {want} batches from {pos[r]} (own numbers {own})"
            pos[r] = min(inp["counts"][r], pos[r] + acc)
        ends = [x[0] == "end" for x in res]
        if sync and any(ends) != all(ends):
            return "processes do not end together"
        if all(ends):
            break
        if not sync and any(ends):
            # everyone on its own: read each to its end
            for r in range(n):
                for _ in range(40):
                    if ends[r]:
                        break
                    try:
                        got = next(readers[r])
                    except StopIteration:
                        break
                    if len(got) > acc:
                        return "too many batches"
            break
    for r in range(n):
        p0 = pipes[r].reads
        try:
            next(readers[r])
            return f"process {r} returns batches after the end of data"
        except StopIteration:
            pass
        except BaseException as e:
            return f"after the end of data: {type(e).__name__}"
        if pipes[r].reads != p0:
            return f"process {r} reads after the end of data"
        sd = readers[r].state_dict()
        if sd != {"pos": pipes[r].pos, "strict": r % 2 == 0}:
            return f"state {sd}"
    if n == 1 and min(acc, inp["counts"][0]) and not (drop and inp["counts"][0] < acc):
        for how in ("reset", "load"):
            readers[0].reset() if how == "reset" else readers[0].load_state_dict({"pos": 0})
            try:
                if next(readers[0]) != [(0, j) for j in range(min(acc, inp["counts"][0]))]:
                    return f"other batches after {how}"
            except BaseException as e:
                return f"no batches after {how}: {type(e).__name__}"
    return None


def from_cex(unit, obligation, cex):
    try:
        n, acc, left, least, most = cex["size"], cex["num_accumulate"], cex["left"], cex["least"], cex["most"]
    except KeyError:
        return None
    if n > 4 or acc > 50 or max(left, least, most) > 60:
        return None
    counts = [left] + ([least] * (n > 1)) + ([most] * (n > 2)) + ([least] * (n > 3))
    return {"counts": counts[:n], "acc": acc, "mode": ["UNTIL_FIRST", "UNTIL_LAST"][cex.get("sync_mode", 0)], "drop": bool(cex.get("drop_remainder")),
            "sync": bool(cex.get("sync")), "bad": -1}
