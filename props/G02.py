from pyvc.api import *
from pyvc.extlib import Device

G = "fairseq2.gang:"
FAKE, PGG, GANGS = G + "FakeGang", G + "ProcessGroupGang", G + "Gangs"
I = z3.IntSort()


def device(ctx, kind="cpu"):
    return Device(ctx, None, type=kind, index=None)


class Raw:
    """A torch.distributed process group: this process is `rank` of `size`."""

    name = "process group"

    def __init__(self, rank, size, ranks=None):
        self.rank, self.size, self.ranks = rank, size, ranks


class Dist:
    """Contract of torch.distributed: rank and size of a group; new_group is called with the ranks of the new group."""

    def __init__(self, ctx, it, rank, size):
        self.ctx, self.calls = ctx, []
        self.world = Entity(self, z3.IntVal(0))
        self.rank, self.size = rank, size
        x = it.b.EXT_CALLS
        x["torch.distributed.get_rank"] = lambda i, a, k: rank
        x["torch.distributed.get_world_size"] = lambda i, a, k: size
        x["torch.distributed.get_backend"] = lambda i, a, k: "gloo"
        x["torch.distributed.new_group"] = self.new_group
        it.b.EXT_VALUES["torch.distributed.group.WORLD"] = self.world

    def new_group(self, it, a, k):
        self.calls.append(a[0] if a else k["ranks"])
        return Entity(self, z3.IntVal(len(self.calls)))

    def getattr(self, it, e, name):
        return NotImplemented


def rejected(ctx, it, out, what):
    ctx.ensure(what, out[0] == "exc" and it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))


@unit("rank", about="a gang exists only for a rank in [0, size), for every rank and size")
def rank_unit(ctx, it):
    rank, size = ctx.int("rank", inp=True), ctx.int("size", inp=True)
    kind = ctx.alt("device", ["cpu", "cuda", "meta"])
    dev = device(ctx, kind)
    default = ctx.alt("arguments", ["given", "defaults"]) == "defaults"
    out = it.outcome(lambda: it.instantiate(it.cls(FAKE), [dev], {} if default else {"rank": rank, "size": size}))
    if default:
        rank, size = z3.IntVal(0), z3.IntVal(1)
    exists = z_and(rank >= 0, rank < size, kind != "meta")
    if out[0] == "exc":
        rejected(ctx, it, out, "a rejected gang is a value error")
        ctx.ensure("only a gang that cannot exist is rejected", z_not(exists))
        ctx.cover("rejected")
    else:
        ctx.ensure("a gang that cannot exist is rejected", exists)
        ctx.ensure("it has the given rank", zint(it.getattr(out[1], "rank")) == rank)
        ctx.ensure("it has the given size", zint(it.getattr(out[1], "size")) == size)
        ctx.ensure("it has the given device", it.getattr(out[1], "device") is dev)
        ctx.cover("created")
    ctx.require_cover("rejected", "created")


def ranks_of(ctx, it):
    """Any list of ranks: (list, length, element, whether it can form a sub-gang of a gang of `size`)."""
    n, r = ctx.int("length", lo=0, inp=True), ctx.func("ranks", I, I)
    return PyList(ctx, SymSeq(n, lambda i: r(zint(i)), ("int",))), n, r


def distinct(n, r):
    i, j = z3.Ints("ri rj")
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), r(i) != r(j)), patterns=[z3.MultiPattern(r(i), r(j))])


def inside(n, r, size):
    i = z3.Int("ri")
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(r(i) >= 0, r(i) < size)), patterns=[r(i)])


def in_range(size, n, r):
    def gen(view):
        i = z3.Int("rc")
        return {"ranks so far in range": z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(view.k)), z3.And(
            r(i) >= 0, r(i) < size)), patterns=[r(i)])}
    return gen


@unit("sub-gang", about="a sub-gang is created only from different ranks in [0, size); members get their position, others none; "
      "any list of ranks", timeout_ms=30000)
def sub_gang(ctx, it):
    rank, size = ctx.int("rank", inp=True), ctx.int("size", inp=True)
    ctx.assume(z_and(rank >= 0, rank < size))
    lst, n, r = ranks_of(ctx, it)
    kind = ctx.alt("gang", ["fake", "process group", "sub process group"])
    dist = Dist(ctx, it, rank, size)
    ctx.loop_cands.append(in_range(size, n, r))
    if kind == "fake":
        g = it.instantiate(it.cls(FAKE), [device(ctx)], {"rank": rank, "size": size})
    else:
        raw = dist.world if kind == "process group" else Entity(dist, z3.IntVal(77))
        g = it.instantiate(it.cls(PGG), [raw, device(ctx)], {})
    out = it.outcome(lambda: it.call_method(g, "create_gang", lst))
    x, y = ctx.int("x", lo=0), ctx.int("y", lo=0)
    if out[0] == "exc" and it.subclass(out[1].obj.cls, BuiltinCls(ValueError)):
        ctx.ensure("only ranks that cannot form a gang are rejected", z3.Not(z3.And(distinct(n, r), inside(n, r, size))))
        ctx.ensure("nothing is created from rejected ranks", not dist.calls)
        ctx.cover("rejected")
        return
    ctx.ensure("ranks outside the gang are rejected", z3.Implies(x < n, z3.And(r(x) >= 0, r(x) < size)))
    ctx.ensure("repeated ranks are rejected", z3.Implies(z3.And(x < y, y < n), r(x) != r(y)))
    if kind == "sub process group":
        ctx.ensure("sub-gangs are created from the default group", out[0] == "exc")
        return
    ctx.ensure("possible ranks are accepted", out[0] == "ok")
    if out[0] != "ok":
        return
    if kind == "process group":
        ctx.ensure("the group is created on every process", len(dist.calls) == 1)
        for c in dist.calls:
            s = it.seq_of(c)
            ctx.ensure("from the given ranks", z3.And(zint(s.length) == n, z3.Implies(x < n, zint(s.get(x)) == r(x))))
    if out[1] is None:
        ctx.ensure("only a process that is not a member gets none", z3.Implies(x < n, r(x) != rank))
        ctx.cover("not a member")
    else:
        w = ctx.int("w")
        ctx.ensure("only a member gets the gang", z3.Exists([w], z3.And(w >= 0, w < n, r(w) == rank)))
        if kind == "fake":
            ctx.ensure("it is as large as the list", zint(it.getattr(out[1], "size")) == n)
            p = zint(it.getattr(out[1], "rank"))
            ctx.ensure("a member's position is the one of its rank", z3.And(p >= 0, p < n, r(p) == rank))
        ctx.cover("member")
    ctx.require_cover("rejected", "not a member", "member")


class Member(Model):
    """Any gang."""


@unit("layout", about="gangs are accepted iff the first process of the world is first in the data, tensor and pipeline gangs; "
      "every combination of positions")
def layout(ctx, it):
    dev = device(ctx)
    pos, kw = {}, {}
    for n in ("root", "dp", "rdp", "sdp", "tp", "pp"):
        pos[n] = ctx.int(f"{n}_rank", lo=0, inp=True)
        kw[n] = Member(ctx, None, rank=pos[n], size=pos[n] + 1, device=dev)
    out = it.outcome(lambda: it.instantiate(it.cls(GANGS), [], kw))
    ok = z3.Implies(pos["root"] == 0, z3.And(pos["dp"] == 0, pos["tp"] == 0, pos["pp"] == 0))
    if out[0] == "exc":
        rejected(ctx, it, out, "a rejected layout is a value error")
        ctx.ensure("only an impossible layout is rejected", z3.Not(ok))
        ctx.cover("rejected")
    else:
        ctx.ensure("an impossible layout is rejected", ok)
        ctx.ensure("the gangs are the given ones", all(it.getattr(out[1], n) is kw[n] for n in kw))
        ctx.ensure("they are on the device of the root", it.getattr(out[1], "device") is dev)
        ctx.cover("accepted")
    ctx.require_cover("rejected", "accepted")
