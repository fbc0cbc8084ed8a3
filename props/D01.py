import pyvc.tensor as tn
from pyvc.api import *
from pyvc.extlib import Device

RD = "fairseq2.datasets.data_reader"
I = z3.IntSort()
BATCH = z3.Function("batch", I, I)


class Batches:
    name = "batch"


BAT = Batches()


class Iter(Model):
    """The iterator of the pipeline: batches pos..end-1, then the end of data or, at bad, an error."""

    def __init__(self, ctx, w):
        super().__init__(ctx, None, pos=w.pos0, end=w.end0, ended=False)
        self.w = w

    def m___next__(self, ctx):
        w, f = self.w, self.fields
        ctx.ensure("the pipeline is read no more often than batches are accumulated", f["pos"] - w.pos0 < w.acc)
        if ctx.branch(z_and(w.bad == f["pos"])):
            raise w.it.exc(w.perr, "corrupt")
        if not ctx.branch(f["pos"] < f["end"]):
            self.setf(ctx, "ended", True)
            raise w.it.exc(StopIteration)
        e = Entity(BAT, BATCH(f["pos"]))
        self.setf(ctx, "pos", z3.simplify(f["pos"] + 1))
        return e

    def iter_seq(self, it):
        raise Unsupported("the pipeline is drained")


class Pipeline(Model):
    def __init__(self, ctx, w):
        super().__init__(ctx, None, resets=z3.IntVal(0), loaded=None)
        self.w = w

    def m___iter__(self, ctx):
        return self.w.iter

    def iter_seq(self, it):
        raise Unsupported("the pipeline is drained")

    def m_reset(self, ctx):
        self.setf(ctx, "resets", self.fields["resets"] + 1)
        self.w.iter.setf(ctx, "pos", self.w.pos1)

    def m_state_dict(self, ctx, strict=True):
        return Entity(BAT, z3.If(zbool(strict), self.w.snap(self.w.iter.fields["pos"]), z3.IntVal(-1)))

    def m_load_state_dict(self, ctx, sd):
        self.setf(ctx, "loaded", sd)
        self.w.iter.setf(ctx, "pos", self.w.pos1)


class Gang(Model):
    def __init__(self, ctx, w, name):
        size, rank = (ctx.int("size", lo=1, inp=True), ctx.int("rank", lo=0, inp=True)) if name == "dp" else (z3.IntVal(2), z3.IntVal(0))
        ctx.assume(rank < size)
        super().__init__(ctx, None, size=size, rank=rank, device=Device(ctx, None, type="cuda", index=None), said=None)
        self.w, self.name = w, name

    def tell(self, ctx, v):
        ctx.ensure("processes agree once per iteration", self.fields["said"] is None)
        ctx.ensure("processes agree within the data-parallel group", self.name == "dp")
        self.setf(ctx, "said", v)

    def m_all_gather(self, ctx, out, x):
        w = self.w
        if not (isinstance(out, tn.Tensor) and isinstance(x, tn.Tensor)) or len(out.shape) != 1:
            raise Unsupported("all_gather of something else")
        ctx.ensure("one slot per process", zint(out.shape[0]) == self.fields["size"])
        v = x.at(*[0] * len(x.shape))
        self.tell(ctx, v)
        rank = self.fields["rank"]
        out.write(ctx, lambda i: z3.If(zint(i) == rank, v, w.count(zint(i))), "int")

    def m_all_reduce(self, ctx, x, op):
        w, it = self.w, self.w.it
        name = op.name if op in it.enum_members("fairseq2.gang:ReduceOperation") else None
        v = x.at(*[0] * len(x.shape))
        self.tell(ctx, v)
        r = ctx.int("reduced")
        f = {"SUM": r == v + w.others, "MIN": r == z3.If(w.least < v, w.least, v), "MAX": r == z3.If(w.most > v, w.most, v)}.get(name)
        if f is None:
            raise Unsupported(f"all_reduce by {name}")
        ctx.fact(f)
        x.write(ctx, lambda *i: r, "int")


class World:
    def __init__(self, ctx, it, failing=(False, True)):
        self.ctx, self.it = ctx, it
        self.perr = it.global_name(it.world._mod(RD), "DataPipelineError")
        self.acc = ctx.int("num_accumulate", lo=1, inp=True)
        self.pos0, self.pos1 = ctx.int("read", lo=0), ctx.int("rewound", lo=0)
        self.left = ctx.int("left", lo=0, inp=True)
        self.end0 = self.pos0 + self.left
        self.bad = ctx.int("bad") if ctx.alt("failing", list(failing)) else z3.IntVal(-1)
        self.snap = ctx.func("snapshot", I, I)
        self.iter = Iter(ctx, self)
        self.pipe = Pipeline(ctx, self)
        self.dp, self.tp, self.root = Gang(ctx, self, "dp"), Gang(ctx, self, "tp"), Gang(ctx, self, "root")
        self.gangs = Model(ctx, None, dp=self.dp, tp=self.tp, root=self.root, rdp=self.tp, sdp=self.tp, pp=self.tp)
        for m in (self.iter, self.pipe, self.dp, self.tp, self.root):
            ctx.roots.append(m)
        size, rank = self.dp.fields["size"], self.dp.fields["rank"]
        # what the other processes of the group have read: each at most the number of accumulated batches
        self.count = ctx.func("count", I, I)
        self.others, self.least, self.most = ctx.int("others", lo=0), ctx.int("least", inp=True), ctx.int("most", inp=True)
        j = z3.Int("oj")
        wl, wm = ctx.int("wl"), ctx.int("wm")
        other = lambda x: z3.And(x >= 0, x < size, x != rank)
        ctx.fact(z3.ForAll([j], z3.Implies(other(j), z3.And(self.count(j) >= 0, self.count(j) <= self.acc, self.count(j) >= self.least,
                                                           self.count(j) <= self.most)), patterns=[self.count(j)]))
        ctx.fact(z3.Implies(size > 1, z3.And(other(wl), other(wm), self.count(wl) == self.least, self.count(wm) == self.most)))
        ctx.fact(z3.And((self.others > 0) == (self.most > 0), self.others >= self.most))
        ctx.loop_cands.append(self.cands)
        self.sync = ctx.bool("sync", inp=True)
        self.drop = ctx.bool("drop_remainder", inp=True)
        self.mode = ctx.alt("sync_mode", ["UNTIL_FIRST", "UNTIL_LAST"])
        self.strict = ctx.bool("strict_state")

    def reader(self):
        kw = {"num_accumulate": self.acc, "drop_remainder": self.drop, "sync": self.sync, "strict_state": self.strict,
              "sync_mode": next(m for m in self.it.enum_members(RD + ":SyncMode") if m.name == self.mode)}
        return self.it.instantiate(self.it.cls(RD + ":DataPipelineReader"), [self.pipe, self.gangs], kw)

    def cands(self, view):
        out, j = {}, z3.Int("cj")
        pos = self.iter.fields["pos"]
        out["read one per pass"] = pos == self.pos0 + view.k
        out["not ended"] = z3.And(pos <= self.end0, z3.Or(self.bad < self.pos0, self.bad >= pos))
        out["no more than accumulated"] = pos <= self.pos0 + self.acc
        for name, cur in view.cur.items():
            if isinstance(cur, (SymSeq, list)):
                n = cur.length if isinstance(cur, SymSeq) else len(cur)
                out[f"{name}: all that was read"] = zint(n) == pos - self.pos0
                if not isinstance(cur, SymSeq):
                    out[f"{name}: in order"] = z3.BoolVal(True)
                else:
                    out[f"{name}: in order"] = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(n)), zint(cur.get(j).id) == BATCH(self.pos0 + j)))
        return out


def agreed(w):
    """(number of batches to return, does everybody end)"""
    size = w.dp.fields["size"]
    own = z3.If(w.left < w.acc, w.left, w.acc)
    own = z3.If(z3.And(w.drop, own != w.acc), z3.IntVal(0), own)
    alone = z3.Not(z3.And(w.sync, size > 1))
    if w.mode == "UNTIL_FIRST":
        n = z3.If(alone, own, z3.If(w.least < own, w.least, own))
        return own, n, n == 0
    return own, own, z3.If(alone, own == 0, z3.And(own == 0, w.most == 0))


@unit("iteration", about="one iteration of a reader in a group of any size: all processes end together, and what each returns is its next "
      "batches in order, as many as agreed", max_secs=200,
      assumes=["the iterator of the data pipeline yields its batches in order and then keeps raising StopIteration",
               "all_gather and all_reduce combine the values of the processes of the group, which run the same code with the same parameters"])
def iteration(ctx, it):
    w = World(ctx, it)
    r = w.reader()
    own, n, end = agreed(w)
    out = it.outcome(lambda: it.call_method(r, "__next__"))
    pos = w.iter.fields["pos"]
    wrong = z3.And(w.bad >= w.pos0, w.bad < w.pos0 + w.acc, w.bad <= w.end0)
    said = w.dp.fields["said"]
    if out[0] == "exc" and not it.subclass(out[1].obj.cls, BuiltinCls(StopIteration)):
        ctx.ensure("a failing pipeline is reported as a read error", z_and(it.subclass(out[1].obj.cls, it.cls(RD + ":DataReadError")), wrong))
        ctx.cover("error")
        return
    ctx.ensure("a failing pipeline is not passed over", z3.Not(wrong))
    ctx.ensure("processes of a group agree", z_or(said is not None, z3.Not(z3.And(w.sync, w.dp.fields["size"] > 1))))
    if said is not None:
        ctx.ensure("the number of own batches is what the others are told", zint(said) == own)
    if out[0] == "exc":
        ctx.ensure("data ends only when the agreed number is zero", end)
        ctx.ensure("nothing agreed, nothing told twice", True)
        ctx.cover("end")
        p0, s0 = w.iter.fields["pos"], said
        again = it.outcome(lambda: it.call_method(r, "__next__"))
        ctx.ensure("the end of data stays", again[0] == "exc" and it.subclass(again[1].obj.cls, BuiltinCls(StopIteration)))
        ctx.ensure("nothing is read after the end", w.iter.fields["pos"] == p0)
        return
    ctx.ensure("data ends as soon as the agreed number is zero", z3.Not(end))
    s = it.seq_of(out[1])
    ctx.ensure("the agreed number of batches is returned", zint(s.length) == n)
    ctx.ensure("never more than accumulated", zint(s.length) <= w.acc)
    x = ctx.int("x", lo=0)
    if ctx.branch(x < zint(s.length)):
        ctx.ensure("the next batches in order", zint(s.get(x).id) == BATCH(w.pos0 + x))
        ctx.cover("batch")
    ctx.require_cover("batch", "end", "error")


@unit("usable again", about="after the end of data, a reset or a restored state makes the reader read again; its state is the pipeline's")
def again(ctx, it):
    w = World(ctx, it, [False])
    ctx.assume(w.left == 0)
    ctx.assume(z3.Or(z3.Not(w.sync), w.most == 0, w.dp.fields["size"] == 1))
    r = w.reader()
    first = it.outcome(lambda: it.call_method(r, "__next__"))
    ctx.ensure("ended", first[0] == "exc")
    sd = it.call_method(r, "state_dict")
    ctx.ensure("the state is that of the pipeline", isinstance(sd, Entity) and zint(sd.id) == z3.If(w.strict, w.snap(w.iter.fields["pos"]), z3.IntVal(-1)))
    w.dp.setf(ctx, "said", None)
    n1 = ctx.int("left_again", lo=1)
    if ctx.alt("how", ["reset", "load"]) == "reset":
        it.call_method(r, "reset")
        ctx.ensure("the pipeline is rewound once", w.pipe.fields["resets"] == 1)
    else:
        it.call_method(r, "load_state_dict", sd)
        ctx.ensure("the pipeline is given its state", w.pipe.fields["loaded"] is sd)
    w.pos0 = w.pos1
    w.end0 = w.pos0 + n1
    w.left = n1
    w.iter.setf(ctx, "end", w.end0)
    # this time everybody has batches
    w.count2 = w.count
    w.count = ctx.func("count2", I, I)
    w.least = w.most = w.others = w.acc
    j = z3.Int("oj2")
    ctx.fact(z3.ForAll([j], w.count(j) == w.acc, patterns=[w.count(j)]))
    ctx.assume(z3.Or(z3.Not(w.drop), n1 >= w.acc))
    out = it.outcome(lambda: it.call_method(r, "__next__"))
    ctx.ensure("it reads again", out[0] == "ok")
    if out[0] == "ok":
        ctx.ensure("it returns batches again", zint(it.seq_of(out[1]).length) == z3.If(n1 < w.acc, n1, w.acc))
        ctx.cover("again")
    ctx.require_cover("again")
