import pyvc.tensor as tn
from pyvc.api import *
from pyvc.extlib import Device

G = "fairseq2.gang:"
I = z3.IntSort()


class Member(Model):
    """A gang this process is in: at position `rank` of `size`."""


class Part:
    """A sub-gang (id: its number among those of its kind): this process is at a fixed position in its own one."""

    def __init__(self, name):
        self.name, self.w = name, None

    def getattr(self, it, e, name):
        if name == "device":
            return self.w.dev
        if name in ("rank", "size"):
            return self.w.place[self.name][name]
        return NotImplemented

    def is_none(self, it, e):
        return z3.simplify(zint(e.id) < 0)

    def truth(self, it, e):
        return z3.simplify(zint(e.id) >= 0)


PARTS = {k: Part(k) for k in ("column", "row")}


class World(Model):
    """A gang of `outer` x `inner` processes (and a remainder), this process at row q, column r; sub-gangs are made from lists of ranks."""

    def __init__(self, ctx, it, inner="tp_size", remainder=True):
        super().__init__(ctx, None)
        self.it0 = it
        self.m = m = ctx.int(inner, lo=1, inp=True)
        self.n = n = ctx.int("outer", lo=0, inp=True)
        self.rem = ctx.int("remainder", lo=0, inp=True) if remainder else z3.IntVal(0)
        self.q, self.r = q, r = ctx.int("row", lo=0, inp=True), ctx.int("column", lo=0, inp=True)
        N, R = ctx.int("size", lo=1), ctx.int("rank", lo=0)
        ctx.assume(z3.And(self.rem < m, r < m))
        ctx.fact(z3.And(N == n * m + self.rem, R == q * m + r))
        ctx.assume(R < N)
        # rows below n end at n * m at the latest
        for x in (q, n):
            ctx.fact(z3.And(z3.Implies(x >= 1, x * m >= m), x * m >= 0))
        ctx.fact(z3.And(z3.Implies(q < n, q * m + m <= n * m), z3.Implies(q > n, q * m >= n * m + m)))
        ctx.fact(z3.And(z3.Implies(m == 1, z3.And(n * m == n, q * m == q)), z3.Implies(n == 1, n * m == m), z3.Implies(n == 0, n * m == 0),
                        z3.Implies(z3.And(n >= 2, m >= 2), z3.And(n * m > n, n * m > m)), z3.Implies(q == 0, q * m == 0)))
        ctx.memo["uf-mod"] = True
        ctx.memo["quotients"] = [n, q]
        self.kind = ctx.alt("device", ["cpu", "cuda"])
        self.groups = ctx.alt("process_groups", ["no", "yes"]) == "yes" if self.kind == "cuda" else False
        self.dev = Device(ctx, None, type=self.kind, index=None)
        self.N = N
        self.fields.update(size=N, rank=R, device=self.dev, supports_process_group=self.groups, columns=z3.IntVal(0), rows=z3.IntVal(0))
        self.R = R
        self.place = {"column": {"rank": q, "size": n}, "row": {"rank": r, "size": m}}
        self.parts = PARTS
        for p in PARTS.values():
            p.w = self
        it.b.EXT_CALLS["torch.where"] = self.where
        it.b.EXT_CALLS["torch.nonzero"] = lambda i, a, k: Unsupported("nonzero")
        it.b.EXT_CALLS["torch.distributed.distributed_c10d.split_group"] = self.split
        ctx.class_models[G + "ProcessGroupGang"] = lambda it, a, k: a[0]
        ctx.loop_cands.append(self.invariants)

    def where(self, it, a, k):
        """Contract of torch.where with one argument: the positions that hold; here the one position of this process."""
        ctx, t = it.ctx, a[0]
        if len(a) != 1 or len(t.shape) != 2:
            raise Unsupported("torch.where")
        i, j = ctx.int("hit_i", lo=0), ctx.int("hit_j", lo=0)
        ctx.assume(z3.And(i < zint(t.shape[0]), j < zint(t.shape[1])))
        self.rows_apart(i)
        ctx.ensure("the process is in the mesh", z3.And(self.q < zint(t.shape[0]), self.r < zint(t.shape[1]), zbool(t.at(self.q, self.r))))
        ctx.ensure("the process is in the mesh once", z3.Implies(zbool(t.at(i, j)), z3.And(i == self.q, j == self.r)))
        return tuple(tn.make(ctx, (1,), lambda x, v=v: v, "int") for v in (self.q, self.r))

    def rows_apart(self, i):
        m, q = self.m, self.q
        self.it0.ctx.fact(z3.And(z3.Implies(i < q, i * m + m <= q * m), z3.Implies(i > q, i * m >= q * m + m), z3.Implies(i == q, i * m == q * m),
                                 z3.Implies(i < self.n, i * m + m <= self.n * m), z3.Implies(i >= 0, i * m >= 0)))

    def shape(self, ctx, ranks, kind, first):
        """The list is column `first` or row `first` of the mesh, and this process is in it iff it is its own."""
        s = self.it0.seq_of(ranks)
        if s is None:
            raise Unsupported("a list of ranks")
        x = ctx.int("member", lo=0)
        ctx.assume(x < zint(s.length))
        self.rows_apart(x)
        self.rows_apart(first)
        e = zint(s.get(x))
        want = z3.simplify(x * self.m + first if kind == "column" else first * self.m + x)
        n = self.n if kind == "column" else self.m
        good = z3.And(zint(s.length) == n, e == want)
        return good, e, x

    def made(self, ctx, ranks):
        s = self.it0.seq_of(ranks)
        e0, y = zint(s.get(z3.IntVal(0))), ctx.int("other", lo=0)
        kind = "column" if ctx.is_valid(zint(s.get(y)) == z3.simplify(e0 + y * self.m)) else "row"
        field = kind + "s"
        i = self.fields[field]
        good, e, x = self.shape(ctx, ranks, kind, i)
        ctx.ensure("the sub-gangs are the columns and the rows of the mesh, each in turn", good)
        own = self.r if kind == "column" else self.q
        at = self.q if kind == "column" else self.r
        ctx.ensure("this process is in its own sub-gang only, at its position there", z3.Implies(e == self.R, z3.And(i == own, x == at)))
        ctx.ensure("this process is in its own sub-gang", z3.Implies(z3.And(i == own, x == at), e == self.R))
        self.it0.setattr(self, field, i + 1)
        return kind, i, own

    def m_create_gang(self, ctx, ranks):
        kind, i, own = self.made(ctx, ranks)
        return Entity(self.parts[kind], z3.If(i == own, i, z3.IntVal(-1)))

    def m_as_process_group(self, ctx):
        return self

    def split(self, it, a, k):
        """Contract of split_group: the given lists of ranks are made groups; the one with this process is returned, if any."""
        ctx = it.ctx
        ctx.ensure("the group that is split is that of the gang", z3.BoolVal((a[0] if a else k["parent_pg"]) is self))
        ls = a[1] if len(a) > 1 else k["split_ranks"]
        s = it.seq_of(ls)
        y = ctx.int("group", lo=0)
        ctx.assume(y < zint(s.length))
        for kind, field, n, own in (("column", "columns", self.m, self.r), ("row", "rows", self.n, self.q)):
            good, e, x = self.shape(ctx, s.get(y), kind, y)
            if ctx.is_valid(z3.And(good, zint(s.length) == n)):
                break
        else:
            ctx.ensure("the sub-groups are the columns or the rows of the mesh", z3.BoolVal(False))
            raise PathEnd()
        at = self.q if kind == "column" else self.r
        ctx.ensure("this process is in its own sub-group only, at its position there", z3.Implies(e == self.R, z3.And(y == own, x == at)))
        ctx.ensure("this process is in its own sub-group", z3.Implies(z3.And(y == own, x == at), e == self.R))
        it.setattr(self, field, n)
        return Entity(self.parts[kind], own)

    def invariants(self, view):
        out, k = {}, zint(view.k)
        for name, v in view.cur.items():
            if name.endswith(".columns") or name.endswith(".rows"):
                e = view.entry[name] if name in view.entry else None
                out[f"{name}: each in turn"] = zint(v) == k
            elif v is None or isinstance(v, Entity) and isinstance(v.model, Part):
                for own in ("column", "row"):
                    o = self.r if own == "column" else self.q
                    if v is None:
                        out[f"{name}: the own {own} from its turn"] = k <= o
                    else:
                        out[f"{name}: the own {own} from its turn"] = z3.And(k > o, zint(v.id) == o, z3.BoolVal(v.model.name == own))
        return out

    def check(self, ctx, it, which, g, kind):
        """g is the gang of this process for the column or row."""
        place = self.place[kind]
        ctx.ensure(f"{which}: size", zint(it.getattr(g, "size")) == place["size"])
        ctx.ensure(f"{which}: position", zint(it.getattr(g, "rank")) == place["rank"])
        if isinstance(g, Entity):
            ctx.ensure(f"{which}: the own one", z3.And(z3.BoolVal(g.model.name == kind), zint(g.id) == (self.r if kind == "column" else self.q)))
        elif g is self:
            ctx.ensure(f"{which}: the gang itself only if it is all of it", place["size"] == self.N)
        else:
            ctx.ensure(f"{which}: a gang of its own only for one process", place["size"] == 1)
            ctx.ensure(f"{which}: on the device", it.getattr(g, "device") is self.dev)


def rejected(ctx, it, out, ok):
    ctx.ensure("a rejected size is a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
    ctx.ensure("only sizes that do not divide are rejected", z3.Not(ok))
    ctx.cover("rejected")


@unit("parallel gangs", about="any world, rank and tensor parallel size: rows and columns of the mesh, this process at its position in both",
      assumes=["torch arange, view and where, sub-gang creation, split_group by contract"])
def parallel(ctx, it):
    ctx.require_cover("created", "rejected")
    w = World(ctx, it)
    bad = ctx.alt("sizes", ["proper", "not positive"]) == "not positive"
    tp = ctx.int("bad_tp_size", hi=0, inp=True) if bad else w.m
    out = it.outcome(lambda: it.call_func(G + "create_parallel_gangs", w, tp_size=tp))
    ok = z3.And(tp >= 1, w.rem == 0)
    if out[0] == "exc":
        rejected(ctx, it, out, ok)
        return
    g = out[1]
    ctx.ensure("sizes that do not divide are rejected", ok)
    get = lambda n: it.getattr(g, n)
    w.check(ctx, it, "data parallel", get("dp"), "column")
    w.check(ctx, it, "tensor parallel", get("tp"), "row")
    ctx.ensure("the root gang is the given one", get("root") is w)
    ctx.ensure("the replicated gang is the data parallel one, until it is split", zbool(it.b.is_(it, get("rdp"), get("dp")) if hasattr(it.b, "is_") else get("rdp") is get("dp")))
    for n in ("sdp", "pp"):
        ctx.ensure(f"{n}: one process", z3.And(zint(it.getattr(get(n), "size")) == 1, zint(it.getattr(get(n), "rank")) == 0))
    dp, tpg = get("dp"), get("tp")
    ctx.ensure("the rank is recovered from the positions", w.R == w.q * w.m + w.r)
    made = lambda f, n, size, other: z3.Or(w.fields[f] == n, z3.And(w.fields[f] == 0, z3.Or(size == 1, size == w.N)))
    ctx.ensure("every data parallel group is made", made("columns", w.m, w.n, None))
    ctx.ensure("every tensor parallel group is made", made("rows", w.n, w.m, None))
    ctx.cover("created")


@unit("fsdp gangs", about="any data parallel gang and intra-node size: rows and columns of its mesh, this process at its position in both",
      assumes=["torch arange, view and where, sub-gang creation, split_group by contract"])
def fsdp(ctx, it):
    ctx.require_cover("created", "rejected", "fully sharded")
    w = World(ctx, it, "intra_node_size")
    which = ctx.alt("sizes", ["proper", "too small", "none"])
    intra = {"proper": w.m, "too small": None, "none": None}[which]
    if which == "too small":
        intra = ctx.int("bad_intra", hi=1, inp=True)
    ctx.assume(z3.Implies(z3.BoolVal(which == "proper"), w.m >= 2))
    root = Member(ctx, None, rank=ctx.int("root_rank", lo=0), size=ctx.int("root_size", lo=1), device=w.dev, supports_process_group=w.groups)
    one = Member(ctx, None, rank=0, size=1, device=w.dev, supports_process_group=False)
    tp = Member(ctx, None, rank=ctx.int("tp_rank", lo=0), size=ctx.int("tp_n", lo=1), device=w.dev, supports_process_group=w.groups)
    rr, tr = zint(root.fields["rank"]), zint(tp.fields["rank"])
    ctx.assume(z3.Implies(rr == 0, z3.And(w.R == 0, tr == 0)))
    gangs = it.instantiate(it.cls(G + "Gangs"), [], {"root": root, "dp": w, "rdp": w, "sdp": one, "tp": tp, "pp": one})
    out = it.outcome(lambda: it.call_func(G + "create_fsdp_gangs", gangs, *([] if which == "none" else [intra])))
    ok = z3.BoolVal(True) if which == "none" else z3.And(intra > 1, w.rem == 0)
    if out[0] == "exc":
        rejected(ctx, it, out, ok)
        return
    g = out[1]
    ctx.ensure("sizes that do not divide are rejected", ok)
    get = lambda n: it.getattr(g, n)
    for n, v in (("root", root), ("dp", w), ("tp", tp), ("pp", one)):
        ctx.ensure(f"{n} is kept", get(n) is v)
    if which == "none":
        ctx.ensure("sharded over all of the data parallel gang", get("sdp") is w)
        ctx.ensure("replicated once", z3.And(zint(it.getattr(get("rdp"), "size")) == 1, zint(it.getattr(get("rdp"), "rank")) == 0))
        ctx.cover("fully sharded")
        return
    w.check(ctx, it, "inter-node", get("rdp"), "column")
    w.check(ctx, it, "intra-node", get("sdp"), "row")
    made = lambda f, n, size: z3.Or(w.fields[f] == n, z3.And(w.fields[f] == 0, z3.Or(size == 1, size == w.N)))
    ctx.ensure("every inter-node group is made", made("columns", w.m, w.n))
    ctx.ensure("every intra-node group is made", made("rows", w.n, w.m))
    ctx.cover("created")
