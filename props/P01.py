import pyvc.tensor as tn
from pyvc.api import *

PR, EM, TP = "fairseq2.nn.projection", "fairseq2.nn.embedding", "fairseq2.ops.tensor_parallel"
I = z3.IntSort()
COLL = "tensor parallel gather, scatter and reduce by their contracts (the units of fairseq2.ops.tensor_parallel)"
KINDS = {
    "column": (PR + ":ColumnShardedLinear", "linear", 0), "row": (PR + ":RowShardedLinear", "linear", 1),
    "vocab": (EM + ":VocabShardedEmbedding", "embedding", 0), "embed": (EM + ":ShardedEmbedding", "embedding", 1),
}


class World:
    """A tensor parallel gang of T processes, this one of rank r; a sharded dimension of s * T + rem and another one."""

    def __init__(self, ctx, it, kind, rem=True):
        self.ctx, self.it, self.kind = ctx, it, kind
        self.T, self.r = ctx.int("tp_size", lo=1, inp=True), ctx.int("tp_rank", lo=0, inp=True)
        ctx.assume(self.r < self.T)
        self.s = ctx.int("shard", lo=1, inp=True)
        self.rem = ctx.int("remainder", lo=0, inp=True) if rem else z3.IntVal(0)
        ctx.assume(self.rem < self.T)
        self.other = ctx.int("other_dim", lo=1, inp=True)
        self.D = D = ctx.int("dim", lo=1, inp=True)
        T, s, r = self.T, self.s, self.r
        ctx.fact(z3.And(D == s * T + self.rem, D % T == self.rem, D / T == s))
        # shards of ranks below T end at s * T at the latest; those below r end where r begins
        ctx.fact(z3.And((r + 1) * s <= T * s, r * s >= 0, r * s + s == (r + 1) * s, s <= s * T))
        self.cls, self.what, self.dim = KINDS[kind]
        self.dev = tn.DEVICE(ctx)
        self.gang = Model(ctx, "fairseq2.gang:Gang", rank=self.r, size=self.T, device=self.dev)
        self.gangs = Model(ctx, "fairseq2.gang:Gangs", tp=self.gang)
        self.inits = []
        self.full = {}
        ctx.contracts[PR + ":_init_linear"] = self.init("proj")
        ctx.contracts[EM + ":_init_embedding"] = self.init("embed")
        ctx.contracts["fairseq2.gang:get_current_gangs"] = lambda it, b: self.gangs
        ctx.contracts["fairseq2.device:get_current_device"] = lambda it, b: self.dev
        ctx.contracts["fairseq2.utils.warn:_warn_deprecated"] = lambda it, b: None
        ctx.contracts["fairseq2.nn.utils.module:to_empty"] = lambda it, b: None
        ctx.contracts[TP + ":gather"] = self.gather
        it.b.EXT_CALLS["torch.nn.Parameter"] = it.b.EXT_CALLS["torch.nn.parameter.Parameter"] = lambda i, a, k: a[0]

    def init(self, arg):
        def f(it, b):
            m = b[arg]
            self.inits.append((m, {n: t.reader() for n in ("weight", "bias") if isinstance(t := m.fields.get(n), tn.Tensor)}))
            return None
        return f

    def shape(self, full):
        n = self.D if full else self.s
        return (n, self.other) if self.dim == 0 else (self.other, n)

    def dims(self):
        """Constructor arguments: the dimensions in the order of the class."""
        a, b = self.shape(True)
        return [b, a] if self.what == "linear" else [a, b]

    def slice(self, cells, dim=None):
        """The cells of this process' slice of a parameter."""
        d = self.dim if dim is None else dim
        return lambda *i: cells(*[x + self.r * self.s if k == d else x for k, x in enumerate(i)])

    def gather(self, it, b):
        """Every process has its slice of a known parameter; the result is that parameter."""
        ctx, x, d = self.ctx, b["x"], b["dim"]
        ctx.ensure("slices are gathered from the tensor parallel gang", b["gang"] is self.gang)
        d = tn.norm_axis(x, d)
        one = len(x.shape) == 1
        cells = self.full["bias" if one else "weight"]
        ctx.ensure("slices are gathered along the dimension they are slices of", d == (0 if one else self.dim))
        i = [ctx.int("gi", lo=0) for _ in x.shape]
        ctx.assume(z3.And(*[a < zint(n) for a, n in zip(i, x.shape)]))
        ctx.ensure("what is gathered is the slice of this process", tn.cell_eq(x.at(*i), self.slice(cells, d)(*i)))
        return tn.make(ctx, x.shape[:d] + (zint(x.shape[d]) * self.T,) + x.shape[d + 1:], cells, x.kind, x.dtype, x.device)

    def param(self, ctx, t, shape, cells, what):
        """The parameter has the shape and the cells."""
        ctx.ensure(f"the shape of {what}", z_and(len(t.shape) == len(shape), *[zint(a) == zint(b) for a, b in zip(t.shape, shape)]))
        if len(t.shape) != len(shape):
            return
        i = [ctx.int("pi", lo=0) for _ in shape]
        c = z3.And(*[a < zint(n) for a, n in zip(i, shape)])
        ctx.ensure(f"the entries of {what}", z3.Implies(c, tn.cell_eq(t.at(*i), cells(*i))))

    def check(self, m, full, what):
        """The parameters of m are those of this process (full: those of the whole module)."""
        it, ctx = self.it, self.ctx
        W, b = self.full["weight"], self.full.get("bias")
        self.param(ctx, it.getattr(m, "weight"), self.shape(full), W if full else self.slice(W), f"{what} weight")
        if self.what == "linear":
            mb = it.getattr(m, "bias")
            ctx.ensure(f"{what} bias if there is one", z3.BoolVal((mb is None) == (b is None)))
            if mb is not None and b is not None:
                part = self.dim == 0 and not full
                n = (self.s if part else self.D) if self.dim == 0 else self.other
                self.param(ctx, mb, (n,), self.slice(b, 0) if part else b, f"{what} bias")

    def module(self):
        """An unsharded module with arbitrary parameters."""
        ctx, it = self.ctx, self.it
        W = tn.symbolic(ctx, "weight", self.shape(True), "real", Ext("torch.float32"), self.dev)
        self.full["weight"] = W.reader()
        f = {"weight": W, "init_fn": None, "training": True}
        if self.what == "linear":
            has = ctx.alt("bias", [False, True])
            b = tn.symbolic(ctx, "bias", (self.shape(True)[0],), "real", Ext("torch.float32"), self.dev) if has else None
            if has:
                self.full["bias"] = b.reader()
            i, o = self.dims()
            return it.new(PR + ":Linear", input_dim=i, output_dim=o, bias=b, **f)
        n, e = self.dims()
        self.pad = [None, ctx.int("pad_idx", lo=0)][ctx.alt("pad", [0, 1])]
        if self.pad is not None:
            ctx.assume(self.pad < n)
        return it.new(EM + ":StandardEmbedding", num_embeddings=n, embed_dim=e, pad_idx=self.pad, **f)


def rejected(ctx, it, w, out):
    if out[0] == "exc":
        ctx.ensure("rejected with a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        ctx.ensure("only dimensions that are not divisible are rejected", w.rem != 0)
        ctx.cover("rejected")
        return True
    ctx.ensure("dimensions that are not divisible are rejected", w.rem == 0)
    return False


def convert(kind):
    def f(ctx, it):
        w = World(ctx, it, kind)
        m = w.module()
        how = ctx.alt("gang", ["gangs", "gang", "current"])
        args = {"gangs": w.gangs} if how == "gangs" else {"gang": w.gang} if how == "gang" else {}
        out = it.outcome(lambda: it.call_func(f"{w.cls}.from_{w.what}", m, **args))
        if rejected(ctx, it, w, out):
            return
        p = out[1]
        w.check(p, False, "sharded")
        dims = it.concrete_items(it.call_method(p, "get_shard_dims"))
        want = [(it.getattr(p, "weight"), w.dim)]
        if kind == "column" and it.getattr(p, "bias") is not None:
            want.append((it.getattr(p, "bias"), 0))
        ctx.ensure("the sharded parameters are reported with their dimension",
                   z3.BoolVal(dims is not None and len(dims) == len(want) and all(any(a[0] is b[0] and a[1] == b[1] for b in want) for a in dims)))
        u = it.call_method(p, f"to_{w.what}")
        ctx.ensure("restored as the module it was", it.subclass(u.cls, it.cls(PR + ":Linear" if w.what == "linear" else EM + ":StandardEmbedding")))
        for name, want in zip(("input_dim", "output_dim") if w.what == "linear" else ("num_embeddings", "embed_dim"), w.dims()):
            ctx.ensure("restored with the full dimensions", zint(it.getattr(u, name)) == want)
        w.check(u, True, "restored")
        ctx.cover("done")
    return f


def fresh(kind):
    def f(ctx, it):
        w = World(ctx, it, kind)
        a = w.dims()
        kw = {"gangs": w.gangs} if ctx.alt("gang", ["gangs", "current"]) == "gangs" else {}
        kw["dtype"] = Ext("torch.float32")
        if w.what == "linear":
            kw["bias"] = ctx.alt("bias", [False, True])
        out = it.outcome(lambda: it.instantiate(it.cls(w.cls), a, kw))
        if rejected(ctx, it, w, out):
            return
        ctx.ensure("parameters are initialised", z3.BoolVal(len(w.inits) == 1))
        if len(w.inits) != 1:
            return
        m, cells = w.inits[0]
        w.full.update(cells)
        if m is not out[1]:
            w.check(m, True, "initialised")
        else:
            ctx.ensure("only the module of a single process is initialised as a whole", w.T == 1)
        w.check(out[1], False, "initialised")
        ctx.cover("done")
    return f


for _k in KINDS:
    unit(f"{_k}: shard and restore", about="a gang of any size: each process gets the contiguous slice of its rank, which restore the full parameters",
         assumes=[COLL])(convert(_k))
    unit(f"{_k}: initialise", about="a gang of any size: each process keeps its slice of the initialised full parameters", assumes=[COLL])(fresh(_k))


# ----------------------------------------------------------------------------- what the sharded modules compute
class Val(Model):
    """A linear map of the input: the sum over columns lo..hi of the operands, of rows lo2..hi2, plus a bias `b` times."""

    def __init__(self, ctx, form):
        super().__init__(ctx, None)
        self.form = form

    def binop(self, it, op, other, swapped):
        if op == "Add":
            return Val(it.ctx, plus(self.form, other))
        raise Unsupported(f"{op} of an output")


def plus(form, b):
    return ("plus", form, b)


def run_linear(kind):
    def f(ctx, it):
        w = World(ctx, it, kind, rem=False)
        del ctx.contracts[TP + ":gather"]
        sym = lambda n, s: tn.symbolic(ctx, n, s, "real", Ext("torch.float32"), w.dev)
        W = sym("weight", w.shape(False))
        b = sym("bias", (w.s if kind == "column" else w.other,)) if ctx.alt("bias", [False, True]) else None
        flags = {"gather_output": ctx.bool("gather_output", inp=True)} if kind == "column" else \
            {"scatter_input": ctx.bool("scatter_input", inp=True), "reduce_output": ctx.bool("reduce_output", inp=True)}
        many = ctx.branch(w.T > 1)
        i, o = w.dims()
        m = it.new(w.cls, input_dim=i, output_dim=o, weight=W, bias=b, sharded=many, tp_gang=w.gang, training=True, init_fn=None,
                   sharded_output_dim=w.s, sharded_input_dim=w.s, **flags)
        x = Val(ctx, "x")

        def coll(name, last):
            def g(it, bd):
                ctx.ensure("over the tensor parallel gang", bd["gang"] is w.gang)
                if last:
                    ctx.ensure("along the last dimension", z3.BoolVal(bd["dim"] in (-1, 2)))
                return Val(ctx, (name, bd["x"].form)) if many else bd["x"]
            return g

        for n, last in (("gather", True), ("scatter", True), ("reduce", False), ("reduce_on_backward", False)):
            ctx.contracts[f"{TP}:{n}"] = coll(n, last)

        def linear(it, a, k):
            a = list(a) + [k[n] for n in ("weight", "bias") if n in k]
            y = ("linear", a[0].form, a[1])
            return Val(ctx, plus(y, a[2]) if len(a) > 2 and a[2] is not None else y)

        it.b.EXT_CALLS["torch.nn.functional.linear"] = linear
        form = it.call_method(m, "forward", x).form
        bias = lambda y: y if b is None else plus(y, b)
        if kind == "column":
            want = bias(("linear", ("reduce_on_backward", "x") if many else "x", W))
            if many and ctx.branch(flags["gather_output"]):
                want = ("gather", want)
        else:
            want = ("linear", ("scatter", "x") if many and ctx.branch(flags["scatter_input"]) else "x", W)
            if many and ctx.branch(flags["reduce_output"]):
                want = ("reduce", want)
            want = bias(want)
        ctx.ensure("columns: each process computes its rows of the output from the whole input, gathered in the end; "
                   "rows: each process sums over its part of the input, summed up over the processes before the bias is added once",
                   z3.BoolVal(same_form(form, want)))
        ctx.cover("done")
    return f


def same_form(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_form(x, y) for x, y in zip(a, b))
    return a is b or isinstance(a, str) and a == b


for _k in ("column", "row"):
    unit(f"{_k}: forward", about="a gang of any size, with and without bias: what is computed from which slice, and when it is put together",
         assumes=[COLL, "torch.nn.functional.linear is linear in its operands"])(run_linear(_k))


def run_embed(kind):
    def f(ctx, it):
        w = World(ctx, it, kind, rem=False)
        w.module()
        full = w.full["weight"]
        W = tn.make(ctx, w.shape(False), w.slice(full), "real", Ext("torch.float32"), w.dev)
        own = W.reader()
        many = ctx.branch(w.T > 1)
        N, S = ctx.int("batch", lo=1), ctx.int("len", lo=1)
        x = tn.symbolic(ctx, "x", (N, S), "int", Ext("torch.int64"), w.dev)
        n, e = w.dims()
        p, q, c = ctx.int("p", lo=0), ctx.int("q", lo=0), ctx.int("c", lo=0)
        ctx.assume(z3.And(p < N, q < S))
        idx = x.at(p, q)
        ctx.assume(z3.And(idx >= 0, idx < n))
        m = it.new(w.cls, num_embeddings=n, embed_dim=e, weight=W, pad_idx=w.pad, sharded=many, tp_gang=w.gang, training=True, init_fn=None,
                   sharded_num_embeddings=w.s, sharded_embed_dim=w.s)
        lo = w.r * w.s if kind == "vocab" else z3.IntVal(0)
        rows = w.s if kind == "vocab" else n
        cols = e if kind == "vocab" else w.s

        def embedding(it, a, k):
            ix, wt, pad = a[0], a[1], a[2] if len(a) > 2 else k.get("padding_idx")
            i = ix.at(p, q)
            ctx.ensure("embeddings are taken from the slice of this process", wt is W)
            ctx.ensure("indices are those of rows of the slice", z3.And(i >= 0, i < rows))
            if w.pad is None or pad is None:
                ctx.ensure("the padding row gets no gradient", z3.BoolVal(pad is None) == z3.BoolVal(True) if w.pad is None else
                           z3.Or(w.pad < lo, w.pad >= lo + rows))
            else:
                ctx.ensure("the padding row is that of the slice", zint(pad) + lo == w.pad)
            g = ix.reader()
            return tn.make(ctx, ix.shape + (wt.shape[1],), lambda *z: own(g(*z[:-1]), z[-1]), "real", wt.dtype, wt.device)

        it.b.EXT_CALLS["torch.nn.functional.embedding"] = embedding
        mine = z3.And(idx >= lo, idx < lo + rows)
        done = []

        def reduce(it, b):
            t = b["x"]
            ctx.ensure("over the tensor parallel gang", b["gang"] is w.gang)
            if kind != "vocab":
                return t if not many else Model(ctx, None)
            ctx.assume(c < e)
            v = t.at(p, q, c)
            # the embedding of an index is added by the one process that has its row, all others add zero
            ctx.ensure("the process with the row of an index adds its embedding, others add zero",
                       v == z3.If(mine, full(idx, c), z3.RealVal(0)))
            done.append("reduce")
            g = x.reader()
            return tn.make(ctx, t.shape, lambda *z: full(g(*z[:-1]), z[-1]), "real", t.dtype, t.device)

        def gather(it, b):
            t, d = b["x"], tn.norm_axis(b["x"], b["dim"])
            ctx.ensure("over the tensor parallel gang", b["gang"] is w.gang)
            ctx.ensure("parts are gathered along the embeddings", z3.BoolVal(d == 2 and kind == "embed"))
            ctx.assume(c < w.s)
            ctx.ensure("each process has its part of every embedding", t.at(p, q, c) == full(idx, w.r * w.s + c))
            g = x.reader()
            return tn.make(ctx, t.shape[:2] + (e,), lambda *z: full(g(*z[:-1]), z[-1]), "real", t.dtype, t.device)

        ctx.contracts[TP + ":reduce"], ctx.contracts[TP + ":gather"] = reduce, gather
        ctx.contracts[TP + ":reduce_on_backward"] = lambda it, b: b["x"]
        t = it.call_method(m, "forward", x)
        ctx.ensure("one embedding for each index", z_and(len(t.shape) == 3, *[zint(a) == zint(b) for a, b in zip(t.shape, (N, S, e))]))
        k = ctx.int("k", lo=0)
        ctx.assume(k < e)
        ctx.ensure("the embedding of an index is its row of the full parameter", t.at(p, q, k) == full(idx, k))
        ctx.cover("done")
    return f


for _k in ("vocab", "embed"):
    unit(f"{_k}: forward", about="a gang of any size, any indices: the result is the row of the full parameter",
         assumes=[COLL, "torch.nn.functional.embedding returns the rows of its indices"])(run_embed(_k))


# ----------------------------------------------------------------------------- tensor parallel operations
class Coll(Model):
    """A gang: all_gather_to_list puts the tensor of process q at position q, all_reduce sums in place."""

    def __init__(self, ctx, T, r, dev, other):
        super().__init__(ctx, "fairseq2.gang:Gang", rank=r, size=T, device=dev)
        self.log, self.other = [], other

    def m_all_gather_to_list(self, ctx, out, x):
        n, t = seq_len_of(out), x
        ctx.ensure("one tensor of every process is received", n == zint(self.fields["size"]))
        g = x.reader()
        r = self.fields["rank"]

        def get(q):
            q = zint(q)
            return tn.make(ctx, t.shape, lambda *i: z3.If(q == r, g(*i), self.other(q, *[zint(a) for a in i])), t.kind, t.dtype, t.device)

        out.set(ctx, SymSeq(self.fields["size"], get, None))
        self.log.append(("gather", x))

    def m_all_reduce(self, ctx, x, op):
        self.log.append(("reduce", x, op, x.reader()))
        s = self.other
        x.write(ctx, lambda *i: s(z3.IntVal(-1), *[zint(a) for a in i]), "real")


def seq_len_of(p):
    c = p.content
    return zint(c.length) if isinstance(c, SymSeq) else z3.IntVal(len(c))


def ops(ctx, it, divisible):
    w = World(ctx, it, "column", rem=not divisible)
    other = ctx.func("part_of", I, I, I, z3.RealSort())
    g = Coll(ctx, w.T, w.r, w.dev, other)
    d = ctx.alt("dim", [0, 1, -1, -2])
    a = d % 2
    return w, g, d, a, other


def tensor2(ctx, w, a, n):
    shape = (n, w.other) if a == 0 else (w.other, n)
    return tn.symbolic(ctx, "x", shape, "real", Ext("torch.float32"), w.dev)


def scatter_like(qual, back):
    def f(ctx, it):
        w, g, d, a, _ = ops(ctx, it, False)
        x = tensor2(ctx, w, a, w.D)
        full = x.reader()
        c = Model(ctx, None)
        if back:
            setattrs(it, c, dim=d, gang=g)
            out = it.outcome(lambda: it.call_func(qual, c, x))
        else:
            out = it.outcome(lambda: it.call_func(qual, c, x, g, d))
        if rejected(ctx, it, w, out):
            return
        t = out[1][0] if back else out[1]
        one, two = ctx.int("i", lo=0), ctx.int("j", lo=0)
        ctx.assume(z3.And(one < w.s, two < w.other))
        idx = (one, two) if a == 0 else (two, one)
        src = (one + w.r * w.s, two) if a == 0 else (two, one + w.r * w.s)
        ctx.ensure("a slice of the size of a shard", z3.And(zint(t.shape[a]) == w.s, zint(t.shape[1 - a]) == w.other))
        ctx.ensure("each process keeps the slice of its rank", t.at(*idx) == full(*src))
        if back:
            ctx.ensure("no other gradients", z3.BoolVal(all(v is None for v in out[1][1:])))
        ctx.cover("done")
    return f


def setattrs(it, o, **kw):
    for n, v in kw.items():
        o.fields[n] = v


def gather_like(qual, back):
    def f(ctx, it):
        w, g, d, a, other = ops(ctx, it, True)
        x = tensor2(ctx, w, a, w.s)
        mine = x.reader()
        c = Model(ctx, None)
        if back:
            setattrs(it, c, dim=d, gang=g)
            t = it.call_func(qual, c, x)[0]
        else:
            t = it.call_func(qual, c, x, g, d)
        q, one, two = ctx.int("q", lo=0), ctx.int("i", lo=0), ctx.int("j", lo=0)
        ctx.assume(z3.And(one < w.s, two < w.other, q < w.T))
        ctx.fact(z3.And(q * w.s + one < w.T * w.s, q * w.s >= 0))
        idx = (one, two) if a == 0 else (two, one)
        at = (one + q * w.s, two) if a == 0 else (two, one + q * w.s)
        ctx.ensure("as large as all parts together", z3.And(zint(t.shape[a]) == w.s * w.T, zint(t.shape[1 - a]) == w.other))
        ctx.ensure("the parts of all processes in order of rank", t.at(*at) == z3.If(q == w.r, mine(*idx), other(q, *idx)))
        ctx.cover("done")
    return f


unit("scatter", about="a gang of any size, either dimension", assumes=["torch.split by contract"])(scatter_like(TP + ":_ScatterFunction.forward", False))
unit("scatter backward", about="the gradient of a gathered tensor is scattered", assumes=["torch.split by contract"])(scatter_like(TP + ":_GatherFunction.backward", True))
unit("gather", about="a gang of any size, either dimension", assumes=["Gang.all_gather_to_list receives in order of rank"])(gather_like(TP + ":_GatherFunction.forward", False))
unit("gather backward", about="the gradient of a scattered tensor is gathered", assumes=["Gang.all_gather_to_list receives in order of rank"])(
    gather_like(TP + ":_ScatterFunction.backward", True))


@unit("reduce", about="reduce sums over the processes and leaves its input alone; the gradient is passed on, and the other way round")
def reduces(ctx, it):
    w, g, d, a, other = ops(ctx, it, True)
    x = tensor2(ctx, w, a, w.s)
    before = x.reader()
    c = Model(ctx, None)
    i, j = ctx.int("i", lo=0), ctx.int("j", lo=0)
    ctx.assume(z3.And(i < zint(x.shape[0]), j < zint(x.shape[1])))
    total = lambda t: t.at(i, j) == other(z3.IntVal(-1), i, j)

    def summed(t):
        ctx.ensure("summed over the processes once", z3.BoolVal(len(g.log) == 1 and g.log[0][0] == "reduce" and getattr(g.log[0][2], "name", "").endswith("SUM")))
        ctx.ensure("the sum of what every process has", g.log[0][3](i, j) == before(i, j) if g.log else z3.BoolVal(False))
        ctx.ensure("the result is the sum", total(t))

    which = ctx.alt("operation", ["reduce", "reduce backward", "on backward", "on backward's"])
    if which == "reduce":
        t = it.call_func(TP + ":_ReduceFunction.forward", c, x, g)
        summed(t)
        ctx.ensure("the input is left as it is", x.at(i, j) == before(i, j))
    elif which == "reduce backward":
        t = it.call_func(TP + ":_ReduceFunction.backward", c, x)[0]
        ctx.ensure("passed on as it is", z3.And(t.at(i, j) == before(i, j), z3.BoolVal(not g.log)))
    elif which == "on backward":
        t = it.call_func(TP + ":_ReduceOnBackwardFunction.forward", c, x, g)
        ctx.ensure("passed on as it is", z3.And(t.at(i, j) == before(i, j), z3.BoolVal(not g.log)))
    else:
        setattrs(it, c, gang=g)
        summed(it.call_func(TP + ":_ReduceOnBackwardFunction.backward", c, x)[0])
    ctx.cover("done")


# ----------------------------------------------------------------------------- resharding of checkpoint parameters
RS = "fairseq2.model_checkpoint.common:reshard_tensor"


class Shards:
    """Tensor parallel shard s of the source: positions s * n to (s + 1) * n of the full parameter along its sharded dimension."""

    name = "shard"
    n = None
    dim = 0

    def getattr(self, it, e, name):
        if name == "size":
            def size(it, a, k):
                d = a[0] if a else k["dim"]
                if d != self.dim:
                    raise Unsupported("the size of another dimension")
                return self.n
            return Native(size, name)
        if name == "shape":
            raise Unsupported("shape of a shard")
        if name == "narrow":
            return Native(lambda it, a, k: Section(it.ctx, zint(e.id) * self.n, self.n, self.dim).m_narrow(it.ctx, *a, **k), name)
        raise Unsupported(f"{name} of a shard")


class Splits:
    """The data parallel splits of a tensor parallel shard, one after another along dimension 0."""

    name = "splits"
    one = True

    def getitem(self, it, e, i):
        if self.one and i == 0:
            return Entity(SHARD, zint(e.id))
        raise Unsupported("one of several splits")


SHARD, SPLITS = Shards(), Splits()


class Section(Model):
    """A section of the full parameter along its sharded dimension."""

    def __init__(self, ctx, lo, n, dim):
        super().__init__(ctx, None)
        self.lo, self.n, self.dim = lo, n, dim

    def m_narrow(self, ctx, dim=None, start=None, length=None):
        ctx.ensure("narrowed along the sharded dimension", z3.BoolVal(dim == self.dim))
        ctx.ensure("narrowed to what there is", z3.And(zint(start) >= 0, zint(length) >= 0, zint(start) + zint(length) <= self.n))
        return Section(ctx, self.lo + zint(start), zint(length), self.dim)

    def m_contiguous(self, ctx):
        return self

    def m_clone(self, ctx):
        return self


@unit("reshard", about="any source and target sizes, any rank: the section of the full parameter that belongs to the rank", assumes=["torch.cat and narrow by contract"])
def reshard(ctx, it):
    S, T, r = ctx.int("source_tp", lo=1, inp=True), ctx.int("target_tp", lo=1, inp=True), ctx.int("target_rank", lo=0, inp=True)
    n, m = ctx.int("source_dim", lo=1, inp=True), ctx.int("target_dim", lo=1, inp=True)
    ctx.assume(z3.And(r < T, n * S == m * T))
    ctx.memo["uf-mod"] = True
    dim = ctx.alt("dim", [0, 1, None])
    one = ctx.alt("source_dp", ["one", "several"]) == "one"
    SHARD.n, SHARD.dim, SPLITS.one = n, dim, one
    dp = 1 if one else ctx.int("source_dp", lo=2)
    ctx.fact(z3.And(r * m + m <= T * m, r * m >= 0))
    ctx.memo["quotients"] = [m, m + 1, S, r, T]

    def cat(it, ar, k):
        d = ar[1] if len(ar) > 1 else k.get("dim", 0)
        if isinstance(ar[0], Entity) and ar[0].model is SPLITS:
            ctx.ensure("data parallel splits are put together along the first dimension", z3.BoolVal(d == 0))
            return Entity(SHARD, zint(ar[0].id))
        s = it.seq_of(ar[0])
        ctx.ensure("tensor parallel shards are put together along the sharded dimension", z3.BoolVal(d == dim))
        x = ctx.int("cat_x", lo=0)
        ctx.assume(x < zint(s.length))
        first = zint(s.get(z3.IntVal(0)).id)
        ctx.ensure("shards are put together in order", zint(s.get(x).id) == first + x)
        return Section(ctx, z3.simplify(first * n, som=True), z3.simplify(zint(s.length) * n, som=True), dim)

    import os; it.dbg=1
    it.b.EXT_CALLS["torch.cat"] = it.b.EXT_CALLS["torch.concat"] = cat
    q = z3.Int("rq")

    def gen(view):
        out, k = {}, zint(view.k)
        for name, c in view.cur.items():
            if isinstance(c, list) and not c:
                out[f"{name}: one each"] = k == 0
                out[f"{name}: shards in order"] = z3.BoolVal(True)
                out[f"{name}: shards in order from some"] = z3.BoolVal(True)
            elif isinstance(c, SymSeq):
                out[f"{name}: one each"] = zint(c.length) == k
                e = lambda j: zint(c.get(j).id)
                if isinstance(c.get(z3.IntVal(0)), Entity):
                    out[f"{name}: shards in order"] = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zint(c.length)), e(q) == q))
                    if view.seq is not None and is_z3(view.seq.get(z3.IntVal(0))):
                        f = zint(view.seq.get(z3.IntVal(0)))
                        out[f"{name}: shards in order from some"] = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zint(c.length)), e(q) == f + q))
        return out

    ctx.loop_cands.append(gen)
    splits = PyList(ctx, SymSeq(S, lambda j: Entity(SPLITS, zint(j)), ("ent", SPLITS)))
    dims = PyDict(ctx, {} if dim is None else {"w": dim})
    target_dp, dp_rank = ctx.int("target_dp", lo=1), ctx.int("dp_rank", lo=0)
    out = it.outcome(lambda: it.call_func(RS, "w", splits, (S, dp), (T, target_dp), (r, dp_rank), dims))
    ctx.ensure("reshards", z3.BoolVal(out[0] == "ok"))
    if out[0] != "ok":
        return
    t = out[1]
    if dim is None:
        ctx.ensure("a replicated parameter is any of its copies", z3.BoolVal(isinstance(t, Entity) and t.model is SHARD))
        ctx.cover("replicated")
        return
    if isinstance(t, Entity):
        t = Section(ctx, zint(t.id) * n, n, dim)
    ctx.ensure("as long as a shard of the target", t.n == m)
    ctx.ensure("it begins where the shard of the rank begins", t.lo == r * m)
    ctx.cover("resharded")
