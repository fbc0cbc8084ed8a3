import pyvc.tensor as tn
from pyvc.api import *

BL = "fairseq2.nn.batch_layout:BatchLayout"
I = z3.IntSort()


class World:
    """A batch shape and a list of n lengths; bad is the first length that does not fit (n: none)."""

    def __init__(self, ctx, it, packed):
        self.ctx, self.it, self.packed = ctx, it, packed
        self.W = ctx.int("width", inp=True)
        self.N = ctx.int("batch_size", lo=0, inp=True)
        self.given = ctx.alt("seq_lens", ["none", "given"]) == "given"
        self.n = ctx.int("n", lo=0, inp=True) if self.given else (z3.IntVal(1) if packed else self.N)
        f = ctx.func("length", I, I)
        self.len = (lambda j: f(zint(j))) if self.given else (lambda j: self.W)
        self.beg = beg = ctx.func("begin", I, I)
        i, j, p = z3.Ints("wi wj wp")
        n, W = self.n, self.W
        self.bad = bad = ctx.int("bad", lo=0)
        ctx.fact(bad <= n)
        fine = lambda j: z3.And(self.len(j) >= 1, (beg(j + 1) if packed else self.len(j)) <= W)
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < bad), fine(j)), patterns=[f(j)] if self.given else [beg(j)]))
        ctx.fact(z3.Implies(bad < n, z3.Not(fine(bad))))
        ctx.fact(beg(0) == 0)
        if packed:
            ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), beg(j + 1) == beg(j) + self.len(j)), patterns=[f(j)] if self.given else [beg(j)]))
            # running totals of positive lengths ascend (by induction on j)
            ctx.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j <= bad), beg(i) <= beg(j)), patterns=[z3.MultiPattern(beg(i), beg(j))]))
            # every position before the end of the fitting sequences is in one of them
            self.own = own = ctx.func("sequence_of", I, I)
            ctx.fact(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < beg(bad)), z3.And(own(p) >= 0, own(p) < bad, beg(own(p)) <= p, p < beg(own(p) + 1))),
                               patterns=[own(p)]))
        else:
            ctx.fact(z3.ForAll([j], beg(j) == j * W, patterns=[beg(j)]))
        ctx.loop_cands.append(self.cands)

    def position(self, i, p, k):
        """The position index at (row i, column p) once k sequences have been laid out (None: all)."""
        done = self.n if k is None else k
        if self.packed:
            inside = p - self.beg(self.own(p))
            rest = z3.IntVal(-1) if k is None else p
            return z3.If(p < self.beg(done), inside, rest)
        return z3.If(z3.And(i < done, p >= self.len(i)), z3.IntVal(-1), p)

    def cands(self, view):
        out, k = {}, zint(view.k)
        j, i, p = z3.Ints("cj ci cp")
        me = view.frame.vars["self"]
        for name, t in me.fields.items():
            if isinstance(t, tn.Tensor):
                if self.packed:
                    out[f"{name}: laid out"] = z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < self.W), t.at(p) == self.position(None, p, k)))
                else:
                    out[f"{name}: laid out"] = z3.ForAll([i, p], z3.Implies(z3.And(i >= 0, i < self.N, p >= 0, p < self.W), t.at(i, p) == self.position(i, p, k)))
        some = lambda f: z3.Exists([j], z3.And(j >= 0, j < k, f(j)))
        every = lambda f: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), f(j)))
        out["fitting so far"] = k <= self.bad
        for name, cur in view.cur.items():
            if isinstance(cur, (SymSeq, list)):
                c = PyList(None, cur)
                s = view.it.seq_of(c)
                ln = zint(s.length)
                if isinstance(cur, list) and not cur:
                    out[f"{name}: lengths"] = out[f"{name}: begins"] = z3.BoolVal(True)
                    continue
                el = lambda j: zint(s.get(j))
                out[f"{name}: lengths"] = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), el(j) == self.len(j)))
                out[f"{name}: begins"] = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), el(j) == self.beg(j)))
            elif isinstance(cur, bool) or is_sym_bool(cur):
                out[f"{name}: some is short"] = zbool(cur) == some(lambda j: self.len(j) < self.W)
            elif is_z3(cur) and z3.is_int(cur) or isinstance(cur, int):
                c = zint(cur)
                out[f"{name}: running total"] = c == self.beg(k)
                out[f"{name}: least"] = z3.And(every(lambda j: c <= self.len(j)), z3.If(k == 0, c == self.W, some(lambda j: c == self.len(j))))
                out[f"{name}: most"] = z3.And(every(lambda j: c >= self.len(j)), z3.If(k == 0, c == 0, some(lambda j: c == self.len(j))))
        return out


def layout(packed):
    def f(ctx, it):
        w = World(ctx, it, packed)
        W, n = w.W, w.n
        shape = (W,) if packed else (w.N, W)
        lens = PyList(ctx, SymSeq(n, w.len, ("int",))) if w.given else None
        dims = ctx.alt("dims", ["right", "wrong"])
        if dims == "wrong":
            shape = (w.N, W) if packed else (W,)
        out = it.outcome(lambda: it.instantiate(it.cls(BL), [shape, lens], {"packed": packed}))
        right = z_and(dims == "right", W >= 1, w.bad == n, True if packed or not w.given else n == w.N)
        if out[0] == "exc":
            ctx.ensure("rejected with a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
            ctx.ensure("only lengths that cannot fit are rejected", z_not(right))
            ctx.cover("rejected")
            return
        ctx.ensure("lengths that cannot fit are rejected", right)
        r = out[1]
        g = lambda a: it.getattr(r, a)
        ctx.ensure("the width is that of the batch", zint(g("width")) == W)
        ctx.ensure("packed as asked", zbool(g("packed")) == packed)
        for a, count, el, what in (("seq_lens", n, w.len, "lengths"), ("seq_begin_indices", n + 1, w.beg, "boundaries")):
            s, t = it.seq_of(g(a)), g(a + "_pt")
            x = ctx.int(f"x_{a}", lo=0)
            ctx.ensure(f"one entry per sequence: {what}", z3.And(zint(s.length) == count, zint(t.shape[0]) == count))
            if ctx.branch(x < count):
                ctx.ensure(f"the {what} of the sequences", z3.And(zint(s.get(x)) == el(x), zint(t.at(x)) == el(x)))
        j = z3.Int("ej")
        lo, hi = zint(g("min_seq_len")), zint(g("max_seq_len"))
        y = ctx.int("y", lo=0)
        ctx.ensure("no length is beyond the least and the greatest", z3.Implies(y < n, z3.And(lo <= w.len(y), w.len(y) <= hi)))
        is_len = lambda v: z3.Exists([j], z3.And(j >= 0, j < n, w.len(j) == v))
        ctx.ensure("the least and the greatest are lengths", z3.Implies(n > 0, z3.And(is_len(lo), is_len(hi))))
        t = g("position_indices")
        i, p = ctx.int("row", lo=0), ctx.int("column", lo=0)
        if packed:
            ctx.ensure("position indices have the shape of the batch", z_and(len(t.shape) == 1, zint(t.shape[0]) == W))
            ctx.ensure("positions count within their sequences and are a sentinel on padding",
                       z3.Implies(p < W, zint(t.at(p)) == w.position(None, p, None)))
            pad = w.beg(n) < W
        else:
            ctx.ensure("position indices have the shape of the batch", z_and(len(t.shape) == 2, zint(t.shape[0]) == w.N, zint(t.shape[1]) == W))
            ctx.ensure("positions count within their sequences and are a sentinel on padding",
                       z3.Implies(z3.And(i < w.N, p < W), zint(t.at(i, p)) == w.position(i, p, None)))
            pad = z3.Exists([j], z3.And(j >= 0, j < n, w.len(j) < W))
        ctx.ensure("padded exactly if some position is padding", zbool(g("padded")) == pad)
        ctx.cover("laid out")
        ctx.require_cover("laid out", "rejected")
    return f


@unit("of a batch", about="BatchLayout.of describes the leading dimensions of the batch tensor")
def of(ctx, it):
    packed = ctx.bool("packed")
    a, b, c = (ctx.int(n, lo=0) for n in "abc")
    dev = tn.DEVICE(ctx)
    t = tn.symbolic(ctx, "batch", (a, b, c), "real", device=dev)
    n = ctx.int("n", lo=0)
    lens = PyList(ctx, SymSeq(n, ctx.func("length", I, I), ("int",))) if ctx.alt("seq_lens", ["none", "given"]) == "given" else None
    made = []

    def new(it, args, kw):
        made.append(dict(zip(("shape", "seq_lens"), args), **kw))
        return Model(ctx, None)

    ctx.class_models[BL] = new
    out = it.outcome(lambda: it.call_func(BL + ".of", t, lens, packed=packed))
    ctx.ensure("a layout is made", out[0] == "ok" and len(made) == 1)
    if out[0] == "ok" and made:
        m = made[0]
        sh = it.concrete_items(m["shape"])
        want = z3.If(packed, z3.IntVal(1), z3.IntVal(2))
        ctx.ensure("the leading dimensions of the batch", z_and(want == len(sh), *[zint(x) == y for x, y in zip(sh, (a, b))]))
        ctx.ensure("packed as asked", zbool(m.get("packed", False)) == packed)
        ctx.ensure("the lengths as given", m.get("seq_lens") is lens)
        ctx.ensure("on the device of the batch", m.get("device") is dev)
        ctx.cover("made")
    ctx.require_cover("made")


_T = ["torch: arange, expand, slicing, subtraction and assignment in place"]
unit("packed", about="packed batches of any width and any list of lengths", assumes=_T)(layout(True))
unit("padded", about="batches of any size and width with any list of lengths", assumes=_T)(layout(False))
