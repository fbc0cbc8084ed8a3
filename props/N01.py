import pyvc.tensor as tn
from pyvc.api import *

SA = "fairseq2.generation.sampling.sampler:"
I, R = z3.IntSort(), z3.RealSort()
ASSUMES = ["torch sort, topk, argmax, cumsum, sum and multinomial by contract; numbers as reals"]


class World:
    """Probabilities of n rows over a vocabulary of V; b is any row."""

    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        self.n, self.V = ctx.int("rows", lo=1, inp=True), ctx.int("vocab", lo=1, inp=True)
        self.b = ctx.int("b", lo=0)
        ctx.assume(self.b < self.n)
        self.p = ctx.func("prob", I, I, R)
        self.S0 = ctx.func("total", I, R)
        self.probs = tn.make(ctx, (self.n, self.V), lambda b, v: self.p(zint(b), zint(v)), "real")
        q = z3.Int("q")
        self.nonneg(self.p(self.b, q), q)
        ctx.fact(self.S0(self.b) > 0)
        self.order = None
        self.draws, self.idx, self.calls = None, None, 0
        self.top = ctx.func("is_top", I, I, z3.BoolSort())
        ctx.memo["sum"] = self.sum
        for name in ("sort", "topk", "argmax", "cumsum", "multinomial", "argsort"):
            f = getattr(self, name)
            it.b.EXT_CALLS["torch." + name] = lambda it, a, k, f=f: f(*a, **k)
            tn.METHODS[name] = lambda it, t, *a, f=f, **k: f(t, *a, **k)

    def nonneg(self, e, q):
        self.ctx.fact(z3.ForAll([q], e >= 0))

    def last(self, t, dim):
        if len(t.shape) != 2 or dim not in (-1, 1):
            raise Unsupported("another dimension")

    def scale(self, t, of):
        """t(b, j) == of(b, j) * c for one of the known c."""
        j = self.ctx.int("any_j", lo=0)
        self.ctx.assume(j < zint(t.shape[1]))
        g = t.reader()
        for c in (z3.RealVal(1), 1 / self.S0(self.b)):
            if self.ctx.is_valid(g(self.b, j) == of(self.b, j) * c):
                return c
        return None

    def sort(self, t, dim=-1, descending=False, stable=False):
        self.last(t, dim)
        if descending is not True:
            raise Unsupported("ascending sort")
        ctx, g = self.ctx, t.reader()
        if self.scale(t, self.p) is None:
            raise Unsupported("sort of something else")
        o, inv = ctx.func("order", I, I, I), ctx.func("place", I, I, I)
        i, j = z3.Int("i"), z3.Int("j")
        b, V = self.b, zint(t.shape[1])
        inn = lambda x: z3.And(x >= 0, x < V)
        ctx.fact(z3.ForAll([j], z3.Implies(inn(j), z3.And(inn(o(b, j)), inv(b, o(b, j)) == j)), patterns=[o(b, j)]))
        ctx.fact(z3.ForAll([i], z3.Implies(inn(i), z3.And(inn(inv(b, i)), o(b, inv(b, i)) == i)), patterns=[inv(b, i)]))
        ctx.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < V), self.p(b, o(b, i)) >= self.p(b, o(b, j))), patterns=[z3.MultiPattern(o(b, i), o(b, j))]))
        ctx.fact(self.p(b, o(b, z3.IntVal(0))) > 0)  # the first of a row with a positive entry
        self.order = o
        self.mass = ctx.func("mass_before", I, I, R)
        ctx.fact(self.mass(b, z3.IntVal(0)) == 0)
        if getattr(self, "k", None) is not None:
            ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.k), self.top(b, o(b, j))), patterns=[o(b, j)]))
        vals = tn.make(ctx, t.shape, lambda x, y: g(x, o(zint(x), zint(y))), "real")
        return (vals, tn.make(ctx, t.shape, lambda x, y: o(zint(x), zint(y)), "int"))

    def argsort(self, t, dim=-1, descending=False, stable=False):
        return self.sort(t, dim, descending)[1]

    def topk(self, t, k=None, dim=-1, largest=True, sorted=True):
        self.last(t, dim)
        if largest is not True:
            raise Unsupported("topk of the smallest")
        ctx, g, b = self.ctx, t.reader(), self.b
        if self.scale(t, self.p) is None:
            raise Unsupported("topk of something else")
        V = zint(t.shape[1])
        if not ctx.branch(z3.And(zint(k) >= 0, zint(k) <= V)):
            raise self.it.exc(RuntimeError, "selected index k out of range")
        o = ctx.func("topk", I, I, I)
        j, i = z3.Int("j"), z3.Int("i")
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(k)), z3.And(o(b, j) >= 0, o(b, j) < V)), patterns=[o(b, j)]))
        ctx.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zint(k)), o(b, i) != o(b, j)), patterns=[z3.MultiPattern(o(b, i), o(b, j))]))
        if getattr(self, "k", None) is not None and ctx.is_valid(zint(k) <= self.k):
            ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(k)), self.top(b, o(b, j))), patterns=[o(b, j)]))
        best = ctx.int("best", lo=0)
        ctx.fact(z3.Implies(zint(k) >= 1, z3.And(best < zint(k), self.p(b, o(b, best)) > 0)))
        vals = tn.make(ctx, (t.shape[0], k), lambda x, y: g(x, o(zint(x), zint(y))), "real")
        return (vals, tn.make(ctx, (t.shape[0], k), lambda x, y: o(zint(x), zint(y)), "int"))

    def argmax(self, t, dim=None, keepdim=False):
        self.last(t, dim)
        ctx, b = self.ctx, self.b
        if self.scale(t, self.p) is None:
            raise Unsupported("argmax of something else")
        m = ctx.func("argmax", I, I)
        j = z3.Int("j")
        ctx.fact(z3.And(m(b) >= 0, m(b) < zint(t.shape[1]), self.p(b, m(b)) > 0))
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(t.shape[1])), self.p(b, m(b)) >= self.p(b, j)), patterns=[self.p(b, j)]))
        ctx.fact(self.top(b, m(b)))
        shape = (t.shape[0], 1) if keepdim else (t.shape[0],)
        return tn.make(ctx, shape, lambda x, *y: m(zint(x)), "int")

    def cumsum(self, t, dim=None):
        """Contract: linear; of the sorted probabilities, the mass of the entries up to and with this one."""
        self.last(t, dim)
        if self.order is None:
            raise Unsupported("cumsum before sort")
        at = lambda b, j: self.p(b, self.order(b, j))
        c = self.scale(t, at)
        if c is None:
            raise Unsupported("cumsum of something else")
        f = (lambda b: z3.RealVal(1)) if z3.is_rational_value(c) else (lambda b: 1 / self.S0(b))
        return tn.make(self.ctx, t.shape, lambda x, y: (self.mass(zint(x), zint(y)) + at(zint(x), zint(y))) * f(zint(x)), "real")

    def sum(self, it, t, dim, keepdim):
        self.last(t, dim)
        ctx, b = self.ctx, self.b
        c = self.scale(t, self.p)
        if c is None and self.order is not None:
            c = self.scale(t, lambda b, j: self.p(b, self.order(b, j)))
        shape = (t.shape[0], 1) if keepdim else (t.shape[0],)
        if c is not None and ctx.is_valid(zint(t.shape[1]) == self.V):
            one = not z3.is_rational_value(c)
            return tn.make(ctx, shape, lambda x, *y: z3.RealVal(1) if one else self.S0(zint(x)), "real")
        s, g = ctx.func("sum", I, R), t.reader()
        j = z3.Int("sj")
        n = zint(t.shape[1])
        ctx.fact(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), g(b, j) >= 0)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), s(b) >= g(b, j)))))
        return tn.make(ctx, shape, lambda x, *y: s(zint(x)), "real")

    def multinomial(self, t, num_samples=None, replacement=False, generator=None):
        ctx, b, g = self.ctx, self.b, t.reader()
        if not (isinstance(num_samples, int) and num_samples == 1):
            raise Unsupported("several draws")
        j = ctx.int("weight_j", lo=0)
        ctx.assume(j < zint(t.shape[1]))
        ctx.ensure("no negative draw probabilities", g(b, j) >= 0)
        self.calls += 1
        d = ctx.func("draw", I, I)
        x = z3.Int("x")
        ctx.fact(z3.ForAll([x], z3.And(d(x) >= 0, d(x) < zint(t.shape[1])), patterns=[d(x)]))
        ctx.fact(g(b, d(b)) > 0)
        self.draws, self.drawn_from, self.width = d, g, t.shape[1]
        return tn.make(ctx, (t.shape[0], 1), lambda x, y: d(zint(x)), "int")

    def proportional(self, target):
        """The draw probabilities of row b are those of target, up to a factor."""
        ctx, b, g = self.ctx, self.b, self.drawn_from
        i, j = ctx.int("wi", lo=0), ctx.int("wj", lo=0)
        ctx.assume(z3.And(i < zint(self.width), j < zint(self.width)))
        ctx.ensure("the draw probabilities are the given ones, restricted", g(b, i) * target(j) == g(b, j) * target(i))
        ctx.ensure("no other entry is drawn", z3.Implies(target(i) == 0, g(b, i) == 0))

    def result(self, r):
        ctx = self.ctx
        ctx.ensure("one result per row", z3.BoolVal(isinstance(r, tn.Tensor) and len(r.shape) == 1 and tn.same(r.shape[0], self.n)))
        v, x = ctx.int("v", lo=0), r.at(self.b)
        ctx.assume(v < self.V)
        ctx.ensure("an index of the vocabulary", z3.And(x >= 0, x < self.V))
        ctx.ensure("the given probabilities are left as they are", self.probs.at(self.b, v) == self.p(self.b, v))
        return x


@unit("top-p", about="any probabilities and p: the draw is among the most probable entries until their mass exceeds p", assumes=ASSUMES)
def top_p(ctx, it):
    ctx.require_cover("drawn")
    w = World(ctx, it)
    p = ctx.real("p", lo=0, inp=True)
    s = it.instantiate(it.cls(SA + "TopPSampler"), [], {"p": p})
    x = w.result(it.call_method(s, "sample", w.probs))
    b = w.b
    ctx.ensure("drawn once", z3.BoolVal(w.calls == 1))
    if w.order is None or w.draws is None:
        raise Unsupported("another way of sampling")
    d = w.draws(b)
    ctx.ensure("the result is the drawn entry", x == w.order(b, d))
    keep = lambda j: w.mass(b, j) <= p * w.S0(b)
    ctx.ensure("the mass of all more probable entries does not exceed p", keep(d))
    ctx.ensure("the most probable entry can be drawn", w.drawn_from(b, z3.IntVal(0)) > 0)
    w.proportional(lambda j: z3.If(keep(j), w.p(b, w.order(b, j)), z3.RealVal(0)))
    ctx.ensure("among all entries", tn.same(w.width, w.V) or w.width == w.V)
    ctx.cover("drawn")


@unit("top-k", about="any probabilities and k: the draw is among the k most probable entries", assumes=ASSUMES)
def top_k(ctx, it):
    ctx.require_cover("drawn", "greedy")
    w = World(ctx, it)
    k = ctx.int("k", lo=1, inp=True)
    w.k = z3.If(k <= w.V, k, w.V)
    s = it.instantiate(it.cls(SA + "TopKSampler"), [k], {})
    x = w.result(it.call_method(s, "sample", w.probs))
    b = w.b
    ctx.ensure("among the k most probable entries", w.top(b, x))
    ctx.ensure("of a probability above zero", w.p(b, x) > 0)
    if w.draws is None:
        ctx.ensure("the most probable one only if k is one", w.k == 1)
        ctx.cover("greedy")
        return
    ctx.ensure("drawn once", z3.BoolVal(w.calls == 1))
    ctx.ensure("all of the k most probable ones can be drawn", zint(w.width) == w.k)
    ctx.cover("drawn")
