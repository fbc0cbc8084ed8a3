import pyvc.tensor as tn
from pyvc.api import *

MHA = "fairseq2.models.transformer.multihead_attention"
BAG = "fairseq2.nn.incremental_state:IncrementalStateBag"
I = z3.IntSort()


# ---------------------------------------------------------------- the bag
class Modules:
    name = "module"


class States:
    """Module states: each of one class; a reorder is counted."""

    name = "state"
    world = None

    def getattr(self, it, e, name):
        w = self.world
        if name == "reorder":
            def f(i, a, k):
                it.ctx.ensure("states are given the new order", a[0] is w.order)
                w.ghost.setf(it.ctx, "n", z3.Store(w.ghost.fields["n"], zint(e.id), z3.Select(w.ghost.fields["n"], zint(e.id)) + 1))
            return Native(f, name)
        return NotImplemented

    def isinstance(self, it, e, cls):
        w = self.world
        if cls is w.cls:
            return w.of_cls(zint(e.id))
        return True


MOD, ST = Modules(), States()


class Bag:
    """A bag after any history of stores: which modules have which states is arbitrary."""

    def __init__(self, ctx, it):
        self.ctx, self.it, ST.world = ctx, it, self
        self.max = ctx.int("max_num_steps", inp=True)
        inc = ctx.alt("capacity_increment", ["none", "some"])
        self.bag = it.instantiate(it.cls(BAG), [self.max], {"capacity_increment": None if inc == "none" else ctx.int("inc", lo=1)})
        self.cls = it.cls(MHA + ":FullAttentionState")
        self.of_cls = ctx.func("of_class", I, z3.BoolSort())
        self.has, self.val, self.key = ctx.func("stored", I, z3.BoolSort()), ctx.func("state_of", I, I), ctx.func("module_nr", I, I)
        self.n = ctx.int("modules", lo=0)
        i, j = z3.Ints("bi bj")
        nr = ctx.func("nr_of", I, I)
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.has(self.key(i)), nr(self.key(i)) == i)), patterns=[self.key(i)]))
        ctx.fact(z3.ForAll([i], z3.Implies(self.has(i), z3.And(nr(i) >= 0, nr(i) < self.n, self.key(nr(i)) == i)), patterns=[self.has(i)]))
        # distinct modules have states of their own
        ctx.fact(z3.ForAll([i, j], z3.Implies(z3.And(self.has(i), self.has(j), i != j), self.val(i) != self.val(j)), patterns=[z3.MultiPattern(self.val(i), self.val(j))]))
        self.ghost = Model(ctx, None, n=z3.K(I, z3.IntVal(0)))
        ctx.roots.append(self.ghost)
        self.order = Model(ctx, None)
        dicts = [v for v in self.bag.fields.values() if isinstance(v, PyDict)]
        if len(dicts) != 1:
            raise Unsupported("states held in another way")
        self.dict = dicts[0]
        self.dict.content = SymMap(lambda m: self.has(zint(m.id)), lambda m: Entity(ST, self.val(zint(m.id))), ("ent", ST),
                                   SymSeq(self.n, lambda x: Entity(MOD, self.key(zint(x))), ("ent", MOD)))

    def get(self, m, cls=None):
        return self.it.call_method(self.bag, "maybe_get_state", m, cls or self.cls)


@unit("counter", about="the step counter grows by exactly the requested amount and stays below the maximum; an increment that would reach it "
      "changes nothing")
def counter(ctx, it):
    M = ctx.int("max_num_steps", inp=True)
    bag = it.instantiate(it.cls(BAG), [M], {})
    ctx.ensure("counting starts at zero", zint(it.getattr(bag, "step_nr")) == 0)
    ctx.ensure("the maximum is kept", it.getattr(bag, "max_num_steps") is M or zint(it.getattr(bag, "max_num_steps")) == M)
    a = ctx.int("before", lo=0, inp=True)
    f = [n for n, v in bag.fields.items() if not isinstance(v, bool) and isinstance(v, int) and v == 0]
    if len(f) != 1:
        raise Unsupported("the counter is held in another way")
    bag.setf(ctx, f[0], a)
    if ctx.alt("value", ["default", "given"]) == "given":
        d = ctx.int("value", inp=True)
        out = it.outcome(lambda: it.call_method(bag, "increment_step_nr", d))
    else:
        d = 1
        out = it.outcome(lambda: it.call_method(bag, "increment_step_nr"))
    now = zint(it.getattr(bag, "step_nr"))
    if out[0] == "exc":
        ctx.ensure("rejected with a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        ctx.ensure("only going to the maximum or beyond is rejected", a + d >= M)
        ctx.ensure("a rejected increment changes nothing", now == a)
        ctx.cover("rejected")
    else:
        ctx.ensure("the counter grows by the value", now == a + d)
        ctx.ensure("the counter stays below the maximum", now < M)
        ctx.cover("counted")
    ctx.require_cover("rejected", "counted")


@unit("bag", about="a state is returned for the module and class that it was stored for, and nothing else; a reorder reaches every state once",
      assumes=["a module's states are distinct objects"])
def bag(ctx, it):
    w = Bag(ctx, it)
    m, s, other = (Entity(mod, ctx.int(n)) for mod, n in ((MOD, "m"), (ST, "s"), (MOD, "other")))
    had = w.has(zint(other.id))
    it.call_method(w.bag, "set_state", m, s)
    r = w.get(m)
    if r is None:
        ctx.ensure("a stored state is returned", z3.Not(w.of_cls(zint(s.id))))
    else:
        ctx.ensure("the last stored state is returned", isinstance(r, Entity) and z3.And(zint(r.id) == zint(s.id), w.of_cls(zint(s.id))))
        ctx.cover("stored")
    ctx.assume(zint(other.id) != zint(m.id))
    q = w.get(other)
    v = w.val(zint(other.id))
    if q is None:
        ctx.ensure("states of other modules stay", z3.Not(z3.And(had, w.of_cls(v))))
    else:
        ctx.ensure("other modules keep their own state", z3.And(had, w.of_cls(v), zint(q.id) == v))
        ctx.cover("other")
    ctx.require_cover("stored", "other")


@unit("bag reorder", about="a reorder of the bag reorders the state of every module exactly once")
def bag_reorder(ctx, it):
    w = Bag(ctx, it)

    def cands(view):
        n, j = w.ghost.fields["n"], z3.Int("rj")
        return {"reordered so far": z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.n), z3.Select(n, w.val(w.key(j))) ==
                                                             z3.If(j < view.k, z3.IntVal(1), z3.IntVal(0))), patterns=[w.key(j)])}

    ctx.loop_cands.append(cands)
    out = it.outcome(lambda: it.call_method(w.bag, "reorder", w.order))
    ctx.ensure("a reorder succeeds", out[0] == "ok")
    m = ctx.int("m")
    if ctx.branch(w.has(m)):
        ctx.ensure("every state is reordered once", z3.Select(w.ghost.fields["n"], w.val(m)) == 1)
        ctx.cover("module")
    ctx.require_cover("module")


# ---------------------------------------------------------------- key/value caches
class Cache:
    def __init__(self, ctx, it, kind):
        self.ctx, self.it, self.kind = ctx, it, kind
        self.N, self.H, self.Dk, self.Dv = (ctx.int(n, lo=1, inp=True) for n in ("batch", "heads", "k_dim", "v_dim"))
        ctx.assume(self.Dk != self.Dv)
        self.inc = ctx.alt("capacity_increment", ["none", "some"]) == "some"
        self.inc_v = ctx.int("increment", lo=1, inp=True) if self.inc else None
        self.max = ctx.int("max_seq_len", lo=1, inp=True)
        ctx.memo["uf-mod"] = True
        if kind == "local":
            self.win = ctx.int("window", lo=1, inp=True)
            self.W = ctx.int("W")
            ctx.fact(self.W == z3.If(self.max < self.win, self.max, self.win))

    def kv(self, name, n, N=None):
        N = self.N if N is None else N
        return (tn.symbolic(self.ctx, f"{name}_k", (N, n, self.H, self.Dk)), tn.symbolic(self.ctx, f"{name}_v", (N, n, self.H, self.Dv)))

    def make(self, k, v):
        it = self.it
        if self.kind == "full":
            return it.outcome(lambda: it.instantiate(it.cls(MHA + ":FullAttentionState"), [k, v, self.max, self.inc_v], {}))
        f = it.instantiate(it.cls(MHA + ":LocalAttentionStateFactory"), [self.win], {})
        return it.outcome(lambda: it.call(f, [k, v, self.max, self.inc_v], {}))

    def fits(self, n):
        return z3.BoolVal(True) if self.kind == "local" or self.inc else n <= self.max

    def kept(self, L):
        """how many of the last steps are kept"""
        return L if self.kind == "full" else z3.If(L < self.W, L, self.W)

    def parts(self, obj, L):
        """The tensors and the counter of a cache, found by what they hold."""
        ts = {}
        for n, v in obj.fields.items():
            if isinstance(v, tn.Tensor) and len(v.shape) == 4:
                ts.setdefault("k" if tn.same(v.shape[3], self.Dk) else "v" if tn.same(v.shape[3], self.Dv) else "?", []).append(n)
        if set(ts) != {"k", "v"} or any(len(x) != 1 for x in ts.values()):
            raise Unsupported("a cache held in another way")
        cnt = [n for n, v in obj.fields.items() if is_z3(v) and z3.is_int(v) and not isinstance(v, bool) and tn.same(v, L)]
        if len(cnt) != 1:
            raise Unsupported("a cache that counts in another way")
        return ts["k"][0], ts["v"][0], cnt[0]

    def check(self, obj, L, hk, hv, N, what):
        """get() returns the kept steps of the history (hk, hv: row, step, head, dim -> value)."""
        ctx, it = self.ctx, self.it
        out = it.outcome(lambda: it.call_method(obj, "get"))
        ctx.ensure(f"{what}: the cache can be read", out[0] == "ok")
        if out[0] != "ok":
            return
        k, v = out[1]
        r, p, h, d = (ctx.int(n, lo=0) for n in ("row", "position", "head", "entry"))
        n = self.kept(L)
        for name, t, f, D in (("keys", k, hk, self.Dk), ("values", v, hv, self.Dv)):
            ctx.ensure(f"{what}: {name} have one entry per kept step", z_and(zint(t.shape[0]) == N, zint(t.shape[1]) == n, zint(t.shape[2]) == self.H,
                                                                       zint(t.shape[3]) == D))
            ctx.ensure(f"{what}: {name} are those of their steps", z3.Implies(z3.And(r < N, p < n, h < self.H, d < D),
                                                                             zreal(t.at(r, p, h, d)) == f(r, L - n + p, h, d)))
        ctx.cover(what)

    def invariant(self, obj, L, hk, hv, N, what):
        """What every later append and reorder relies on."""
        ctx = self.ctx
        fk, fv, fc = self.parts(obj, L)
        k, v = obj.fields[fk], obj.fields[fv]
        C = zint(k.shape[1])
        n = self.kept(L)
        ctx.ensure(f"{what}: both caches have room for what they hold", z_and(zint(v.shape[1]) == C, n <= C, zint(k.shape[0]) == N, zint(v.shape[0]) == N,
                                                                             C <= self.W if self.kind == "local" else True))
        if not self.inc:
            ctx.ensure(f"{what}: the room is not given up", C == (self.W if self.kind == "local" else self.max))
        r, p, h, d = (ctx.int(n, lo=0) for n in ("irow", "iposition", "ihead", "ientry"))
        for name, t, f, D in (("keys", k, hk, self.Dk), ("values", v, hv, self.Dv)):
            ctx.ensure(f"{what}: {name} are held in order", z3.Implies(z3.And(r < N, p < n, h < self.H, d < D),
                                                                      zreal(t.at(r, p, h, d)) == f(r, L - n + p, h, d)))

    def arbitrary(self):
        """A cache after any history of L steps: (object, L, hk, hv)."""
        ctx = self.ctx
        L = ctx.int("steps", lo=1, inp=True)
        ctx.assume(self.fits(L))
        k, v = self.kv("first", L)
        out = self.make(k, v)
        if out[0] != "ok":
            raise Unsupported("no cache")
        obj = out[1]
        fk, fv, fc = self.parts(obj, L)
        hk, hv = ctx.func("hist_k", I, I, I, I, z3.RealSort()), ctx.func("hist_v", I, I, I, I, z3.RealSort())
        C = ctx.int("capacity", lo=1)
        n = self.kept(L)
        ctx.assume(n <= C)
        if self.kind == "local":
            ctx.assume(C <= self.W)
        if not self.inc:
            ctx.assume(C == (self.W if self.kind == "local" else self.max))
        for f, h, D, nm in ((fk, hk, self.Dk, "junk_k"), (fv, hv, self.Dv, "junk_v")):
            junk = tn.arbitrary(ctx, nm, 4, "real")
            obj.setf(ctx, f, tn.make(ctx, (self.N, C, self.H, D), lambda r, p, hh, d, h=h, junk=junk: z3.If(
                zint(p) < n, h(zint(r), L - n + zint(p), zint(hh), zint(d)), junk(r, p, hh, d)), "real"))
        return obj, L, hk, hv


def app(L, h, t):
    g = t.reader()
    return lambda r, p, hh, d: z3.If(p < L, h(r, p, hh, d), zreal(g(r, p - L, hh, d)))


def first(kind):
    def f(ctx, it):
        w = Cache(ctx, it, kind)
        L = ctx.int("steps", lo=1, inp=True)
        ctx.assume(w.fits(L))
        k, v = w.kv("first", L)
        out = w.make(k, v)
        ctx.ensure("a cache can be made", out[0] == "ok")
        if out[0] == "ok":
            gk, gv = k.reader(), v.reader()
            w.check(out[1], L, gk, gv, w.N, "at first")
            w.invariant(out[1], L, gk, gv, w.N, "at first")
        ctx.require_cover("at first")
    return f


def append(kind):
    def f(ctx, it):
        w = Cache(ctx, it, kind)
        obj, L, hk, hv = w.arbitrary()
        n = ctx.int("input", lo=1, inp=True)
        ctx.assume(w.fits(L + n))
        k, v = w.kv("next", n)
        out = it.outcome(lambda: it.call_method(obj, "append", k, v))
        ctx.ensure("steps can be appended", out[0] == "ok")
        if out[0] == "ok":
            ak, av = app(L, hk, k), app(L, hv, v)
            w.check(obj, L + n, ak, av, w.N, "after an append")
            w.invariant(obj, L + n, ak, av, w.N, "after an append")
        ctx.require_cover("after an append")
    return f


def reorder(kind):
    def f(ctx, it):
        w = Cache(ctx, it, kind)
        obj, L, hk, hv = w.arbitrary()
        M = ctx.int("new_batch", lo=1)
        o = tn.symbolic(ctx, "order", (M,), "int")
        g = o.reader()
        j = z3.Int("gj")
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < M), z3.And(g(j) >= 0, g(j) < w.N)), patterns=[g(j)]))
        out = it.outcome(lambda: it.call_method(obj, "reorder", o))
        ctx.ensure("rows can be reordered", out[0] == "ok")
        if out[0] == "ok":
            rk, rv = (lambda r, p, h, d: hk(g(r), p, h, d)), (lambda r, p, h, d: hv(g(r), p, h, d))
            w.check(obj, L, rk, rv, M, "after a reorder")
            w.invariant(obj, L, rk, rv, M, "after a reorder")
        ctx.require_cover("after a reorder")
    return f


for _k, _a in (("full", "all steps so far"), ("local", "the steps of the window")):
    unit(f"{_k}: first steps", about=f"a new {_k} cache holds {_a}, in order", assumes=["torch.Tensor: new_empty, slicing and assignment, roll, index_select"])(first(_k))
    unit(f"{_k}: append", about=f"after any history, an append of any number of steps leaves the {_k} cache with {_a}, in order")(append(_k))
    unit(f"{_k}: reorder", about=f"after any history, a reorder makes row i of the {_k} cache the former row at the i-th index")(reorder(_k))
