from pyvc.api import *

RNG = "fairseq2.utils.rng:RngBag"
ERR = "fairseq2.error:StateDictError"
I = z3.IntSort()
SEEDED = z3.Function("seeded", I, I)


class States:
    """A generator state, as handed out by get_state() (a snapshot)."""

    name = "state"

    def getattr(self, it, e, name):
        if name in ("clone", "detach", "cpu"):
            return Native(lambda i, a, k: e, name)
        return NotImplemented

    def isinstance(self, it, e, cls):
        return isinstance(cls, Ext) and cls.name in ("torch.Tensor", "torch._tensor.Tensor")

    def deepcopy(self, it, e):
        return e


STATE = States()


class Gens:
    """torch.Generator: a cell of the ghost map generator -> state."""

    name = "generator"
    world = None

    def getattr(self, it, e, name):
        w = self.world
        if name == "get_state":
            return Native(lambda i, a, k: Entity(STATE, z3.Select(w.st, zint(e.id))), name)
        if name == "manual_seed":
            return Native(lambda i, a, k: w.put(e.id, SEEDED(zint(a[0]))), name)
        if name == "set_state":
            def setst(i, a, k):
                if not isinstance(a[0], Entity) or a[0].model is not STATE:
                    raise Unsupported("set_state of something else")
                w.put(e.id, zint(a[0].id))
            return Native(setst, name)
        return NotImplemented


GEN = Gens()


class World:
    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        GEN.world = self
        self.st0 = z3.Const("states", z3.ArraySort(I, I))
        self.ghost = Model(ctx, None, st=self.st0)
        ctx.roots.append(self.ghost)
        self.n = ctx.int("n", lo=0, inp=True)
        self.gid = ctx.func("generator", I, I)
        self.bag = it.instantiate(it.cls(RNG), [], {})
        lists = [v for v in self.bag.fields.values() if isinstance(v, PyList)]
        if len(lists) != 1:
            raise Unsupported("RngBag holds its generators in another way")
        lists[0].content = SymSeq(self.n, lambda i: Entity(GEN, self.gid(zint(i))), ("ent", GEN))
        # some generator that is not in the bag
        self.other = ctx.int("other")
        i = z3.Int("oi")
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), self.gid(i) != self.other), patterns=[self.gid(i)]))
        ctx.loop_cands.append(self.cands)

    @property
    def st(self):
        return self.ghost.fields["st"]

    def put(self, g, v):
        self.ghost.setf(self.ctx, "st", z3.Store(self.st, zint(g), v))

    def cands(self, view):
        out = {}
        j = z3.Int("cj")
        for name, cur in view.cur.items():
            if is_z3(cur) and z3.is_array(cur):
                goals = dict(self.targets())
                for t, f in goals.items():
                    out[f"{name}: {t}"] = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(view.k)), z3.Select(
                        cur, self.gid(j)) == f(j)), patterns=[self.gid(j)])
                out[f"{name}: other"] = z3.Select(cur, self.other) == z3.Select(view.entry[name], self.other)
        return out

    def targets(self):
        return self.want

    want = {}

    def all(self, what, f):
        k = self.ctx.int("which", lo=0)
        self.ctx.ensure(what, z3.Implies(z3.And(k < self.n), z3.Select(self.st, self.gid(k)) == f(k)))


@unit("scope", about="temporary_manual_seed: inside, every generator of the bag is seeded; afterwards every generator is where "
      "it was, however the scope ended; any number of generators, even repeated ones",
      assumes=["torch.Generator: get_state returns a snapshot, set_state/manual_seed affect that generator only"])
def scope(ctx, it):
    w = World(ctx, it)
    seed = ctx.int("seed", inp=True)
    st0, n, gid = w.st0, w.n, w.gid
    w.want = {"seeded": lambda j: SEEDED(seed), "restored": lambda j: z3.Select(st0, gid(j))}
    end = ctx.alt("end", ["normal", "error", "interrupt"])
    ran = []

    def body(v):
        ran.append(1)
        ctx.ensure("only a valid seed is used", z3.And(seed >= 0, seed < 2 ** 32))
        w.all("inside, every generator is seeded", lambda j: SEEDED(seed))
        ctx.ensure("other generators are not touched on entry", z3.Select(w.st, w.other) == z3.Select(st0, w.other))
        w.ghost.setf(ctx, "st", z3.Const("used", z3.ArraySort(I, I)))
        if end != "normal":
            raise it.exc(RuntimeError if end == "error" else KeyboardInterrupt, "body")

    out = it.outcome(lambda: it.run_with(it.call_method(w.bag, "temporary_manual_seed", seed), body))
    if not ran:
        ctx.ensure("only an invalid seed is rejected", z3.Or(seed < 0, seed >= 2 ** 32))
        ctx.ensure("as a value error", out[0] == "exc" and it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        ctx.cover("rejected")
    else:
        ctx.ensure("an error passes through", (out[0] == "exc") == (end != "normal"))
        ctx.ensure("other generators continue", z3.Select(w.st, w.other) == z3.Select(z3.Const("used", z3.ArraySort(I, I)), w.other))
        ctx.cover(end)
    w.all("afterwards every generator is where it was", lambda j: z3.Select(st0, gid(j)))
    ctx.require_cover("rejected", "normal", "error", "interrupt")


@unit("save and load", about="state_dict/load_state_dict restore each generator's own state; a wrong number is rejected "
      "without effect; any number of generators")
def save_load(ctx, it):
    w = World(ctx, it)
    st0, gid = w.st0, w.gid
    w.want = {"restored": lambda j: z3.Select(st0, gid(j))}
    case = ctx.alt("case", ["same", "wrong number", "missing", "no list", "unexpected"])
    sd = it.call_method(w.bag, "state_dict")
    ctx.ensure("saving touches nothing", w.st is st0 or z3.eq(w.st, st0))
    if not isinstance(sd, PyDict) or not isinstance(sd.content, dict) or len(sd.content) != 1:
        raise Unsupported("state_dict of another form")
    key, lst = next(iter(sd.content.items()))
    used = z3.Const("used", z3.ArraySort(I, I))
    w.ghost.setf(ctx, "st", used)
    if case == "wrong number":
        m = ctx.int("m", lo=0)
        ctx.assume(m != w.n)
        src = ctx.func("foreign", I, I)
        sd = PyDict(ctx, {key: PyList(ctx, SymSeq(m, lambda i: Entity(STATE, src(zint(i))), ("ent", STATE)))})
    elif case == "missing":
        sd = PyDict(ctx, {})
    elif case == "no list":
        sd = PyDict(ctx, {key: 3})
    elif case == "unexpected":
        sd = PyDict(ctx, {key: lst, "unknown": 1})
    out = it.outcome(lambda: it.call_method(w.bag, "load_state_dict", sd))
    if case == "same":
        ctx.ensure("a saved state is accepted", out[0] == "ok")
        w.all("every generator has its own state again", lambda j: z3.Select(st0, gid(j)))
        ctx.ensure("other generators are not touched", z3.Select(w.st, w.other) == z3.Select(used, w.other))
    else:
        ctx.ensure("rejected as an invalid state", out[0] == "exc" and it.subclass(out[1].obj.cls, it.cls(ERR)))
        if case == "wrong number":
            ctx.ensure("without effect", w.st is used or z3.eq(w.st, used))
    ctx.cover(case)
    ctx.require_cover("same", "wrong number", "missing", "no list", "unexpected")
