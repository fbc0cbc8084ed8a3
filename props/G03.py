from pyvc.api import *
from pyvc.extlib import DefaultDict, NullCM

G, D, T = "fairseq2.gang:", "fairseq2.device:", "fairseq2.data_type:"
TLS = "fairseq2.utils.threading:_StandardThreadLocalStorage"
I = z3.IntSort()
B = z3.BoolSort()

META, CPU_ID = 0, 1


class Devices:
    name = "device"

    def getattr(self, it, e, name):
        if name == "type":
            return DevType(e)
        return NotImplemented


class DevType:
    """The type of a device; compared with "meta" only."""

    def __init__(self, e):
        self.e = e

    def compare(self, it, op, other, swapped):
        if other == "meta" and op in ("Eq", "NotEq"):
            r = zint(self.e.id) == META
            return r if op == "Eq" else z3.Not(r)
        raise Unsupported("device type")


class GangSets:
    name = "gangs"

    def getattr(self, it, e, name):
        if name == "device":
            return Entity(DEV, self.dev(zint(e.id)))
        return NotImplemented


class Types:
    name = "dtype"


DEV, GANGS, DT = Devices(), GangSets(), Types()


class Local(Model):
    """threading.local: one set of attributes per thread."""

    def __init__(self, ctx, threads):
        super().__init__(ctx)
        self.threads = threads
        self.vals = {}

    def getattr(self, ctx, name):
        d = self.vals.setdefault(self.threads.now, {})
        if name in d:
            return d[name]
        raise self.threads.it.exc(AttributeError, name)

    def setattr(self, ctx, name, v):
        self.vals.setdefault(self.threads.now, {})[name] = v


class Threads:
    def __init__(self, it):
        self.it, self.now = it, "this"
        it.b.EXT_CALLS["threading.local"] = lambda i, a, k: Local(i.ctx, self)
        self.tls = it.instantiate(it.cls(TLS), [], {})


# ----------------------------------------------------------------------------- gangs
class World:
    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        it.b.EXT_CALLS["torch.device"] = self.device
        it.b.EXT_CALLS["threading.Lock"] = lambda i, a, k: NullCM(i.ctx)
        it.b.EXT_CALLS["weakref.WeakValueDictionary"] = lambda i, a, k: PyDict(i.ctx, {})
        ctx.contracts[G + "create_fake_gangs"] = self.fake
        self.threads = Threads(it)
        GANGS.dev = ctx.func("device of gangs", I, I)
        self.fakes = ctx.func("fake gangs of device", I, I)
        self.cur_dev = Entity(DEV, ctx.int("current device", lo=0))
        w = self

        class DevCtx(Model):
            def m_get_current_device(self, ctx):
                return w.cur_dev

        self.mgr = it.instantiate(it.cls(G + "_GangManager"), [DevCtx(ctx), self.threads.tls], {})
        self.gctx = it.instantiate(it.cls(G + "_StandardGangContext"), [self.mgr], {})

        class Resolver(Model):
            def m_resolve(self, ctx, kls):
                n = kls.name
                if n == "_GangManager":
                    return w.mgr
                if n == "GangContext":
                    return w.gctx
                raise Unsupported(f"resolve({n})")

        ctx.contracts["fairseq2.runtime.dependency:get_dependency_resolver"] = lambda i, b: Resolver(ctx)
        # any default gangs of three devices: the one of the gangs, the meta device and any other one
        self.devs = []

    def device(self, it, a, k):
        if a == ["meta"] or a == ["cpu"]:
            return Entity(DEV, z3.IntVal(META if a[0] == "meta" else CPU_ID))
        raise Unsupported("torch.device")

    def fake(self, it, b):
        d = next(v for v in b.values() if isinstance(v, Entity) and v.model is DEV)
        # fake gangs of a device are kept for as long as they are used
        e = Entity(GANGS, self.fakes(zint(d.id)))
        it.ctx.fact(GANGS.dev(zint(e.id)) == zint(d.id))
        return e

    def history(self, devs, more=True):
        """Anything may be current: gangs of any depth on each of the devices."""
        ctx, it = self.ctx, self.it
        # reach the stacks through the real code, then make their contents arbitrary
        past = ctx.alt("history", ["new", "both"] + (["defaults only", "scopes only"] if more else []))
        if past in ("scopes only", "both"):
            for d in devs:
                it.call_method(self.mgr, "get_current_gangs", d)
        local = self.threads.tls.fields
        stacks = [v for l in local.values() if isinstance(l, Local) for v in l.vals.get("this", {}).values()]
        if len(stacks) > 1 or stacks and not (isinstance(stacks[0], PyDict) and isinstance(stacks[0].content, dict)):
            raise Unsupported("gang stacks are kept in another way")
        for s in stacks:
            for i, (d, lst) in enumerate(s.content.items()):
                if not isinstance(lst, PyList):
                    raise Unsupported("gang stack")
                lst.content = fresh_seq(ctx, ("ent", GANGS), f"stack{i}")
        for i, d in enumerate(devs):
            if past in ("defaults only", "both"):
                g = Entity(GANGS, ctx.int(f"default gangs {i}"))
                ctx.assume(GANGS.dev(zint(g.id)) == zint(d.id))
                it.call_method(self.mgr, "set_default_gangs", g, False)

    def stack(self, d):
        """The whole stack of a device (its absence is an empty one)."""
        for l in self.threads.tls.fields.values():
            if isinstance(l, Local):
                for s in l.vals.get("this", {}).values():
                    for k, lst in s.content.items():
                        if self.ctx.known(zint(k.id) == zint(d.id)):
                            return self.it.seq_of(PyList(self.ctx, lst.content))
        return SymSeq(0, lambda i: Entity(GANGS, z3.IntVal(-1)), ("ent", GANGS))

    def current(self, d):
        return self.it.call_method(self.gctx, "get_current_gangs", d)


class Stop(Exception):
    pass


def body(ctx, it, inner):
    """What happens inside a scope: it ends normally or by any exception."""
    how = ctx.alt("ends", ["normally", "by an exception"])
    err = it.exc(RuntimeError, "inside")

    def f(v):
        inner()
        if how != "normally":
            raise err

    return f, (None if how == "normally" else err)


def scope(ctx, it, cm, inner):
    f, err = body(ctx, it, inner)
    out = it.outcome(lambda: it.run_with(cm, f))
    if err is None:
        ctx.ensure("a scope that ends normally raises nothing", out[0] == "ok")
    else:
        ctx.ensure("an exception leaves the scope unchanged", out[0] == "exc" and out[1].obj is err.obj)
        ctx.cover("exception")


def same_seq(ctx, what, a, b):
    i = ctx.int("si")
    ctx.ensure(what + ": depth", zint(a.length) == zint(b.length))
    if any(z3.simplify(zint(x.length)).eq(z3.IntVal(0)) for x in (a, b)):
        return
    ctx.ensure(what, z3.Implies(z3.And(i >= 0, i < zint(b.length)), zbool(py_eq(a.get(i), b.get(i)))))


ASSUME = ["threading.local keeps one set of attributes per thread", "fake gangs stay alive while they are current"]


def gangs_unit(ctx, it, via):
    w = World(ctx, it)
    g = Entity(GANGS, ctx.int("gangs"))
    dev = Entity(DEV, ctx.int("device", lo=0))
    other = Entity(DEV, ctx.int("other device", lo=0))
    meta_dev = Entity(DEV, z3.IntVal(META))
    ctx.assume(GANGS.dev(zint(g.id)) == zint(dev.id))
    ctx.assume(zint(other.id) != zint(dev.id))
    ctx.assume(zint(other.id) != META)
    ctx.assume(zint(dev.id) != META)  # no gang has the meta device
    devs = [dev, other, meta_dev]
    nested = via[10:] if via.startswith("nested") else None
    via = "context" if nested else via
    w.history(devs, via == "context" and not nested)
    before = [(d, w.current(d), w.stack(d)) for d in devs]
    meta = ctx.alt("meta", [False, True]) if via != "with gangs" else False
    if via == "set_gangs":
        cm = it.call_func(G + "set_gangs", g, meta=meta)
    elif via == "context":
        cm = it.call_method(w.gctx, "set_gangs", g, meta=meta)
    else:
        class GangScope(Model):
            """`with gangs`: the real Gangs.__enter__ and __exit__ on any gangs."""

            def enter(self, ctx):
                it.call_func(G + "Gangs.__enter__", g)

            def exit(self, ctx, *a):
                return it.call_func(G + "Gangs.__exit__", g, *a)

        cm = GangScope(ctx)

    def inner():
        for d, cur, st in before:
            hit = d is dev or meta and d is meta_dev
            ctx.ensure("inside, the gangs are current for their device" if d is dev else
                       "inside, the meta device follows if asked for" if d is meta_dev else
                       "inside, other devices keep their gangs", z_and(py_eq(w.current(d), g if hit else cur)))
        w.cur_dev = dev
        ctx.ensure("without a device, that of the calling thread counts", z_and(py_eq(w.current(None), g)))
        if nested:
            n = Entity(GANGS, ctx.int("nested gangs"))
            ctx.assume(GANGS.dev(zint(n.id)) == zint((dev if nested == "the same device" else other).id))
            at = dev if nested == "the same device" else other
            out = it.outcome(lambda: it.run_with(it.call_method(w.gctx, "set_gangs", n, meta=False), lambda v: ctx.ensure(
                "a nested scope makes its gangs current", z_and(py_eq(w.current(at), n)))))
            ctx.ensure("a nested scope can be entered", out[0] == "ok")
            ctx.ensure("leaving a nested scope restores the outer one", z_and(py_eq(w.current(dev), g)))

    scope(ctx, it, cm, inner)
    for d, cur, st in before:
        ctx.ensure("afterwards, every device has its gangs back", z_and(py_eq(w.current(d), cur)))
        same_seq(ctx, "afterwards, every stack is as before", w.stack(d), st)
    ctx.require_cover("exception")


for _via in ("set_gangs", "context", "nested in the same device", "nested in another device", "with gangs"):
    @unit(f"gangs ({_via})", about="a scope of gangs makes exactly them current for their device (and the meta device if asked for), every other "
    "device keeps its own, and its end restores every stack, whatever was current and however it ends", assumes=ASSUME)
    def _gangs(ctx, it, via=_via):
        gangs_unit(ctx, it, via)



@unit("gangs of threads", about="gangs are made current for the calling thread only", assumes=ASSUME)
def threads(ctx, it):
    w = World(ctx, it)
    g, n = Entity(GANGS, ctx.int("gangs")), Entity(GANGS, ctx.int("gangs of another thread"))
    dev = Entity(DEV, ctx.int("device", lo=0))
    for x in (g, n):
        ctx.assume(GANGS.dev(zint(x.id)) == zint(dev.id))
    w.history([dev])
    w.threads.now = "another"
    before = w.current(dev)
    w.threads.now = "this"

    def inner(v):
        w.threads.now = "another"
        ctx.ensure("other threads do not see the scope", z_and(py_eq(w.current(dev), before)))

        def there(v2):
            ctx.ensure("another thread can have gangs of its own", z_and(py_eq(w.current(dev), n)))
            w.threads.now = "this"
            ctx.ensure("which this one does not see", z_and(py_eq(w.current(dev), g)))
            w.threads.now = "another"

        it.run_with(it.call_method(w.gctx, "set_gangs", n, meta=ctx.alt("meta there", [False, True])), there)
        ctx.ensure("other threads get their own gangs back", z_and(py_eq(w.current(dev), before)))
        w.threads.now = "this"

    it.run_with(it.call_method(w.gctx, "set_gangs", g, meta=ctx.alt("meta", [False, True])), inner)


# ----------------------------------------------------------------------------- data types
class Modes:
    """A _DataTypeMode: entered into torch's mode stack, deciding the type of a new tensor if it is enabled."""

    name = "mode"

    def getattr(self, it, e, name):
        if name == "dtype":
            return Entity(DT, self.w.dtype(e))
        if name == "enabled":
            return z3.Select(self.w.enabled, zint(e.id))
        return NotImplemented

    def setattr(self, it, e, name, v):
        if name != "enabled":
            raise Unsupported("mode attribute")
        self.w.ghost.setf(it.ctx, "enabled", z3.Store(self.w.enabled, zint(e.id), zbool(v)))

    def enter(self, it, e):
        self.w.torch.set(it.ctx, it.b.concat(self.w.torch.content, [e]))

    def exit(self, it, e, *a):
        s = it.seq_of(self.w.torch)
        it.ctx.ensure("data type modes are left in reverse order", z3.And(zint(s.length) > 0, zbool(py_eq(
            s.get(zint(s.length) - 1), e))))
        self.w.torch.set(it.ctx, SymSeq(zint(s.length) - 1, s.get, s.kind))


MODE = Modes()


class TypeWorld:
    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        MODE.w = self
        self.threads = Threads(it)
        self.types = {}
        self.base = ctx.int("modes so far", lo=0)
        self.tfun = ctx.func("type of mode", I, I)
        self.ghost = Model(ctx, None, enabled=z3.Const("enabled", z3.ArraySort(I, B)))
        ctx.roots.append(self.ghost)
        ctx.class_models[T + "_DataTypeMode"] = self.new_mode
        self.default = Entity(DT, ctx.int("default type"))
        it.b.EXT_CALLS["torch.get_default_dtype"] = lambda i, a, k: self.default
        self.n = 0
        self.stack_obj = it.instantiate(it.cls(T + "_DataTypeModeStack"), [Ext("constructors"), self.threads.tls], {})
        self.dctx = it.instantiate(it.cls(T + "_StandardDataTypeContext"), [self.stack_obj], {})
        w = self

        class Resolver(Model):
            def m_resolve(self, ctx, kls):
                if kls.name == "DataTypeContext":
                    return w.dctx
                raise Unsupported("resolve")

        ctx.contracts["fairseq2.runtime.dependency:get_dependency_resolver"] = lambda i, b: Resolver(ctx)
        # any depth of scopes: every mode is in torch's stack, exactly the last one is enabled
        self.torch = PyList(ctx, [])
        if ctx.alt("outer scopes", ["none ever", "any"]) == "any":
            it.call_method(self.dctx, "get_current_dtype")
            lists = [v for l in self.threads.tls.fields.values() if isinstance(l, Local) for v in l.vals.get("this", {}).values()]
            if len(lists) != 1 or not isinstance(lists[0], PyList):
                raise Unsupported("modes are kept in another way")
            n = ctx.int("depth", lo=0)
            s = SymSeq(n, lambda i: Entity(MODE, zint(i)), ("ent", MODE))
            lists[0].content = s
            self.torch.content = s
            ctx.assume(self.base >= n)
            i = z3.Int("mi")
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(self.enabled, i) == (i == n - 1)),
                                 patterns=[z3.Select(self.enabled, i)]))

    @property
    def enabled(self):
        return self.ghost.fields["enabled"]

    def dtype(self, e):
        out = self.tfun(zint(e.id))
        for i, t in self.types.values():
            out = z3.If(zint(e.id) == i, zint(t.id), out)
        return out

    def new_mode(self, it, a, k):
        """Contract of _DataTypeMode.__init__ (proved below): of the given type, and enabled."""
        t = a[0] if a else k["dtype"]
        i = self.base + self.n
        self.n += 1
        self.types[self.n] = (i, t)
        self.ghost.setf(it.ctx, "enabled", z3.Store(self.enabled, i, True))
        return Entity(MODE, i)

    def effective(self):
        """The type of a tensor that is created without one: that of the innermost mode that is enabled (by contract of torch)."""
        ctx = self.ctx
        s = self.it.seq_of(self.torch)
        n = zint(s.length)
        if not ctx.branch(n > 0):
            return zint(self.default.id)
        top = s.get(n - 1)
        if ctx.branch(z3.Select(self.enabled, zint(top.id))):
            return self.dtype(top)
        if not ctx.branch(n > 1):
            return zint(self.default.id)
        sec = s.get(n - 2)
        if ctx.branch(z3.Select(self.enabled, zint(sec.id))):
            return self.dtype(sec)
        return self.ctx.int("unknown type")

    def current(self):
        return self.it.call_method(self.dctx, "get_current_dtype")


@unit("data types", about="a data type scope makes exactly its type the current one and the one of new tensors; its end restores "
      "the mode stack, torch's stack and which mode is enabled, at any depth and however it ends",
      assumes=["torch applies the modes of its stack innermost first", ASSUME[0]])
def dtypes(ctx, it):
    w = TypeWorld(ctx, it)
    t = Entity(DT, ctx.int("type"))
    cur, eff = w.current(), w.effective()
    st, en = it.seq_of(PyList(ctx, w.torch.content)), w.enabled
    ctx.ensure("the current type is that of new tensors", zint(cur.id) == eff)
    via = ctx.alt("entered by", ["set_dtype", "context"])
    cm = it.call_func(T + "set_dtype", t) if via == "set_dtype" else it.call_method(w.dctx, "set_dtype", t)

    def inner():
        ctx.ensure("inside, the type is current", z_and(py_eq(w.current(), t)))
        ctx.ensure("inside, new tensors have the type", w.effective() == zint(t.id))
        if ctx.alt("nested", [False, True]):
            n = Entity(DT, ctx.int("nested type"))

            def deep(v):
                ctx.ensure("a nested scope makes its type current", z_and(py_eq(w.current(), n)))
                ctx.ensure("new tensors have the nested type", w.effective() == zint(n.id))

            it.run_with(it.call_method(w.dctx, "set_dtype", n), deep)
            ctx.ensure("leaving a nested scope restores the outer type", z_and(py_eq(w.current(), t)))
            ctx.ensure("new tensors have the outer type again", w.effective() == zint(t.id))
        w.threads.now = "another"
        ctx.ensure("other threads do not see the scope", z_and(py_eq(w.current(), w.default)))
        w.threads.now = "this"

    scope(ctx, it, cm, inner)
    ctx.ensure("afterwards, the type is the one before", z_and(py_eq(w.current(), cur)))
    ctx.ensure("afterwards, new tensors have the type as before", w.effective() == eff)
    same_seq(ctx, "afterwards, torch's modes are as before", it.seq_of(w.torch), st)
    i = ctx.int("ei")
    ctx.ensure("afterwards, the same mode is enabled", z3.Implies(z3.And(i >= 0, i < zint(st.length)),
                                                               z3.Select(w.enabled, i) == z3.Select(en, i)))
    lists = [v for l in w.threads.tls.fields.values() if isinstance(l, Local) for v in l.vals.get("this", {}).values()]
    for v in lists:
        same_seq(ctx, "afterwards, the modes are as before", it.seq_of(v), st)
    ctx.require_cover("exception")


@unit("mode", about="an enabled mode gives its type to new tensors that state none, and changes nothing else",
      assumes=["isinstance and set membership of torch functions"])
def mode(ctx, it):
    t = Entity(DT, ctx.int("type"))
    cons = PySet(ctx, [])
    FN = type("Fn", (), {"name": "function"})()
    member = ctx.func("constructor", I, B)
    cons.content = ([], [lambda v: member(zint(v.id))])
    m = it.instantiate(it.cls(T + "_DataTypeMode"), [t, cons], {})
    ctx.ensure("a mode has its type", z_and(py_eq(it.getattr(m, "dtype"), t)))
    ctx.ensure("a new mode is enabled", it.getattr(m, "enabled") is True)
    on = ctx.alt("enabled", [True, False])
    it.setattr(m, "enabled", on)
    calls = []

    class Fn(Model):
        def m___call__(self, ctx, *a, **k):
            calls.append((a, dict(k)))
            return res

    res = Ext("result")
    fid = ctx.int("function")
    f = Fn(ctx)
    cons.content = ([], [lambda v: member(fid) if v is f else FALSE])
    given = ctx.alt("dtype given", ["absent", "None", "some"])
    own = Entity(DT, ctx.int("own type"))
    kw = {"device": "x"}
    if given != "absent":
        kw["dtype"] = None if given == "None" else own
    nokw = given == "absent" and ctx.alt("no keywords", [False, True])
    args = [f, (), (1, 2)] + ([] if nokw else [PyDict(ctx, dict(kw))])
    got = it.call_method(m, "__torch_function__", *args)
    ctx.ensure("the function is called once", len(calls) == 1)
    a, k = calls[0]
    ctx.ensure("its result is returned", got is res)
    ctx.ensure("arguments are passed on", a == (1, 2))
    want = {} if nokw else dict(kw)
    if on and given != "some" and ctx.branch(member(fid)):
        want["dtype"] = t
        ctx.cover("applied")
    ctx.ensure("a new tensor without a type has that of the enabled mode, every other call is unchanged",
               set(k) == set(want) and z_and(*[py_eq(k[n], want[n]) for n in want]))
    ctx.require_cover("applied")


# ----------------------------------------------------------------------------- devices
@unit("devices", about="a device scope makes its device the current one and its end restores the one before, however it ends",
      assumes=["torch's device context manager pushes and pops the default device"])
def devices(ctx, it):
    n = ctx.int("depth", lo=1)
    f = ctx.func("device at", I, I)
    stack = PyList(ctx, SymSeq(n, lambda i: Entity(DEV, f(zint(i))), ("ent", DEV)))

    def top():
        s = it.seq_of(stack)
        return s.get(zint(s.length) - 1)

    def enter(i, e):
        stack.set(ctx, it.b.concat(stack.content, [e]))

    def exit_(i, e, *a):
        s = it.seq_of(stack)
        ctx.ensure("device scopes end in reverse order", z_and(py_eq(top(), e)))
        stack.set(ctx, SymSeq(zint(s.length) - 1, s.get, s.kind))

    DEV.enter, DEV.exit = enter, exit_
    it.b.EXT_CALLS["torch.get_default_device"] = lambda i, a, k: top()
    it.b.EXT_CALLS["torch.empty"] = lambda i, a, k: Model(ctx, None, device=top())
    new = ctx.alt("torch", ["2.8 or later", "earlier"]) == "2.8 or later"
    ctx.contracts["fairseq2.utils.version:torch_greater_or_equal"] = lambda i, b: new
    dctx = it.instantiate(it.cls(D + "_StandardDeviceContext"), [], {})

    class Resolver(Model):
        def m_resolve(self, ctx, kls):
            if kls.name == "DeviceContext":
                return dctx
            raise Unsupported("resolve")

    ctx.contracts["fairseq2.runtime.dependency:get_dependency_resolver"] = lambda i, b: Resolver(ctx)
    via = ctx.alt("by", ["function", "context"])
    cur = lambda: it.call_func(D + "get_current_device") if via == "function" else it.call_method(dctx, "get_current_device")
    d = Entity(DEV, ctx.int("device"))
    before, st = cur(), it.seq_of(PyList(ctx, stack.content))
    cm = it.call_func(D + "set_device", d) if via == "function" else it.call_method(dctx, "set_device", d)

    def inner():
        ctx.ensure("inside, the device is current", z_and(py_eq(cur(), d)))
        if ctx.alt("nested", [False, True]):
            e = Entity(DEV, ctx.int("nested device"))
            it.run_with(it.call_method(dctx, "set_device", e), lambda v: ctx.ensure(
                "a nested scope makes its device current", z_and(py_eq(cur(), e))))
            ctx.ensure("leaving a nested scope restores the outer device", z_and(py_eq(cur(), d)))

    scope(ctx, it, cm, inner)
    ctx.ensure("afterwards, the device is the one before", z_and(py_eq(cur(), before)))
    same_seq(ctx, "afterwards, torch's devices are as before", it.seq_of(stack), st)
    ctx.require_cover("exception")
