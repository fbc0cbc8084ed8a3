from pyvc.api import *
from pyvc.values import SymMap

BAG = "fairseq2.metrics.bag:MetricBag"
OPERR = "fairseq2.error:InvalidOperationError"
I = z3.IntSort()
ARR = z3.ArraySort(I, I)


class Names:
    """Any metric name."""

    name = "name"


class Metrics:
    """A metric: an object whose state lives in a ghost map."""

    name = "metric"
    kls = None  # the class that every metric is an instance of

    def getattr(self, it, e, name):
        if name == "to":
            return Native(lambda i, a, k: e, name)
        return NotImplemented

    def isinstance(self, it, e, cls):
        return cls is KIND


NAME, METRIC = Names(), Metrics()
KIND, OTHER = Ext("some.Metric"), Ext("some.OtherMetric")


class World:
    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        self.used = 0
        self.base = ctx.int("base", lo=0)
        self.ghost = Model(ctx, None, st=z3.Const("states", ARR))
        ctx.roots.append(self.ghost)
        self.copies = True
        it.b.EXT_CALLS["copy.deepcopy"] = self.deepcopy
        self.has, self.mid = ctx.func("registered", I, z3.BoolSort()), ctx.func("metric", I, I)
        k = z3.Int("wk")
        ctx.assume(z3.ForAll([k], z3.And(self.mid(k) >= 0, self.mid(k) < self.base), patterns=[self.mid(k)]))
        self.bag = it.instantiate(it.cls(BAG), [Sink(ctx)], {})
        dicts = [v for v in self.bag.fields.values() if isinstance(v, PyDict)]
        if len(dicts) != 1:
            raise Unsupported("MetricBag holds its metrics in another way")
        dicts[0].content = SymMap(lambda n: self.has(self.key(n)), lambda n: Entity(METRIC, self.mid(self.key(n))), ("ent", METRIC))

    @staticmethod
    def key(n):
        if not isinstance(n, Entity) or n.model is not NAME:
            raise Unsupported("metric name")
        return zint(n.id)

    @property
    def st(self):
        return self.ghost.fields["st"]

    def put(self, st):
        self.ghost.setf(self.ctx, "st", st)

    # -- contract of copy.deepcopy: new, independent objects in equal states
    def deepcopy(self, it, a, k):
        v = a[0]
        if not isinstance(v, (PyDict, Entity)):
            raise Unsupported("deepcopy of something else")
        if not self.copies:
            raise it.exc(TypeError, "cannot be copied")
        ctx = self.ctx
        self.used += 1
        old, base = self.st, self.base
        new, top = z3.Const(f"states{self.used}", ARR), ctx.int("base")
        i = z3.Int("di")
        ctx.fact(z3.ForAll([i], z3.Select(new, i) == z3.Select(old, z3.If(i < base, i, i - base)), patterns=[z3.Select(new, i)]))
        ctx.fact(top == 2 * base)
        self.base = top
        self.put(new)
        if isinstance(v, Entity):
            return Entity(METRIC, zint(v.id) + base)
        r = PyDict(ctx, {})
        if isinstance(v.content, SymMap):
            m = v.content
            r.content = SymMap(m.has, lambda n: Entity(METRIC, zint(m.get(n).id) + base), m.kind)
        else:
            r.content = {n: Entity(METRIC, zint(x.id) + base) for n, x in v.content.items()}
        return r

    # -- what a caller sees
    def metrics(self):
        m = self.it.getattr(self.bag, "metrics")
        if not isinstance(m, PyDict) or not isinstance(m.content, SymMap):
            raise Unsupported("metrics")
        return m.content

    def seen(self, n):
        """(registered, state) of a name."""
        m = self.metrics()
        return zbool(m.has(n)), z3.Select(self.st, zint(m.get(n).id))

    def equal(self, what, n, before):
        has, st = self.seen(n)
        self.ctx.ensure(what, z3.And(has == before[0], z3.Implies(before[0], st == before[1])))

    def update(self):
        """Anything may happen to the metrics that are in the bag; metrics may be added, too."""
        ctx, it = self.ctx, self.it
        self.used += 1
        if ctx.alt(f"add{self.used}", [False, True]):
            n = self.name(f"added{self.used}")
            new = self.base
            self.base = self.base + 1
            out = it.outcome(lambda: it.call_method(self.bag, "add", n, Entity(METRIC, new)))
            if out[0] == "exc":
                return
        m = self.metrics()
        st, w = z3.Const(f"updated{self.used}", ARR), ctx.func(f"who{self.used}", I, I)
        i = z3.Int("ui")
        who = Entity(NAME, w(i))
        old = self.st
        ctx.fact(z3.ForAll([i], z3.Or(z3.Select(st, i) == z3.Select(old, i),
                                      z3.And(zbool(m.has(who)), zint(m.get(who).id) == i)), patterns=[z3.Select(st, i)]))
        self.put(st)

    def name(self, tag):
        return Entity(NAME, self.ctx.int(tag))

    def call(self, op):
        return self.it.outcome(lambda: self.it.call_method(self.bag, op))

    def rejects(self, what, out):
        self.ctx.ensure(what, out[0] == "exc" and self.it.subclass(out[1].obj.cls, self.it.cls(OPERR)))


OPS = {"commit": "commit_updates", "rollback": "rollback_updates", "begin": "begin_updates"}


def history(ctx, w):
    """Some history that leaves no transaction open."""
    how = ctx.alt("history", ["new", "committed", "rolled back"])
    if how != "new":
        ctx.ensure("a transaction can begin", w.call("begin_updates")[0] == "ok")
        w.update()
        ctx.ensure("a transaction can end", w.call(OPS["commit" if how == "committed" else "rollback"])[0] == "ok")
    ctx.cover(how)
    ctx.require_cover("new", "committed", "rolled back")


ASSUME = ["copy.deepcopy of a metric yields an independent metric in an equal state", "Metric.to() yields the metric itself"]


@unit("transaction", about="begin, any updates, rollback: every metric is as at the beginning; commit: as after the updates; any "
      "set of metrics, after any history", assumes=ASSUME)
def transaction(ctx, it):
    w = World(ctx, it)
    history(ctx, w)
    n = w.name("name")
    before = w.seen(n)
    ctx.ensure("a transaction can begin", w.call("begin_updates")[0] == "ok")
    w.equal("beginning changes no metric", n, before)
    w.update()
    if ctx.alt("again", [False, True]):
        mid = w.seen(n)
        w.rejects("beginning twice is rejected", w.call("begin_updates"))
        w.equal("a rejected begin changes nothing", n, mid)
        w.update()
    after = w.seen(n)
    end = ctx.alt("end", ["commit", "rollback"])
    ctx.ensure("the transaction can end", w.call(OPS[end])[0] == "ok")
    w.equal("committing keeps the updates" if end == "commit" else "rolling back restores the beginning", n,
            after if end == "commit" else before)
    last = w.seen(n)
    for op in ("commit", "rollback"):
        w.rejects(f"{op} without a transaction is rejected", w.call(OPS[op]))
        w.equal(f"a rejected {op} changes nothing", n, last)
    ctx.ensure("a new transaction can begin", w.call("begin_updates")[0] == "ok")
    ctx.cover(end)
    ctx.require_cover("commit", "rollback")


@unit("closed", about="without a transaction, commit and rollback are rejected without effect; metrics that cannot be copied open none",
      assumes=ASSUME)
def closed(ctx, it):
    w = World(ctx, it)
    history(ctx, w)
    n = w.name("name")
    before = w.seen(n)
    if ctx.alt("copies", [True, False]):
        op = ctx.alt("op", ["commit", "rollback"])
        w.rejects(f"{op} without a transaction is rejected", w.call(OPS[op]))
        w.equal(f"a rejected {op} changes nothing", n, before)
    else:
        w.copies = False
        out = w.call("begin_updates")
        ctx.ensure("metrics that cannot be copied are reported", out[0] == "exc")
        w.copies = True
        w.equal("a failed begin changes nothing", n, before)
        w.rejects("a failed begin opens no transaction", w.call("commit_updates"))
        ctx.cover("not copyable")
    ctx.require_cover("not copyable")


@unit("registration", about="a metric is registered under a new name only, and is then found under it", assumes=ASSUME)
def registration(ctx, it):
    w = World(ctx, it)
    history(ctx, w)
    if ctx.alt("open", [False, True]):
        w.call("begin_updates")
    n, other = w.name("name"), w.name("other")
    before, there = w.seen(n), w.seen(other)
    metric = Entity(METRIC, w.base)
    out = it.outcome(lambda: it.call_method(w.bag, "add", n, metric))
    if out[0] == "exc":
        ctx.ensure("only a used name is rejected", before[0])
        ctx.ensure("as a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        w.equal("a rejected metric changes nothing", n, before)
        ctx.cover("rejected")
    else:
        ctx.ensure("a used name is rejected", z3.Not(before[0]))
        got = it.outcome(lambda: it.call_method(w.bag, "get", n, KIND))
        ctx.ensure("a registered metric is found", got[0] == "ok" and z_and(py_eq(got[1], metric)))
        bad = it.outcome(lambda: it.call_method(w.bag, "get", n, OTHER))
        ctx.ensure("as another kind it is not found", bad[0] == "exc" and it.subclass(bad[1].obj.cls, BuiltinCls(TypeError)))
        ctx.cover("added")
    if ctx.branch(zint(other.id) != zint(n.id)):
        w.equal("other metrics are not affected", other, there)
        got = it.outcome(lambda: it.call_method(w.bag, "get", other, KIND))
        if got[0] == "ok":
            ctx.ensure("only registered metrics are found", there[0])
        else:
            ctx.ensure("registered metrics are found", z3.Not(there[0]))
            ctx.ensure("an unknown metric is a value error", it.subclass(got[1].obj.cls, BuiltinCls(ValueError)))
            ctx.cover("not found")
    ctx.require_cover("rejected", "added", "not found")
