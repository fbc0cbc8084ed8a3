from pyvc.api import *
from pyvc.values import SymMap
from pyvc.extlib import DefaultDict
from pyvc.builtins_ import b_iter as B_ITER

M = "fairseq2.runtime.dependency:"
CONT, COLL, REGN = M + "DependencyContainer", M + "DependencyCollectionContainer", M + "_DependencyRegistration"
LOOKUP = M + "DependencyLookup"
NOTFOUND, CYCLE = M + "DependencyNotFoundError", M + "DependencyCycleError"
OPERR, INTERNAL = "fairseq2.error:InvalidOperationError", "fairseq2.error:InternalError"
I = z3.IntSort()


class Keys:
    name = "key"


class Kinds:
    """A class; `fits(object, class)` is isinstance."""

    name = "class"


class Objects:
    name = "object"
    fits = None

    def isinstance(self, it, e, cls):
        if isinstance(cls, Entity) and cls.model is KIND:
            return self.fits(zint(e.id), zint(cls.id))
        return NotImplemented


KEY, KIND, OBJ = Keys(), Kinds(), Objects()


def setup(ctx):
    OBJ.fits = ctx.func("isinstance", I, I, z3.BoolSort())


def some_key(ctx, tag):
    return None if ctx.alt(tag + " has a key", [False, True]) is False else Entity(KEY, ctx.int(tag))


def is_exc(it, out, *names):
    return out[0] == "exc" and any(it.subclass(out[1].obj.cls, it.cls(n) if isinstance(n, str) else n) for n in names)


# ----------------------------------------------------------------------------- one registration
class Provider:
    """Any provider: it may ask for the very object being created, and may fail, supply nothing or an object."""

    def __init__(self, ctx, it, kind, again=True):
        self.ctx, self.it, self.kind, self.again = ctx, it, kind, again
        self.runs = self.done = 0
        self.depth = 0
        self.reg = None
        self.inner = None
        self.fn = Native(lambda i, a, k: self.run(), "provider")
        self.last = None

    def run(self):
        ctx, it = self.ctx, self.it
        self.runs += 1
        n = self.runs
        if n > 6:
            raise Unsupported("provider run again and again")
        ctx.ensure("a provider is never entered again while it runs", self.depth == 0)
        self.depth += 1
        try:
            if self.again and ctx.alt(f"asks for itself {n}", [False, True]):
                self.inner = it.outcome(lambda: it.call_method(self.reg, "get_instance", self.kind, RESOLVER))
                ctx.ensure("a cycle is reported", is_exc(it, self.inner, CYCLE))
                if ctx.alt(f"gives up {n}", [True, False]):
                    raise self.inner[1]
            how = ctx.alt(f"provider {n}", ["object", "nothing", "error", "cycle"])
            if how == "error":
                raise it.exc(RuntimeError, "provider")
            if how == "cycle":
                other = (Entity(KIND, ctx.int(f"ck{n}")), None)
                self.deeper = other
                raise PyExc(it.instantiate(it.cls(CYCLE), [], {"cycle": PyList(ctx, [other])}))
            self.done += 1
            self.last = None if how == "nothing" else Entity(OBJ, ctx.int(f"object{n}"))
            return self.last
        finally:
            self.depth -= 1


RESOLVER = Ext("the.resolver")


def wrong_kind(p, v):
    return None if v is None else z3.Not(OBJ.fits(zint(v.id), zint(p.kind.id)))


@unit("instance", about="one registration, any provider, any number of requests: a singleton's provider is run successfully at most "
      "once, any other provider once per request; failures and cycles are reported and leave the registration usable")
def instance(ctx, it):
    setup(ctx)
    kind = Entity(KIND, ctx.int("class"))
    single = ctx.alt("singleton", [True, False])
    p = Provider(ctx, it, kind)
    p.reg = it.instantiate(it.cls(REGN), [p.fn], {"key": some_key(ctx, "key"), "singleton": single})
    ask = lambda: it.outcome(lambda: it.call_method(p.reg, "get_instance", kind, RESOLVER))
    # any history of failed requests leaves the registration as it was; so does its induction
    def snap():
        return dict(p.reg.fields)

    def same(what, before):
        now = snap()
        ctx.ensure(what, set(now) == set(before) and z_and(*[py_eq(now[f], before[f]) for f in now]))

    fresh = snap()
    out = ask()
    if p.done == 0:
        ctx.ensure("a failing provider is reported", out[0] == "exc")
        same("a failed request leaves the registration as before", fresh)
        ctx.ensure("one request runs the provider at most once", p.runs <= 1)
        ctx.cover("failed")
        ctx.require_cover("failed", "singleton", "fresh objects", "wrong type", "nothing")
        return
    first, runs = p.last, p.runs

    def judged(what, out, v):
        bad = wrong_kind(p, v)
        if bad is not None and ctx.branch(bad):
            ctx.ensure(f"{what}: an object of another type is reported", is_exc(it, out, INTERNAL))
            ctx.cover("wrong type")
        else:
            ctx.ensure(f"{what}: the provider's object is returned", out[0] == "ok" and z_and(py_eq(out[1], v)))

    judged("the first request", out, first)
    ctx.ensure("one request runs the provider once", runs == 1)
    if single:
        # the state after the first success is the state after every later request
        done = snap()
        judged("a later request", ask(), first)
        ctx.ensure("a singleton is created once", p.runs == 1)
        same("a later request changes nothing", done)
        ctx.cover("singleton")
    else:
        same("a request for a fresh object leaves the registration as before", fresh)
        ctx.cover("fresh objects")
    if first is None:
        ctx.cover("nothing")
    ctx.require_cover("failed", "singleton", "fresh objects", "wrong type", "nothing")


@unit("cycle", about="a dependency cycle is reported with the chain of types and keys, outermost first")
def cycle(ctx, it):
    setup(ctx)
    kind, key = Entity(KIND, ctx.int("class")), some_key(ctx, "key")

    def prov(i, a, k):
        raise PyExc(it.instantiate(it.cls(CYCLE), [], {"cycle": PyList(ctx, [(other, okey)])}))

    other, okey = Entity(KIND, ctx.int("other")), some_key(ctx, "other key")
    reg = it.instantiate(it.cls(REGN), [Native(prov, "provider")], {"key": key, "singleton": ctx.alt("singleton", [True, False])})
    out = it.outcome(lambda: it.call_method(reg, "get_instance", kind, RESOLVER))
    ctx.ensure("a deeper cycle is reported as a cycle", is_exc(it, out, CYCLE))
    got = it.getattr(out[1].obj, "cycle")
    items = it.concrete_items(got)
    ctx.ensure("the chain starts with the type that was asked for", len(items) == 2 and z_and(
        py_eq(items[0], (kind, key)), py_eq(items[1], (other, okey))))


# ----------------------------------------------------------------------------- the container
class Regs:
    """A registration under the contract of get_instance (proved above): an object, nothing, or an error."""

    name = "registration"

    def getattr(self, it, e, name):
        if name == "get_instance":
            return Native(lambda i, a, k: self.world.instance(e, *a, **k), name)
        return NotImplemented


REG = Regs()


class World:
    def __init__(self, ctx, it):
        setup(ctx)
        self.ctx, self.it = ctx, it
        self.REG = REG
        REG.world = self
        self.asked = []
        self.created = []
        ctx.class_models[REGN] = self.new_registration
        self.c = it.instantiate(it.cls(CONT), [], {})
        self.coll = it.getattr(self.c, "collection")
        self.frozen_before = None

    def new_registration(self, it, a, k):
        names = ["provider", "key", "singleton"]
        b = dict(zip(names, a))
        b.update(k)
        if set(b) != set(names):
            raise Unsupported("registration")
        e = Entity(self.REG, self.ctx.int("new registration"))
        self.created.append((e, b))
        return e

    def maps(self, o):
        m = [v for v in o.fields.values() if isinstance(v, PyDict)]
        plain = [v for v in m if not isinstance(v, DefaultDict)]
        dflt = [v for v in m if isinstance(v, DefaultDict)]
        return plain, dflt

    def instance(self, reg, kls, resolver):
        """Contract of _DependencyRegistration.get_instance."""
        self.asked.append((reg, kls, resolver))
        out = self.outcome_of(reg, kls)
        if out is RAISES:
            raise self.error
        return out

    # lookup state: registrations and keys of a container
    def key_id(self, k):
        return z3.IntVal(-1) if k is None else zint(k.id)

    def fill(self, kind, other, key=None):
        """Any registrations; any key lists of the two types under consideration."""
        ctx = self.ctx
        plain, dflt = self.maps(self.c)
        if len(plain) != 1 or len(dflt) != 1:
            raise Unsupported("the container holds its registrations in another way")
        self.regs, self.keys = plain[0], dflt[0]
        has, rid = ctx.func("registered", I, I, z3.BoolSort()), ctx.func("registration", I, I, I)

        def split(fk):
            if not isinstance(fk, tuple) or len(fk) != 2 or not isinstance(fk[0], Entity) or fk[0].model is not KIND:
                raise Unsupported("registration key")
            return zint(fk[0].id), self.key_id(fk[1])

        self.has0 = lambda k, x: has(zint(k.id), self.key_id(x))
        self.reg0 = lambda k, x: Entity(self.REG, rid(zint(k.id), self.key_id(x)))
        self.regs.content = SymMap(lambda fk: has(*split(fk)), lambda fk: Entity(self.REG, rid(*split(fk))), ("ent", self.REG))
        self.fill_keys(self.keys, kind, other, key)

    def fill_keys(self, d, kind, other, key):
        ctx = self.ctx
        ctx.assume(zint(kind.id) != zint(other.id))
        content = {}
        for k, tag in ((kind, "keys"), (other, "other keys")):
            if ctx.alt(f"has {tag}", [True, False]):
                # (the keys so far are of one kind: all of them given, or all of them omitted)
                content[k] = PyList(ctx, fresh_seq(ctx, ("const", None) if key is None else ("ent", KEY), tag))
        d.content = content

    def freeze(self):
        """Anything resolved before; what it was does not matter."""
        before = self.outcome_of if hasattr(self, "outcome_of") else None
        self.outcome_of = lambda r, k: None
        self.it.outcome(lambda: self.it.call_method(self.c, "resolve", Entity(KIND, self.ctx.int("earlier"))))
        self.asked.clear()
        if before:
            self.outcome_of = before

    def listed(self, o, kind):
        v = self.it.call_method(o, "iter_keys", kind)
        s = getattr(v, "seq", None) or self.it.seq_of(v)
        return s


RAISES = object()


def same_keys(ctx, what, a, b):
    i = ctx.int("ki")
    if zint(a.length).eq(z3.IntVal(0)) or zint(b.length).eq(z3.IntVal(0)):
        ctx.ensure(what, zint(a.length) == zint(b.length))
        return
    ctx.ensure(what, z3.And(zint(a.length) == zint(b.length), z3.Implies(
        z3.And(i >= 0, i < zint(a.length)), zbool(py_eq(a.get(i), b.get(i))))))


ASSUME = ["isinstance is a fixed relation between objects and classes"]


@unit("register", about="a registration is accepted exactly if nothing was resolved before and the type and key are free; it is "
      "found under them and nothing else changes", assumes=ASSUME)
def register(ctx, it):
    w = World(ctx, it)
    kind, other = Entity(KIND, ctx.int("class")), Entity(KIND, ctx.int("other class"))
    key = some_key(ctx, "key")
    if key is not None:
        ctx.assume(zint(key.id) >= 0)
    w.fill(kind, other, key)
    okey = some_key(ctx, "other key")
    if okey is not None:
        ctx.assume(zint(okey.id) >= 0)
    okind = ctx.alt("another registration is of", ["the same class", "the other class"])
    ok = kind if okind == "the same class" else other
    frozen = ctx.alt("resolved before", [False, True])
    if frozen:
        w.freeze()
    taken = w.has0(kind, key)
    k0, o0 = w.listed(w.c, kind), w.listed(w.c, other)
    how = ctx.alt("how", ["provider", "instance", "type"])
    single = ctx.alt("singleton", [True, False]) if how != "instance" else None
    obj = Entity(OBJ, ctx.int("object"))
    prov = Native(lambda i, a, k: obj, "provider")
    if how == "provider":
        out = it.outcome(lambda: it.call_method(w.c, "register", kind, prov, key=key, singleton=single))
    elif how == "instance":
        out = it.outcome(lambda: it.call_method(w.c, "register_instance", kind, obj, key=key))
    else:
        out = it.outcome(lambda: it.call_method(w.c, "register_type", kind, key=key, singleton=single))
    if out[0] == "exc":
        ctx.ensure("only a taken name or a late registration is rejected", z_or(frozen, taken))
        ctx.ensure("as an invalid operation", is_exc(it, out, OPERR))
        same_keys(ctx, "a rejected registration adds no key", w.listed(w.c, kind), k0)
        ctx.cover("rejected")
        new = None
    else:
        ctx.ensure("a taken name or a late registration is rejected", z_not(z_or(frozen, taken)))
        new, b = w.created[-1]
        ks = w.listed(w.c, kind)
        n = zint(k0.length)
        i = ctx.int("ki")
        ctx.ensure("the key is listed last", z3.And(zint(ks.length) == n + 1, zbool(py_eq(ks.get(n), key))))
        if not n.eq(z3.IntVal(0)):
            ctx.ensure("after the keys so far", z3.Implies(z3.And(i >= 0, i < n), zbool(py_eq(ks.get(i), k0.get(i)))))
        ctx.ensure("under its own key", z_and(py_eq(b["key"], key)))
        if how == "provider":
            ctx.ensure("with its provider", b["provider"] is prov and b["singleton"] is single)
        elif how == "instance":
            ctx.ensure("supplying the instance", z_and(py_eq(it.call(b["provider"], [w.c], {}), obj)))
        else:
            wired = []
            ctx.contracts[M + "wire_object"] = lambda i2, bound: (wired.append(bound), obj)[1]
            got = it.call(b["provider"], [w.c], {})
            ctx.ensure("supplying a wired object of the class", len(wired) == 1 and py_eq(got, obj) is True and z_and(
                *[py_eq(v, kind) for v in wired[0].values() if isinstance(v, Entity)],
                any(v is w.c for v in wired[0].values())))
            ctx.ensure("a singleton if asked for", b["singleton"] is single)
        ctx.cover(how)
    same_keys(ctx, "keys of other types stay", w.listed(w.c, other), o0)
    # what is found afterwards
    fresh_obj = Entity(OBJ, ctx.int("resolved"))
    w.outcome_of = lambda r, k: fresh_obj
    w.asked.clear()
    own = new is not None
    got = it.outcome(lambda: it.call_method(w.c, "resolve", kind, key=key))
    if own:
        ctx.ensure("the new registration is found", got[0] == "ok" and len(w.asked) == 1 and z_and(py_eq(w.asked[0][0], new)))
    elif ctx.branch(taken):
        ctx.ensure("the old registration is found", got[0] == "ok" and len(w.asked) == 1 and z_and(py_eq(w.asked[0][0], w.reg0(kind, key))))
    w.asked.clear()
    same = z_and(zint(ok.id) == zint(kind.id), w.key_id(okey) == w.key_id(key))
    if not ctx.branch(zbool(same)):
        there = ctx.branch(w.has0(ok, okey))
        got = it.outcome(lambda: it.call_method(w.c, "resolve", ok, key=okey))
        if there:
            ctx.ensure("every other registration stays", got[0] == "ok" and len(w.asked) == 1 and z_and(py_eq(w.asked[0][0], w.reg0(ok, okey))))
        else:
            ctx.ensure("nothing else appears", is_exc(it, got, NOTFOUND))
        ctx.cover("others")
    ctx.require_cover("rejected", "provider", "instance", "type", "others")


def not_found(ctx, it, kind, key):
    return PyExc(it.instantiate(it.cls(NOTFOUND), [kind, key, "missing"], {}))


@unit("resolve", about="resolve asks exactly the registration of the type and key; maybe_resolve yields nothing only for its own",
      assumes=ASSUME)
def resolve(ctx, it):
    w = World(ctx, it)
    kind, other = Entity(KIND, ctx.int("class")), Entity(KIND, ctx.int("other class"))
    key = some_key(ctx, "key")
    if key is not None:
        ctx.assume(zint(key.id) >= 0)
    w.fill(kind, other, key)
    if ctx.alt("resolved before", [False, True]):
        w.freeze()
    how = ctx.alt("provider", ["object", "nothing", "not found", "cycle", "error"])
    obj = Entity(OBJ, ctx.int("object"))
    deep = (Entity(KIND, ctx.int("deep class")), some_key(ctx, "deep key"))
    if how == "not found":
        w.error = not_found(ctx, it, *deep)
    elif how == "cycle":
        w.error = PyExc(it.instantiate(it.cls(CYCLE), [], {"cycle": PyList(ctx, [deep])}))
    elif how == "error":
        w.error = it.exc(RuntimeError, "provider")
    w.outcome_of = lambda r, k: obj if how == "object" else None if how == "nothing" else RAISES
    has = w.has0(kind, key)
    optional = ctx.alt("call", ["resolve", "maybe_resolve", "lookup"])
    if optional == "lookup":
        if key is None:
            raise PathEnd()
        lk = it.instantiate(it.cls(LOOKUP), [w.c, kind], {})
        out = it.outcome(lambda: it.call_method(lk, "maybe_get", key))
    else:
        out = it.outcome(lambda: it.call_method(w.c, optional, kind, key=key))
    if not ctx.branch(has):
        if optional == "resolve":
            ctx.ensure("a missing provider is reported", is_exc(it, out, NOTFOUND))
            ctx.ensure("under the type and key", z_and(py_eq(it.getattr(out[1].obj, "kls"), kind), py_eq(it.getattr(out[1].obj, "key"), key)))
        else:
            ctx.ensure("a missing provider yields nothing", out[0] == "ok" and out[1] is None)
        ctx.ensure("no provider is asked", len(w.asked) == 0)
        ctx.cover("missing")
    else:
        ctx.ensure("exactly the registration of the type and key is asked", len(w.asked) == 1 and z_and(
            py_eq(w.asked[0][0], w.reg0(kind, key)), py_eq(w.asked[0][1], kind)))
        ctx.ensure("on behalf of the container", w.asked[0][2] is w.c)
        if how == "object":
            ctx.ensure("its object is returned", out[0] == "ok" and z_and(py_eq(out[1], obj)))
        elif how == "nothing":
            if optional == "resolve":
                ctx.ensure("a provider that supplies nothing is reported", is_exc(it, out, NOTFOUND))
                ctx.ensure("a missing object is reported under the type and key", z_and(
                    py_eq(it.getattr(out[1].obj, "kls"), kind), py_eq(it.getattr(out[1].obj, "key"), key)))
            else:
                ctx.ensure("a provider that supplies nothing yields nothing", out[0] == "ok" and out[1] is None)
        elif how == "not found" and optional != "resolve" and ctx.branch(zbool(z_and(py_eq(deep[0], kind), py_eq(deep[1], key)))):
            pass  # cannot happen: that would be a cycle
        else:
            ctx.ensure("a deeper failure is reported", out[0] == "exc" and out[1].obj is w.error.obj)
            ctx.cover("deeper failure")
    late = it.outcome(lambda: it.call_method(w.c, "register_instance", Entity(KIND, ctx.int("late")), obj))
    ctx.ensure("nothing can be registered afterwards", is_exc(it, late, OPERR))
    ctx.require_cover("missing", "deeper failure")


def coll_world(ctx, it, w, key):
    plain, dflt = w.maps(w.coll)
    if plain or len(dflt) != 2:
        raise Unsupported("the collection container holds its registrations in another way")
    kind, other = Entity(KIND, ctx.int("class")), Entity(KIND, ctx.int("other class"))
    ctx.assume(zint(kind.id) != zint(other.id))
    # which of the two dictionaries holds the registrations is found out by registering once
    it.call_method(w.coll, "register_instance", kind, Entity(OBJ, ctx.int("probe")), key=key)
    full = [d for d in dflt if any(isinstance(x, tuple) for x in d.content)]
    if len(full) != 1:
        raise Unsupported("registrations of the collection container")
    full = full[0]
    w.created.clear()
    return kind, other, full, dflt[0] if dflt[1] is full else dflt[1]


def late(ctx, it, w, kind):
    obj = Entity(OBJ, ctx.int("late"))
    for o in (w.coll, w.c):
        out = it.outcome(lambda: it.call_method(o, "register_instance", kind, obj))
        ctx.ensure("nothing can be registered after a resolution", is_exc(it, out, OPERR))


@unit("collection registration", about="the collection accepts any registration before the first resolution, at the end of those "
      "of its type and key, and nothing else changes", assumes=ASSUME)
def coll_register(ctx, it):
    w = World(ctx, it)
    key = some_key(ctx, "key")
    kind, other, full, keys = coll_world(ctx, it, w, key)
    # (fresh containers apart, lists of registrations are arbitrary)
    some = ctx.alt("has registrations", [True, False])
    k0, o0 = (fresh_seq(ctx, ("ent", w.REG), t) for t in ("registrations", "other registrations"))
    full.content = {(other, key): PyList(ctx, o0)}
    if some:
        full.content[(kind, key)] = PyList(ctx, k0)
    w.fill_keys(keys, kind, other, key)
    kk0, ko0 = w.listed(w.coll, kind), w.listed(w.coll, other)
    frozen = ctx.alt("resolved before", [False, "container", "collection"])
    if frozen == "container":
        it.outcome(lambda: it.call_method(w.c, "resolve", Entity(KIND, ctx.int("earlier"))))
    elif frozen:
        it.outcome(lambda: it.call_method(w.coll, "resolve", other))
    obj = Entity(OBJ, ctx.int("object"))
    prov = Native(lambda i, a, k: obj, "provider")
    add = ctx.alt("register", ["provider", "instance", "type"])
    if add == "provider":
        out = it.outcome(lambda: it.call_method(w.coll, "register", kind, prov, key=key, singleton=True))
    elif add == "instance":
        out = it.outcome(lambda: it.call_method(w.coll, "register_instance", kind, obj, key=key))
    else:
        out = it.outcome(lambda: it.call_method(w.coll, "register_type", kind, key=key, singleton=True))
    ctx.ensure("a registration is rejected exactly after a resolution", (out[0] == "exc") is bool(frozen))
    lists = {id(k): v for k, v in full.content.items()}
    now = [v for k, v in full.content.items() if py_eq(k[0], kind) is True or k[0] is kind]
    i = ctx.int("ri")
    if frozen:
        ctx.ensure("a late registration is an invalid operation", is_exc(it, out, OPERR))
        same_keys(ctx, "a rejected registration adds no key", w.listed(w.coll, kind), kk0)
        same_keys(ctx, "a rejected registration is not kept", it.seq_of(now[0]) if now else SymSeq(0, None),
                  k0 if some else SymSeq(0, None))
        ctx.cover("rejected")
    else:
        new, b = w.created[-1]
        n = zint(k0.length) if some else z3.IntVal(0)
        regs = it.seq_of(now[0])
        ctx.ensure("the registration comes last", z3.And(zint(regs.length) == n + 1, zbool(py_eq(regs.get(n), new))))
        if some:
            ctx.ensure("after those so far", z3.Implies(z3.And(i >= 0, i < n), zbool(py_eq(regs.get(i), k0.get(i)))))
        ks, n = w.listed(w.coll, kind), zint(kk0.length)
        ctx.ensure("the key is listed last", z3.And(zint(ks.length) == n + 1, zbool(py_eq(ks.get(n), key))))
        if not n.eq(z3.IntVal(0)):
            ctx.ensure("after the keys so far", z3.Implies(z3.And(i >= 0, i < n), zbool(py_eq(ks.get(i), kk0.get(i)))))
        if add == "provider":
            ctx.ensure("with its provider", b["provider"] is prov and b["singleton"] is True)
        elif add == "instance":
            ctx.ensure("supplying the instance", z_and(py_eq(it.call(b["provider"], [w.c], {}), obj)))
        else:
            wired = []
            ctx.contracts[M + "wire_object"] = lambda i2, bound: (wired.append(bound), obj)[1]
            got = it.call(b["provider"], [w.c], {})
            ctx.ensure("supplying a wired object of the class", len(wired) == 1 and py_eq(got, obj) is True and z_and(
                *[py_eq(v, kind) for v in wired[0].values() if isinstance(v, Entity)],
                any(v is w.c for v in wired[0].values())))
        ctx.cover(add)
    same_keys(ctx, "keys of other types stay", w.listed(w.coll, other), ko0)
    same_keys(ctx, "registrations of other types stay", it.seq_of(
        [v for k, v in full.content.items() if k[0] is other][0]), o0)
    ctx.require_cover("rejected", "provider", "instance", "type")


@unit("collection", about="resolving all of a type yields the objects of all its registrations, in order, leaving out none but "
      "those that supply nothing", assumes=ASSUME)
def collection(ctx, it):
    w = World(ctx, it)
    key = some_key(ctx, "key")
    kind, other, full, keys = coll_world(ctx, it, w, key)
    k0, o0 = (fresh_seq(ctx, ("ent", w.REG), t) for t in ("registrations", "other registrations"))
    some = ctx.alt("has registrations", [True, False])
    full.content = {(other, key): PyList(ctx, o0)}
    if some:
        full.content[(kind, key)] = PyList(ctx, k0)
    # contract of get_instance: registration r supplies supplied(r), or nothing
    nothing, sup = ctx.func("nothing", I, z3.BoolSort()), ctx.func("supplied", I, I)

    def outcome_of(r, k):
        ctx.ensure("each registration is asked for its own type", z_and(py_eq(k, kind)))
        return None if ctx.branch(nothing(zint(r.id))) else Entity(OBJ, sup(zint(r.id)))

    w.outcome_of = outcome_of
    f = Filtered(ctx, "supplying", k0.length, lambda i: z3.Not(nothing(zint(k0.get(i).id))))
    spec = lambda i: Entity(OBJ, sup(zint(k0.get(i).id)))
    EMPTY = SymSeq(0, lambda i: Entity(OBJ, z3.IntVal(0)), ("ent", OBJ))

    def cand(view):
        out = {}
        for name, cur in view.cur.items():
            if isinstance(cur, list) and not cur:
                cur = EMPTY
            if isinstance(cur, SymSeq):
                for a, t in f.inv(view.k, cur.length, cur.get, spec).items():
                    out[f"{name}: {a}"] = t
        return out

    ctx.loop_cands.append(cand)
    got = it.call_method(w.coll, "resolve", kind, key=key)
    res = it.seq_of(it.call(Native(B_ITER, "iter"), [got], {}))
    if isinstance(res.length, int) and res.length == 0:
        res = EMPTY
    if some:
        for what, t in f.inv(k0.length, res.length, res.get, spec).items():
            ctx.ensure(f"resolving all of a type: {what}", t)
        ctx.cover("some")
    else:
        ctx.ensure("without registrations, nothing", zint(res.length) == 0)
    late(ctx, it, w, kind)
    ctx.require_cover("some")
