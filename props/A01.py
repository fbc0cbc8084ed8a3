from pyvc.api import *

S = "fairseq2.assets.store:StandardAssetStore"
C = "fairseq2.assets.card:AssetCard"
P = "fairseq2.assets.metadata_provider"
I, BS = z3.IntSort(), z3.BoolSort()
W = {}


class Strings:
    """Strings without structure; strip is idempotent."""

    name = "string"

    def truth(self, it, e):
        return W["nonempty"](zint(e.id))

    def isinstance(self, it, e, cls):
        return isinstance(cls, BuiltinCls) and cls.t in (str, object)

    def eq(self, a, b):
        if isinstance(b, Entity) and b.model is self:
            return zint(a.id) == zint(b.id)
        if b == "":
            return z3.Not(W["nonempty"](zint(a.id)))
        return NotImplemented

    def contains(self, it, e, v):
        if v != "@":
            raise Unsupported(f"{v!r} in a string")
        return W["at"](zint(e.id))

    def getattr(self, it, e, name):
        i = zint(e.id)
        if name == "strip":
            def strip(it, a, k):
                if a or k:
                    raise Unsupported("strip of characters")
                r = W["strip"](i)
                it.ctx.fact(z3.And(W["strip"](r) == r, z3.Implies(W["nonempty"](r), W["nonempty"](i)), z3.Implies(z3.Not(W["at"](i)), z3.Not(W["at"](r)))))
                return Entity(STR, r)
            return Native(strip, name)
        if name in ("split", "partition"):
            def split(it, a, k):
                most = k.get("maxsplit", a[1] if len(a) > 1 else -1)
                if a[0] != "@" or most not in (-1, 1):
                    raise Unsupported("another split")
                parts = [W["part"](i, j) for j in range(3)]
                for p in parts if most == -1 and name == "split" else parts[:1]:
                    it.ctx.fact(z3.Not(W["at"](p)))
                if not it.ctx.branch(W["at"](i)):
                    return PyList(it.ctx, [e]) if name == "split" else (e, "", "")
                if name == "partition":
                    return (Entity(STR, parts[0]), "@", Entity(STR, W["rest"](i)))
                if most == 1:
                    return PyList(it.ctx, [Entity(STR, parts[0]), Entity(STR, W["rest"](i))])
                one = it.ctx.branch(z3.Not(W["at"](W["rest"](i))))
                if one:
                    it.ctx.fact(parts[1] == W["rest"](i))
                return PyList(it.ctx, [Entity(STR, p) for p in parts[:2 if one else 3]])
            return Native(split, name)
        if name in ("count",):
            return Native(lambda it, a, k: z3.If(W["at"](i), z3.If(W["at"](W["rest"](i)), z3.IntVal(2), z3.IntVal(1)), z3.IntVal(0)), name)
        raise Unsupported(f"method {name} of a string")

    def getitem(self, it, e, i):
        if i == 0:
            return Entity(CHR, zint(e.id))
        raise Unsupported("characters of a string")


class Chars:
    """The first character of a string without @."""

    name = "char"

    def eq(self, a, b):
        return False if b == "@" else NotImplemented


STR, CHR = Strings(), Chars()


def world(ctx):
    W.clear()
    W["nonempty"], W["at"] = ctx.func("nonempty", I, BS), ctx.func("has_at", I, BS)
    W["strip"], W["part"], W["rest"] = ctx.func("strip", I, I), ctx.func("part", I, I, I), ctx.func("rest", I, I)


def string(ctx, name):
    return Entity(STR, ctx.int(name))


class Values:
    name = "value"

    def isinstance(self, it, e, cls):
        return NotImplemented


VAL = Values()


def key_of(v):
    """The parts of a lookup key: the name and the environment, None without one."""
    if isinstance(v, FStr):
        h = [p for p in v.parts if not isinstance(p, str)]
        lit = [p for p in v.parts if isinstance(p, str)]
        if lit == ["@"] and v.parts and v.parts[0] is h[0] and all(not s for _, s in h):
            if len(h) == 1:
                return h[0][0], None
            if len(h) == 2 and v.parts[1] == "@":
                return h[0][0], h[1][0]
    raise Unsupported(f"the key {v!r}")


class Meta(Model):
    """Metadata of an asset, of which one arbitrary field and the base are followed."""

    def __init__(self, ctx, name, field, base, has=None, value=None):
        super().__init__(ctx, None)
        self.name, self.field, self.base = name, field, base
        self.has, self.value = (has if has is not None else ctx.bool(f"{name}_has")), (value if value is not None else ctx.int(f"{name}_value"))
        self.owned, self.log = True, []

    def find_method(self, name):
        return None

    def getattr(self, ctx, name):
        if name == "get":
            return Native(lambda it, a, k: self.lookup(it, a[0], a[1] if len(a) > 1 else k.get("default")), name)
        if name == "update":
            def update(it, a, k):
                if len(a) != 1 or k or not isinstance(a[0], Meta):
                    raise Unsupported("another update")
                o = a[0]
                self.log.append(o)
                self.has, self.value = z3.Or(zbool(self.has), zbool(o.has)), z3.If(zbool(o.has), o.value, self.value)
                self.base = {"has": z3.Or(self.base["has"], o.base["has"]), "str": z3.If(o.base["has"], o.base["str"], self.base["str"]),
                             "id": z3.If(o.base["has"], o.base["id"], self.base["id"])}
            return Native(update, name)
        return NotImplemented

    def lookup(self, it, k, default):
        if k == "base":
            if not it.ctx.branch(self.base["has"]):
                return default
            return Entity(STR, self.base["id"]) if it.ctx.branch(self.base["str"]) else Entity(NOSTR, self.base["id"])
        raise Unsupported(f"the field {k!r}")

    def getitem(self, it, k):
        r = self.lookup(it, k, UNBOUND)
        if r is UNBOUND:
            raise it.exc(KeyError, k)
        return r

    def contains(self, it, k):
        if k == "base":
            return self.base["has"]
        raise Unsupported(f"the field {k!r}")

    def binop(self, it, op, other, swapped):
        if op == "BitOr" and isinstance(other, Meta):
            a, b = (other, self) if swapped else (self, other)
            r = Meta(it.ctx, "merged", a.field, dict(a.base), a.has, a.value)
            r.getattr(it.ctx, "update").fn(it, [b], {})
            return r
        raise Unsupported("operator")


class NoStrings:
    name = "no string"

    def isinstance(self, it, e, cls):
        return isinstance(cls, BuiltinCls) and cls.t is object

    def truth(self, it, e):
        raise Unsupported("the truth of a base that is no string")


NOSTR = NoStrings()


def base_of(ctx, name):
    return {"has": ctx.bool(f"{name}_has_base"), "str": ctx.bool(f"{name}_base_is_str"), "id": ctx.int(f"{name}_base")}


@unit("card retrieval", about="every registry, name, environment list of any length and set of visited base cards; base cards by the contract of the recursion",
      assumes=["the contracts of providers: an asset's metadata belongs to the caller"])
def card(ctx, it):
    world(ctx)
    has0, has = ctx.func("has_plain", I, BS), ctx.func("has_env", I, I, BS)
    n_envs, env = ctx.int("num_envs", lo=0, inp=True), ctx.func("env", I, I)
    field = ctx.int("field")
    name, leaf = string(ctx, "name"), string(ctx, "leaf")
    nid = zint(name.id)
    first = ctx.int("first_env", lo=0)
    ctx.fact(z3.And(first <= n_envs, z3.Implies(first < n_envs, has(nid, env(first)))))
    seen = ctx.func("visited", I, BS)
    plain, envs_meta = Meta(ctx, "plain", field, base_of(ctx, "plain")), []
    pf = dict(plain.base, h=plain.has, v=plain.value)
    ctx.fact(seen(nid))

    def env_at(j):
        ctx.fact(z3.Implies(z3.And(zint(j) >= 0, zint(j) < first), z3.Not(has(nid, env(zint(j))))))
        return Entity(STR, env(zint(j)))

    envs = PyList(ctx, SymSeq(n_envs, env_at, ("ent", STR)))
    got = []

    def get(it, b):
        n, e = key_of(next(v for k, v in b.items() if k == "name"))
        ctx.ensure("the metadata of the asset itself is read", py_eq(n, name))
        if e is None:
            if not ctx.branch(has0(zint(n.id))):
                return None
            ctx.ensure("read once", "plain" not in got)
            got.append("plain")
            return plain
        if not isinstance(e, Entity):
            raise Unsupported("another environment")
        if not ctx.branch(has(zint(n.id), zint(e.id))):
            return None
        m = Meta(ctx, "env", field, base_of(ctx, "env"))
        m.env = zint(e.id)
        m.initial = dict(m.base, h=m.has, v=m.value)
        envs_meta.append(m)
        return m

    ctx.contracts[S + "._maybe_get_metadata"] = get
    inside, nested = [], []
    broken = ctx.bool("base_is_broken")  # its chain is cyclic or lacks a card

    def rec(it, b):
        if not inside:
            inside.append(1)
            return it.call_body(it.func(S + "._do_retrieve_card"), [b[n] for n in b], {})
        ctx.ensure("one base card", not nested)
        nested.append(b)
        ctx.ensure("the same asset is asked for", py_eq(b["leaf_name"], leaf))
        e = b["envs"]
        ctx.ensure("base cards look up the same environments", e is envs)
        v = b["visited"]
        y = string(ctx, "other")
        ctx.ensure("visited base cards are remembered", z3.And(z3.Implies(seen(zint(y.id)), zbool(it.b.contains(it, v, y))),
                                                               zbool(it.b.contains(it, v, b["name"]))))
        ctx.ensure("only visited base cards are", z3.Implies(zbool(it.b.contains(it, v, y)), z3.Or(seen(zint(y.id)), zbool(py_eq(y, b["name"])))))
        ctx.ensure("every base card is visited once", z3.Not(seen(zint(b["name"].id))))
        if ctx.branch(broken):
            raise _card_error(it, leaf)
        nested.append(Model(ctx, None))
        return nested[-1]

    ctx.contracts[S + "._do_retrieve_card"] = rec
    ctx.loop_cands.append(lambda view: {"no earlier environment": zint(view.k) <= first})
    visited = PySet(ctx, [], [lambda v: seen(zint(v.id))])
    store = it.new(S, _metadata_providers=PyList(ctx, []), _asset_names=PySet(ctx, []), _envs=envs)
    ctx.require_cover("found", "not found", "in an environment", "without environment", "missing base", "cycle", "broken base", "base")
    out = it.outcome(lambda: it.call_method(store, "_do_retrieve_card", name, leaf, envs, visited))
    exists = has0(nid)
    is_leaf = zbool(py_eq(name, leaf))
    hit = first < n_envs
    m = envs_meta[-1].initial if envs_meta else None
    base = {k: (z3.If(m["has"], m[k], pf[k]) if k != "has" else z3.Or(m[k], pf[k])) if m else pf[k] for k in ("has", "str", "id")}
    has_base = z3.And(base["has"], base["str"])
    if out[0] == "exc":
        ctx.ensure("errors of cards", it.subclass(out[1].obj.cls, it.cls("fairseq2.assets.card:AssetCardError")))
        if len(nested) == 1:
            ctx.ensure("errors of base cards are passed on", broken)
            ctx.cover("broken base")
            return
        ctx.ensure("the error names the card that was asked for", zbool(py_eq(it.getattr(out[1].obj, "name"), leaf)))
        ctx.ensure("only missing and cyclic base cards are errors", z3.Or(z3.And(z3.Not(exists), z3.Not(is_leaf)),
                                                                          z3.And(exists, has_base, seen(base["id"]))))
        ctx.cover("cycle" if ctx.branch(exists) else "missing base")
        return
    if out[1] is None:
        ctx.ensure("only unknown assets have no card", z3.And(z3.Not(exists), is_leaf))
        ctx.cover("not found")
        return
    r = out[1]
    ctx.ensure("a card is returned", isinstance(r, Obj) and it.subclass(r.cls, it.cls(C)))
    if not (isinstance(r, Obj) and it.subclass(r.cls, it.cls(C))):
        return
    ctx.cover("found")
    ctx.ensure("unknown assets have no card", exists)
    ctx.ensure("the card has its name", py_eq(it.getattr(r, "name"), name))
    md = it.getattr(r, "metadata")
    ctx.ensure("the card has the metadata", isinstance(md, Meta))
    if not isinstance(md, Meta):
        return
    ctx.ensure("the first matching environment overrides the plain metadata, or none does", z3.BoolVal(bool(envs_meta)) == hit)
    if envs_meta:
        ctx.ensure("it is the first one", envs_meta[-1].env == env(first))
        ctx.cover("in an environment")
    else:
        ctx.cover("without environment")
    want_has = z3.Or(zbool(m["h"]), zbool(pf["h"])) if m else zbool(pf["h"])
    want_val = z3.If(zbool(m["h"]), m["v"], pf["v"]) if m else pf["v"]
    ctx.ensure("a field is there if either has it", zbool(md.has) == want_has)
    ctx.ensure("fields of the environment win", z3.Implies(want_has, md.value == want_val))
    b = it.getattr(r, "base")
    if nested:
        ctx.ensure("the base card is the one of the base name", b is nested[-1] and py_eq(nested[0]["name"].id, base["id"]))
        ctx.ensure("only cards with a base have one", has_base)
        ctx.cover("base")
    else:
        ctx.ensure("cards without a base have none", z3.And(z3.BoolVal(b is None), z3.Not(has_base)))


def _card_error(it, leaf):
    from pyvc.interp import PyExc
    return PyExc(it.instantiate(it.cls("fairseq2.assets.card:AssetCardError"), [leaf, "broken"], {}))


@unit("names and environments", about="every name with and without an environment; retrieve_card reports unknown assets")
def names(ctx, it):
    world(ctx)
    envs = PyList(ctx, SymSeq(ctx.int("num_envs", lo=1), lambda j: Entity(STR, zint(j)), ("ent", STR)))
    store = it.new(S, _metadata_providers=PyList(ctx, []), _asset_names=PySet(ctx, []), _envs=envs)
    got = []
    found = ctx.bool("found")

    def rec(it, b):
        got.append(b)
        return Model(ctx, None) if ctx.branch(found) else None

    ctx.contracts[S + "._do_retrieve_card"] = rec
    name = string(ctx, "name")
    i = zint(name.id)
    strict = ctx.alt("method", ["maybe_retrieve_card", "retrieve_card"])
    ctx.require_cover("plain", "environment", "no environment", "empty", "found", "unknown")
    out = it.outcome(lambda: it.call_method(store, strict, name))
    tagged = ctx.branch(W["at"](i))
    before = W["strip"](W["part"](i, 0) if tagged else i)
    ctx.ensure("one look-up at most", len(got) <= 1)
    if not got:
        ctx.ensure("only empty names are not looked up", z3.Not(W["nonempty"](before)))
        ctx.cover("empty")
    else:
        b = got[0]
        ctx.ensure("empty names are not looked up", W["nonempty"](before))
        ctx.ensure("the name without environment is looked up", z3.And(zbool(py_eq(b["name"], Entity(STR, before))), zbool(py_eq(b["leaf_name"], Entity(STR, before)))))
        e = b["envs"]
        if not tagged:
            ctx.ensure("in the environments of the store", e is envs)
            ctx.cover("plain")
        else:
            env = W["strip"](W["rest"](i))
            items = it.concrete_items(e)
            if items is None:
                ctx.ensure("an explicit environment replaces those of the store", False)
                return
            if items:
                ctx.ensure("an explicit environment is looked up alone", z3.And(z3.BoolVal(len(items) == 1), W["nonempty"](env),
                                                                                zbool(py_eq(items[0], Entity(STR, env)))))
                ctx.cover("environment")
            else:
                ctx.ensure("an empty environment means none", z3.Not(W["nonempty"](env)))
                ctx.cover("no environment")
        v = b.get("visited")
        if v is not None:
            y = string(ctx, "other")
            ctx.ensure("only the asset itself is visited", zbool(it.b.contains(it, v, y)) == zbool(py_eq(y, Entity(STR, before))))
    ok = z3.And(z3.BoolVal(bool(got)), found)
    if out[0] == "exc":
        ctx.ensure("only unknown assets are errors", z3.And(z3.Not(ok), z3.BoolVal(strict == "retrieve_card")))
        ctx.ensure("unknown assets are reported as not found", it.subclass(out[1].obj.cls, it.cls("fairseq2.assets.store:AssetNotFoundError")))
        ctx.cover("unknown")
    elif out[1] is None:
        ctx.ensure("nothing is returned only for unknown assets", z3.And(z3.Not(ok), z3.BoolVal(strict != "retrieve_card")))
    else:
        ctx.ensure("the card of the look-up is returned", ok)
        ctx.cover("found")


class Providers:
    """Metadata providers: provider p has count(p) assets with names key(p, j), without repetition."""

    name = "provider"

    def getattr(self, it, e, name):
        ctx, p = it.ctx, zint(e.id)
        if name == "asset_names":
            return Names(ctx, p)
        if name == "source":
            return Entity(SRC, p)
        if name == "maybe_get_metadata":
            def get(it, a, k):
                v = a[0] if a else k["name"]
                if not ctx.branch(W["has"](p, zint(v.id))):
                    return None
                m = Stored(ctx, p, zint(v.id))
                return m
            return Native(get, name)
        raise Unsupported(f"attribute {name} of a provider")


class Sources:
    name = "source"


class Names(Model):
    def __init__(self, ctx, p):
        super().__init__(ctx, None)
        self.p = p

    def contains(self, it, v):
        return W["has"](self.p, zint(v.id))

    def iter_seq(self, it):
        p = self.p

        def at(j):
            n = W["key"](p, zint(j))
            it.ctx.fact(z3.Implies(z3.And(zint(j) >= 0, zint(j) < W["count"](p)), z3.And(W["has"](p, n), W["pos"](p, n) == zint(j))))
            return Entity(STR, n)

        return SymSeq(W["count"](p), at, ("ent", STR))

    def py_len(self, it):
        return W["count"](self.p)


class Stored(Model):
    """Metadata of an asset, as a provider returns it."""

    def __init__(self, ctx, p, n):
        super().__init__(ctx, None)
        self.p, self.n, self.set = p, n, {}

    def setitem(self, it, k, v):
        if not isinstance(k, str):
            raise Unsupported("another key")
        self.set[k] = v


PROV, SRC = Providers(), Sources()


def providers(ctx):
    world(ctx)
    N = ctx.int("num_providers", lo=0, inp=True)
    W["has"], W["count"], W["key"], W["pos"] = ctx.func("has", I, I, BS), ctx.func("count", I, I), ctx.func("key", I, I, I), ctx.func("pos", I, I, I)
    p = z3.Int("p")
    ctx.fact(z3.ForAll([p], W["count"](p) >= 0, patterns=[W["count"](p)]))
    return N, PyList(ctx, SymSeq(N, lambda j: Entity(PROV, zint(j)), ("ent", PROV)))


@unit("provider order", about="any number of providers: the first one that has an asset supplies its metadata, marked with its source")
def order(ctx, it):
    N, ps = providers(ctx)
    name = string(ctx, "name")
    first = ctx.int("first", lo=0)
    H = lambda p: W["has"](p, zint(name.id))
    q = z3.Int("q")
    ctx.fact(z3.And(first <= N, z3.Implies(first < N, H(first)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < first), z3.Not(H(q))), patterns=[H(q)])))
    # the constructor's invariant: the names of the store are those of its providers
    known = PySet(ctx, [], [lambda v: z3.And(first < N, py_eq(v, name))])
    ctx.loop_cands.append(lambda view: {"not found yet": zint(view.k) <= first})
    store = it.new(S, _metadata_providers=ps, _asset_names=known, _envs=PyList(ctx, ["user"]))
    ctx.require_cover("found", "unknown")
    out = it.outcome(lambda: it.call_method(store, "_maybe_get_metadata", name))
    if out[0] == "exc":
        ctx.ensure("no asset raises an error", False)
        return
    if out[1] is None:
        ctx.ensure("only unknown assets have no metadata", first == N)
        ctx.cover("unknown")
        return
    m = out[1]
    ctx.ensure("metadata of a provider", isinstance(m, Stored))
    if isinstance(m, Stored):
        ctx.cover("found")
        ctx.ensure("of the first provider that has the asset", z3.And(first < N, m.p == first, m.n == zint(name.id)))
        s = m.set.get("__source__")
        ctx.ensure("marked with its source and nothing else", z3.And(z3.BoolVal(list(m.set) == ["__source__"]), z3.BoolVal(isinstance(s, Entity) and s.model is SRC),
                                                                    (zint(s.id) if isinstance(s, Entity) else z3.IntVal(-1)) == first))


@unit("registry", about="any number of providers with any number of assets: names are unique across providers and not empty, the store knows all of them")
def registry(ctx, it):
    N, ps = providers(ctx)
    a, b, y = ctx.int("p", lo=0), ctx.int("q", lo=0), ctx.int("asset")
    ctx.assume(z3.And(a < b, b < N))
    name = Entity(STR, y)
    for x in (a, b):  # an asset of a provider is among its names
        ctx.fact(z3.Implies(W["has"](x, y), z3.And(W["pos"](x, y) >= 0, W["pos"](x, y) < W["count"](x), W["key"](x, W["pos"](x, y)) == y)))
    c = ctx.int("r", lo=0)
    ctx.assume(c < N)
    i = z3.Int("i")
    clash = z3.And(W["has"](a, y), W["has"](b, y))

    def gen(view):
        out, k, n = {}, zint(view.k), zint(view.seq.length)
        outer, middle = n.eq(zint(N)), z3.is_app(n) and n.decl().eq(W["count"](a).decl())
        for nm, v in view.cur.items():
            if isinstance(v, tuple) and nm.startswith("PySet"):
                has = zbool(z_or(*[py_eq(name, x) for x in v[0]], *[p(name) for p in v[1]]))
                if outer:
                    out[f"{nm}: all names"] = z3.Implies(z3.And(a < k, W["has"](a, y)), has)
                    out[f"{nm}: more names"] = z3.Implies(z3.And(b < k, W["has"](b, y)), has)
                    out[f"{nm}: only names"] = z3.Implies(has, W["any"](k, y))
                elif middle:
                    for o in ks:
                        for x in (a, b):
                            out[f"{nm}: all names {x}, {o}"] = z3.Implies(z3.And(W["has"](x, y), z3.Or(x < o, z3.And(x == o, W["pos"](x, y) < k))), has)
                        out[f"{nm}: only names, {o}"] = z3.Implies(has, W["any"](o + 1, y))
                    out[f"{nm}: kept"] = has == zbool(has)
            elif isinstance(v, (SymSeq, list)) and outer:
                if isinstance(v, list) and not v:
                    out[f"{nm}: providers"] = k == 0
                elif isinstance(v, SymSeq) and v.kind == ("ent", PROV):
                    out[f"{nm}: one each"] = zint(v.length) == k
                    out[f"{nm}: providers"] = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), zint(v.get(i).id) == i), patterns=app_pattern(zint(v.get(i).id)))
        if outer:
            if view.k is not None:
                ks[:] = [k]
            out["no clash"] = z3.Implies(clash, k <= b)
            out["no empty name a"] = z3.Implies(z3.And(a < k, W["has"](a, y)), W["nonempty"](y))
        else:
            for o in ks:
                for nm, v in cur_names(view):
                    if nm == "default_env":
                        continue
                    out[f"{nm}: no clash, {o}"] = z3.Implies(z3.And(zint(v.id) == y, o == b, W["has"](a, y)), k <= a)
                if not middle:
                    continue
                out[f"no clash, {o}"] = z3.Implies(z3.And(clash, o == b), k <= W["pos"](b, y))
                out[f"no empty name, {o}"] = z3.Implies(z3.And(W["has"](a, y), o == a, W["pos"](a, y) < k), W["nonempty"](y))
        return out

    def cur_names(view):
        f = getattr(view, "frame", None)
        return [(n, v) for n, v in (f.vars if f is not None and hasattr(f, "vars") else {}).items() if isinstance(v, Entity) and v.model is STR]

    ks = []
    W["any"] = ctx.func("any_below", I, I, BS)
    kk, yy = z3.Ints("kk yy")
    ctx.fact(z3.ForAll([kk, yy], z3.Implies(kk >= 0, W["any"](kk + 1, yy) == z3.Or(W["any"](kk, yy), W["has"](kk, yy))), patterns=[W["any"](kk + 1, yy), W["has"](kk, yy)]))
    ctx.fact(z3.ForAll([yy], z3.Not(W["any"](z3.IntVal(0), yy)), patterns=[W["any"](z3.IntVal(0), yy)]))
    ctx.loop_cands.append(gen)
    ctx.require_cover("accepted", "rejected")
    out = it.outcome(lambda: it.instantiate(it.cls(S), [ps], {}))
    if out[0] == "exc":
        ctx.ensure("rejected as a metadata error", it.subclass(out[1].obj.cls, it.cls(P + ":AssetMetadataError")))
        ctx.cover("rejected")
        return
    ctx.cover("accepted")
    s = out[1]
    ctx.ensure("no two providers have an asset of the same name", z3.Not(clash))
    ctx.ensure("no asset has an empty name", z3.Implies(W["has"](a, y), W["nonempty"](y)))
    names = it.getattr(s, "asset_names")
    known = zbool(it.b.contains(it, names, name))
    ctx.ensure("the names of all assets are known", z3.Implies(W["has"](b, y), known))
    ctx.ensure("only the names of assets are known", z3.Implies(known, W["any"](N, y)))
    mine = it.seq_of(it.getattr(s, "_metadata_providers"))
    ctx.ensure("all providers are consulted", zint(mine.length) == N)
    ctx.ensure("in their order", zint(mine.get(c).id) == c)


@unit("environment order", about="the user environment is looked up first, then the default one, if any")
def env_order(ctx, it):
    world(ctx)
    env = string(ctx, "env") if ctx.alt("default environment", ["none", "given"]) == "given" else None
    s = it.instantiate(it.cls(S), [PyList(ctx, [])], {"default_env": env})
    envs = it.concrete_items(it.getattr(s, "_envs"))
    if envs is None:
        raise Unsupported("environments")
    ctx.ensure("the user environment comes first", len(envs) >= 1 and py_eq(envs[0], "user") is True)
    d = W["strip"](zint(env.id)) if env is not None else None
    if len(envs) == 1:
        ctx.ensure("a default environment is looked up", z3.Not(W["nonempty"](d)) if d is not None else True)
    else:
        ctx.ensure("only the default environment follows", len(envs) == 2 and z3.And(W["nonempty"](d), zbool(py_eq(envs[1], Entity(STR, d)))) if d is not None else False)


@unit("cached metadata", about="a provider returns a copy of what it has, and nothing else")
def cached(ctx, it):
    world(ctx)

    class Deep:
        name = "metadata"

        def deepcopy(self, it, e):
            c = ctx.int("copy")
            ctx.fact(z3.And(W["content"](c) == W["content"](zint(e.id)), W["own"](c)))
            return Entity(DEEP, c)

        def truth(self, it, e):
            return W["full"](W["content"](zint(e.id)))

        def is_none(self, it, e):
            return False

    DEEP = Deep()
    W["content"], W["own"], W["full"] = ctx.func("content", I, I), ctx.func("own", I, BS), ctx.func("is_not_empty", I, BS)
    has, val = ctx.func("has", I, BS), ctx.func("val", I, I)
    md = PyDict(ctx, {})
    md.content = SymMap(lambda k: has(zint(k.id)), lambda k: Entity(DEEP, val(zint(k.id))), ("ent", DEEP))
    p = it.instantiate(it.cls(P + ":CachedAssetMetadataProvider"), ["source", md], {})
    k = string(ctx, "name")
    i = zint(k.id)
    ctx.fact(z3.Not(W["own"](val(i))))
    ctx.require_cover("has", "has not")
    r = it.call_method(p, "maybe_get_metadata", k)
    if r is None:
        ctx.ensure("nothing is returned only for unknown assets", z3.Not(has(i)))
        ctx.cover("has not")
    else:
        ctx.ensure("a copy of the metadata", z3.And(has(i), W["content"](zint(r.id)) == W["content"](val(i)), W["own"](zint(r.id))) if isinstance(r, Entity) else False)
        ctx.cover("has")


class Cards:
    """A chain of cards: card k has base card k + 1."""

    name = "card"

    def getattr(self, it, e, name):
        k = zint(e.id)
        if name in ("metadata", "_metadata"):
            return CardData(it.ctx, k)
        if name in ("base", "_base"):
            return Entity(CARD, z3.simplify(k + 1)) if it.ctx.branch(k + 1 < W["depth"]) else None
        if name in ("name", "_name"):
            return Entity(STR, W["card_name"](k))
        f = it.cls(C).find(name)
        if f is not None:
            fn = it.func(f"{C}.{name}")
            return Native(lambda it, a, kw: it.call(fn, [e] + list(a), kw), name)
        raise Unsupported(f"attribute {name} of a card")

    def eq(self, a, b):
        return zint(a.id) == zint(b.id) if isinstance(b, Entity) and b.model is self else NotImplemented

    def isinstance(self, it, e, cls):
        return getattr(cls, "name", "").split(".")[-1] == "AssetCard"

    def truth(self, it, e):
        return True


class CardData(Model):
    def __init__(self, ctx, k):
        super().__init__(ctx, None)
        self.k = k

    def has(self, it, f):
        if not (isinstance(f, Entity) and f.model is STR):
            raise Unsupported(f"the field {f!r}")
        it.ctx.ensure("the field itself is looked up", py_eq(f, W["field"]))
        it.ctx.fact(z3.Implies(z3.And(self.k >= 0, self.k < W["first"]), z3.Not(W["has"](self.k))))
        return W["has"](self.k)

    def value(self, it):
        return None if it.ctx.branch(W["null"](self.k)) else Entity(VAL, self.k)

    def getitem(self, it, f):
        if not it.ctx.branch(self.has(it, f)):
            raise it.exc(KeyError, f)
        return self.value(it)

    def contains(self, it, f):
        return self.has(it, f)

    def getattr(self, ctx, name):
        if name == "get":
            def get(it, a, k):
                if isinstance(a[0], str) and a[0] == "__base_path__":
                    return Entity(PATHS, self.k) if it.ctx.branch(W["has_path"](self.k)) else None
                return self.value(it) if it.ctx.branch(self.has(it, a[0])) else a[1] if len(a) > 1 else None
            return Native(get, name)
        return NotImplemented

    def find_method(self, name):
        return None


class Paths:
    name = "path"

    def isinstance(self, it, e, cls):
        return True

    def getattr(self, it, e, name):
        if name == "joinpath":
            return Native(lambda it, a, k: Joined(it.ctx, zint(e.id), a), name)
        raise Unsupported(f"{name} of a path")

    def truth(self, it, e):
        return True


class Joined(Model):
    def __init__(self, ctx, k, a):
        super().__init__(ctx, None)
        self.k, self.a = k, a


CARD, PATHS = Cards(), Paths()


@unit("fields", about="a chain of base cards of any length: the nearest card that has a field supplies it, with its own null values; "
      "relative pathnames are those of that card")
def fields(ctx, it):
    world(ctx)
    W["depth"], W["has"], W["null"], W["has_path"] = ctx.int("depth", lo=1, inp=True), ctx.func("has", I, BS), ctx.func("is_null", I, BS), ctx.func("has_path", I, BS)
    W["card_name"], W["first"], W["field"] = ctx.func("card_name", I, I), ctx.int("first", lo=0), string(ctx, "field")
    first, depth = W["first"], W["depth"]
    ctx.fact(z3.And(first <= depth, z3.Implies(first < depth, W["has"](first))))

    def gen(view):
        out = {}
        for n, v in view.cur.items():
            if v is None:
                out[f"{n}: none earlier"] = first == depth
            elif isinstance(v, Entity) and v.model is CARD:
                out[f"{n}: none earlier"] = z3.And(zint(v.id) <= first, zint(v.id) >= 0, zint(v.id) < depth)
        return out

    ctx.loop_cands.append(gen)
    how = ctx.alt("method", ["has_field", "maybe_get_field", "field"])
    ctx.require_cover("found", "missing")
    out = it.outcome(lambda: it.call(it.getattr(Entity(CARD, z3.IntVal(0)), how), [W["field"]], {}))
    found = first < depth
    if out[0] == "exc":
        ctx.ensure("a missing field is reported", z3.And(z3.BoolVal(how == "field"), z3.Not(found)))
        ctx.ensure("as an error of the card", it.subclass(out[1].obj.cls, it.cls("fairseq2.assets.card:AssetCardError")))
        ctx.cover("missing")
        return
    if how == "has_field":
        ctx.ensure("a field is there iff some card of the chain has it", zbool(it.truth(out[1])) == found)
        return
    if out[1] is None:
        ctx.ensure("nothing is returned only for missing fields", z3.And(z3.BoolVal(how != "field"), z3.Not(found)))
        ctx.cover("missing")
        return
    ctx.ensure("missing fields are not made up", found)
    v = it.getattr(out[1], "value")
    if v is None:
        ctx.ensure("the value of the nearest card, null included", W["null"](first))
    else:
        ctx.ensure("the value of the nearest card", z3.And(z3.Not(W["null"](first)), zint(v.id) == first) if isinstance(v, Entity) and v.model is VAL else False)
    ctx.cover("found")
    o = it.getattr(out[1], "_owner")
    if not isinstance(o, Entity):
        raise Unsupported("the defining card of a field")
    ctx.ensure("the field knows the card that defines it", zint(o.id) == first)
    ctx.ensure("the field knows its name", py_eq(it.getattr(out[1], "_name"), W["field"]))


@unit("asset names", about="every asset name is brought into the form name@ or name@environment without surrounding space, or rejected; base names have no environment")
def canonical(ctx, it):
    world(ctx)
    s = string(ctx, "name")
    i = zint(s.id)
    ctx.require_cover("name", "environment", "rejected", "base", "no base")
    r = it.call_func(P + ":canonicalize_asset_name", s)
    at, more = W["at"](i), W["at"](W["rest"](i))
    head = W["strip"](z3.If(at, W["part"](i, 0), i))
    if r is None:
        ctx.ensure("only names with two tags and empty names are rejected", z3.Or(z3.And(at, more), z3.Not(W["nonempty"](head))))
        ctx.cover("rejected")
    else:
        n, e = key_of(r)
        ctx.ensure("the name without surrounding space", z3.And(zint(n.id) == head, W["nonempty"](head)))
        if e is None:
            ctx.ensure("only names without environment are plain", z3.Not(at))
            ctx.cover("name")
        else:
            ctx.ensure("the environment without surrounding space", z3.And(at, z3.Not(more), zint(e.id) == W["strip"](W["rest"](i))))
            ctx.cover("environment")
    b = it.call_func(P + ":sanitize_base_asset_name", s)
    if b is None:
        ctx.ensure("only base names that are empty or have an environment are rejected", z3.Or(at, z3.Not(W["nonempty"](W["strip"](i)))))
        ctx.cover("no base")
    else:
        ctx.ensure("base names have no environment", z3.And(z3.Not(at), W["nonempty"](W["strip"](i)), zint(b.id) == W["strip"](i)) if isinstance(b, Entity) else False)
        ctx.cover("base")
