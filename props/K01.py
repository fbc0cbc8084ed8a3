from pyvc.api import *

M = "fairseq2.utils.config:StandardConfigMerger"
I, BS = z3.IntSort(), z3.BoolSort()
W = {}


class Keys:
    """Mapping keys; 0 and 1 are the directives."""

    name = "key"
    NAMES = {"_del_": 0, "_set_": 1}

    def eq(self, a, b):
        if isinstance(b, str):
            return z3.simplify(zint(a.id) == self.NAMES[b]) if b in self.NAMES else False
        return NotImplemented

    def isinstance(self, it, e, cls):
        return W["str"](zint(e.id)) if isinstance(cls, BuiltinCls) and cls.t is str else NotImplemented

    def truth(self, it, e):
        return True


def is_mapping(cls):
    return getattr(cls, "name", "").split(".")[-1] == "Mapping" or isinstance(cls, BuiltinCls) and getattr(cls.t, "__name__", "") in ("dict", "Mapping")


class Values:
    """Values of a configuration; content(v) is what a value says, map(v) whether it is a mapping, own(v) whether it is shared with no input."""

    name = "value"

    def isinstance(self, it, e, cls):
        if is_mapping(cls):
            return W["map"](W["content"](zint(e.id)))
        raise Unsupported(f"the type {cls!r} of a value")

    def deepcopy(self, it, e):
        c = it.ctx.int("copy")
        W["facts"](it.ctx, c, zint(e.id))
        return Entity(VAL, c)

    def truth(self, it, e):
        raise Unsupported("the truth of a value")


KEY, VAL = Keys(), Values()


def world(ctx):
    W.clear()
    W["str"], W["map"], W["content"], W["own"] = ctx.func("is_str", I, BS), ctx.func("is_mapping", I, BS), ctx.func("content", I, I), ctx.func("own", I, BS)
    W["merged"], W["empty"] = ctx.func("merged", I, I, I), ctx.int("empty")
    ctx.fact(W["map"](W["empty"]))

    def facts(ctx, c, v):
        ctx.fact(z3.And(W["content"](c) == W["content"](v), W["own"](c)))

    W["facts"] = facts


class Map(Model):
    """A mapping that must not be modified: key(0), ..., key(n - 1) in order, with their values."""

    def __init__(self, ctx, name, special=None):
        super().__init__(ctx, None)
        self.name, self.special, self.ctx_ = name, special or {}, ctx
        self.n = ctx.int(f"{name}_size", lo=0)
        self.key, self.val, self.pos = ctx.func(f"{name}_key", I, I), ctx.func(f"{name}_value", I, I), ctx.func(f"{name}_position", I, I)
        self.at_facts = []
        for k, v in self.special.items():
            ctx.assume(self.has(z3.IntVal(k)) if v is not None else z3.Or(z3.Not(self.has(z3.IntVal(k)))))

    def at(self, j):
        """The key at a position; keys are distinct (instances of the facts, where they are used)."""
        k = self.key(j)
        inside = z3.And(j >= 0, j < self.n)
        self.ctx_.fact(z3.Implies(inside, z3.And(self.pos(k) == j, z3.Not(W["own"](self.val(k))))))
        for f in self.at_facts:
            self.ctx_.fact(z3.Implies(inside, f(j)))
        return k

    def has(self, k):
        return z3.And(self.pos(k) >= 0, self.pos(k) < self.n, self.key(self.pos(k)) == k)

    def value(self, k):
        for s, v in self.special.items():
            if v is not None and self.valid_key(k, s):
                return v
        return Entity(VAL, self.val(k))

    def valid_key(self, k, s):
        return z3.is_int_value(k) and k.as_long() == s

    def kid(self, k):
        if isinstance(k, str):
            if k not in KEY.NAMES:
                raise Unsupported(f"the key {k}")
            return z3.IntVal(KEY.NAMES[k])
        if not isinstance(k, Entity):
            raise Unsupported("another key")
        return zint(k.id)

    def lookup(self, it, k):
        i = self.kid(k)
        if not it.ctx.branch(self.has(i)):
            return False, None
        if not z3.is_int_value(i):
            for s, v in self.special.items():
                if v is not None and it.ctx.branch(i == s):
                    return True, v
        return True, self.value(i)

    def m_get(self, ctx, k, default=None):
        raise Unsupported("get")

    def getattr(self, ctx, name):
        if name == "get":
            def get(it, a, kw):
                ok, v = self.lookup(it, a[0])
                return v if ok else a[1] if len(a) > 1 else kw.get("default")
            return Native(get, name)
        if name in ("items", "keys", "values"):
            def items(it, a, kw):
                def at(j):
                    k = Entity(KEY, self.at(zint(j)))
                    v = Entity(VAL, self.val(self.key(zint(j))))
                    return (k, v) if name == "items" else k if name == "keys" else v
                kinds = {"items": ("tuple", ("ent", KEY), ("ent", VAL)), "keys": ("ent", KEY), "values": ("ent", VAL)}
                return PyList(ctx, SymSeq(self.n, at, kinds[name]))
            return Native(items, name)
        if name in ("update", "pop", "popitem", "clear", "setdefault"):
            ctx.ensure("the inputs are not modified", False)
            return Native(lambda it, a, kw: None, name)
        return NotImplemented

    def getitem(self, it, k):
        ok, v = self.lookup(it, k)
        if not ok:
            raise it.exc(KeyError, k)
        return v

    def setitem(self, it, k, v):
        it.ctx.ensure("the inputs are not modified", False)

    def delitem(self, it, k):
        it.ctx.ensure("the inputs are not modified", False)

    def contains(self, it, k):
        return self.has(self.kid(k))

    def iter_seq(self, it):
        return SymSeq(self.n, lambda j: Entity(KEY, self.at(zint(j))), ("ent", KEY))

    def py_len(self, it):
        return self.n

    def truth(self, it):
        return self.n > 0

    def isinstance(self, it, cls):
        return is_mapping(cls)


def out_map(ctx):
    """An arbitrary result so far."""
    has, val = ctx.func("out_has", I, BS), ctx.func("out_value", I, I)

    def kid(k):
        return zint(Map.kid(None, k))

    return SymMap(lambda k: has(kid(k)), lambda k: Entity(VAL, val(kid(k))), ("ent", VAL))


class Other(Model):
    """Something that is neither a list nor a mapping."""

    def isinstance(self, it, cls):
        return False


def merge_map(how_del, how_set):
    def f(ctx, it):
        world(ctx)
        C, MAP, OWN = W["content"], W["map"], W["own"]
        bad = ctx.func("malformed", I, BS)  # of the contents of nested overrides: their merge raises a type error

        def first(n, name, wrong, facts):
            """The first of 0..n-1 that is wrong, or n."""
            b = ctx.int(f"first_{name}", lo=0)
            ctx.fact(z3.And(b <= n, z3.Implies(b < n, wrong(b))))
            facts.append(lambda j: z3.Implies(j < b, z3.Not(wrong(j))))
            return b

        direct = lambda x: z3.Or(x == 0, x == 1)
        nd, dk, dp = ctx.int("deleted", lo=0), ctx.func("deleted_key", I, I), ctx.func("deleted_at", I, I)
        del_facts = [lambda j: z3.And(dp(dk(j)) >= 0, dp(dk(j)) <= j, dk(dp(dk(j))) == dk(j))]
        bad_del = first(nd, "bad_del", lambda i: z3.Not(W["str"](dk(i))), del_facts)

        def deleted(j):
            for g in del_facts:
                ctx.fact(z3.Implies(z3.And(j >= 0, j < nd), g(j)))
            return Entity(KEY, dk(j))

        dels = None if how_del == "none" else Other(ctx, None) if how_del == "no list" else PyList(ctx, SymSeq(nd, lambda i: deleted(zint(i)), ("ent", KEY)))
        sets = None if how_set == "none" else Other(ctx, None) if how_set == "no mapping" else Map(ctx, "set")
        bad_set = first(sets.n, "bad_set", lambda i: z3.Not(W["str"](sets.key(i))), sets.at_facts) if how_set == "mapping" else None
        T, S = Map(ctx, "target"), Map(ctx, "source", {0: dels, 1: sets})
        over = lambda x: z3.And(S.has(x), z3.Not(direct(x)))
        cs, ct = (lambda x: C(S.val(x))), (lambda x: C(T.val(x)))
        bad_sub = first(S.n, "malformed", lambda i: z3.And(z3.Not(direct(S.key(i))), MAP(cs(S.key(i))), bad(cs(S.key(i)))), S.at_facts)
        gone = (lambda x: z3.And(dp(x) >= 0, dp(x) < nd, dk(dp(x)) == x)) if how_del == "list" else (lambda x: z3.BoolVal(False))
        inside = []

        def rec(it, b):
            if not inside:
                inside.append(1)
                return it.call_body(it.func(M + "._merge_map"), [b[n] for n in b], {})
            t, s = b["target"], b["source"]
            c = W["empty"] if isinstance(t, PyDict) and t.content == {} else C(zint(t.id)) if isinstance(t, Entity) else None
            if c is None or not isinstance(s, Entity):
                raise Unsupported("arguments of the nested merge")
            ctx.ensure("nested merges are of mappings", z3.And(MAP(c), MAP(C(zint(s.id)))))
            if ctx.branch(bad(C(zint(s.id)))):
                raise it.exc(TypeError, "malformed")
            r = ctx.int("nested")
            ctx.fact(z3.And(C(r) == W["merged"](c, C(zint(s.id))), OWN(r), MAP(C(r))))
            return Entity(VAL, r)

        ctx.contracts[M + "._merge_map"] = rec
        ctx.elem_makers["PyDict.content"] = out_map
        # everything below is about one arbitrary key
        y = ctx.int("key")
        k_y = Entity(KEY, y)
        base = z3.And(T.has(y), z3.Not(gone(y)))
        merged = z3.If(MAP(cs(y)), W["merged"](z3.If(z3.And(base, MAP(ct(y))), ct(y), W["empty"]), cs(y)), cs(y))
        put = sets.has(y) if how_set == "mapping" else z3.BoolVal(False)

        def spec(r, has, content):
            if isinstance(r, dict):
                return None if r else z3.Not(has)
            v = zint(r.get(k_y).id)
            return z3.And(zbool(r.has(k_y)) == has, z3.Implies(has, z3.And(C(v) == content, OWN(v))))

        def gen(view):
            out, k = {}, zint(view.k)
            over_ = lambda m: zint(view.seq.length).eq(zint(m))
            for n, v in view.cur.items():
                if isinstance(v, (SymMap, dict)) and n.startswith("PyDict"):
                    if over_(T.n):
                        out[f"{n}: target"] = spec(v, z3.And(base, T.pos(y) < k), ct(y))
                    if over_(S.n):
                        new = z3.And(over(y), S.pos(y) < k)
                        out[f"{n}: source"] = spec(v, z3.Or(base, new), z3.If(new, merged, ct(y)))
                    if how_set == "mapping" and over_(sets.n):
                        new = z3.And(put, sets.pos(y) < k)
                        out[f"{n}: set"] = spec(v, z3.Or(base, over(y), new), z3.If(new, C(sets.val(y)), z3.If(over(y), merged, ct(y))))
                elif isinstance(v, tuple) and n.startswith("PySet") and over_(nd):
                    has = z_or(*[py_eq(k_y, i) for i in v[0]], *[p(k_y) for p in v[1]])
                    out[f"{n}: deleted"] = zbool(has) == z3.And(gone(y), dp(y) < k)
            if over_(nd):
                out["no bad key"] = k <= bad_del
            if how_set == "mapping" and over_(sets.n):
                out["no bad set"] = k <= bad_set
            if over_(S.n):
                out["no malformed"] = k <= bad_sub
            return {n: t for n, t in out.items() if t is not None}

        ctx.loop_cands.append(gen)
        well = how_del != "no list" and how_set != "no mapping"
        ctx.require_cover(*["merged"] * well, "rejected")
        out = it.outcome(lambda: it.call_method(it.instantiate(it.cls(M), [], {}), "merge", T, S))
        ill = z3.Or(how_del == "no list", bad_del < nd if how_del == "list" else False, how_set == "no mapping", bad_set < sets.n if how_set == "mapping" else False,
                    bad_sub < S.n)
        if out[0] == "exc":
            ctx.ensure("malformed directives are type errors", it.subclass(out[1].obj.cls, BuiltinCls(TypeError)))
            ctx.ensure("only malformed directives are rejected", ill)
            ctx.cover("rejected")
            return
        ctx.ensure("malformed directives are rejected", z3.Not(ill))
        if well:
            ctx.cover("merged")
        r = out[1].content if isinstance(out[1], PyDict) else None
        ctx.ensure("a mapping is returned", r is not None)
        if r is None:
            return
        if isinstance(r, dict):
            ctx.ensure("nothing to merge", z3.Not(z3.Or(base, over(y), put)) if not r else False)
            return
        has, c = zbool(r.has(k_y)), zint(r.get(k_y).id)
        ctx.ensure("keys of the base that are not deleted, of the override and of the insertions", has == z3.Or(base, over(y), put))
        if how_set == "mapping":
            ctx.ensure("inserted values", z3.Implies(put, C(c) == C(sets.val(y))))
        ctx.ensure("override values, mappings merged recursively", z3.Implies(z3.And(over(y), z3.Not(put)), C(c) == merged))
        ctx.ensure("base values elsewhere", z3.Implies(z3.And(base, z3.Not(over(y)), z3.Not(put)), C(c) == ct(y)))
        ctx.ensure("nothing is shared with the inputs", z3.Implies(has, OWN(c)))
    return f


for _d in ("none", "no list", "list"):
    for _s in ("none", "no mapping", "mapping"):
        unit(f"merge of mappings, _del_ {_d}, _set_ {_s}", about="every target and source mapping of any size, every key; recursive merges by their contract",
             assumes=["copy.deepcopy returns an equal value that shares no mutable part"])(merge_map(_d, _s))


@unit("other overrides", about="overrides that are no mapping replace everything; a base that is no mapping counts as empty")
def others(ctx, it):
    world(ctx)
    got = []

    def rec(it, b):
        got.append(b)
        return Model(ctx, None)

    ctx.contracts[M + "._merge_map"] = rec
    m = it.instantiate(it.cls(M), [], {})
    t = Entity(VAL, ctx.int("base")) if ctx.alt("base", ["value", "mapping"]) == "value" else Map(ctx, "base")
    s = Other(ctx, None) if ctx.alt("overrides", ["value", "mapping"]) == "value" else Map(ctx, "overrides")
    tmap = ctx.branch(W["map"](W["content"](zint(t.id)))) if isinstance(t, Entity) else True
    r = it.call_method(m, "merge", t, s)
    if isinstance(s, Other):
        ctx.ensure("the override replaces the base", r is s and not got)
        return
    ctx.ensure("mappings are merged", len(got) == 1 and got[0]["source"] is s)
    if len(got) == 1:
        g = got[0]["target"]
        ctx.ensure("into the base", g is t if tmap else isinstance(g, PyDict) and g.content == {})
    ctx.ensure("the result is that of the merge", isinstance(r, Model) and r is not t and r is not s)
