from collections.abc import Callable, Collection, Iterable, Sequence

from fairseq2.error import InternalError, InvalidOperationError
from fairseq2.runtime.dependency import (DependencyContainer, DependencyCycleError, DependencyLookup,
                                         DependencyNotFoundError, DependencyResolver, wire_object)
from fairseq2.runtime.lazy import Lazy
from fairseq2.runtime.lookup import Lookup

RULE = ("random histories of registrations and resolutions on the real container (providers that resolve other types, supply "
        "nothing, fail, or close a cycle; wired classes of every parameter kind) against a plain reference; non-trivial: a "
        "resolution that succeeds through another one, or a rejected one")


class A: pass
class B: pass
class C: pass
class D(A): pass
KINDS = [A, B, C]
KEYS = [None, None, "x", "y", 1]


class Boom(Exception): pass


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(2, 14)):
            op = rng.choice(["reg"] * 6 + ["inst", "coll", "coll", "coll"] + ["resolve"] * 2 + ["maybe", "all", "lookup"])
            what = rng.choice(["obj", "obj", "none", "dep", "dep", "maybedep", "boom", "wrong"])
            ops.append([op, rng.randrange(3), rng.randrange(5), what, rng.randrange(3), rng.randrange(5), rng.random() < 0.6])
        # all registrations first, mostly
        if rng.random() < 0.85:
            ops.sort(key=lambda o: o[0] in ("resolve", "maybe", "all", "lookup"))
            ops += [[rng.choice(["resolve", "maybe", "all", "lookup"]), rng.randrange(3), rng.randrange(5), "obj", 0, 0, False]
                    for _ in range(6)]
        yield {"ops": ops, "wire": rng.randrange(1 << 30)}


def nontrivial(inp):
    return any(o[3] in ("dep", "maybedep") for o in inp["ops"])


class Ref:
    """A plain reference: registrations as records, instances by identity."""

    def __init__(self):
        self.regs, self.coll, self.frozen, self.runs = {}, {}, False, {}

    def run(self, r, kls):
        """('ok', token) | ('none',) | ('cycle', chain) | ('missing', kls, key) | ('boom',) | ('wrong',)"""
        if r["cached"] is not None:
            res = r["cached"]
        else:
            if r["busy"]:
                return ("cycle", [(kls, r["key"])])
            r["busy"] = True
            r["runs"] += 1
            n = r["runs"]
            res = self.provide(r, n)
            r["busy"] = False
            if res[0] == "cycle":
                return ("cycle", [(kls, r["key"])] + res[1])
            if res[0] in ("missing", "boom", "wrong!"):
                return ("wrong",) if res[0] == "wrong!" else res
            if r["single"]:
                r["cached"] = res
        if res[0] == "badtype":
            return ("wrong",)
        return res

    def provide(self, r, n):
        w = r["what"]
        if w == "obj":
            return ("ok", (r["id"], 1 if r["fixed"] else n))
        if w == "none":
            return ("none",)
        if w == "boom":
            return ("boom",)
        if w == "wrong":
            return ("badtype",)
        kk = (KINDS[r["dk"]], KEYS[r["dkey"]])
        res = self.resolve(*kk)
        if w == "maybedep" and res[0] == "missing" and res[1:] == kk:
            return ("ok", (r["id"], n))
        if res[0] == "ok":
            return ("ok", (r["id"], n))
        return ("wrong!",) if res[0] == "wrong" else res

    def resolve(self, kls, key):
        self.frozen = True
        r = self.regs.get((kls, key))
        if r is None:
            return ("missing", kls, key)
        res = self.run(r, kls)
        return ("missing", kls, key) if res[0] == "none" else res


def check(inp):
    ref, c = Ref(), DependencyContainer()
    objs = {}
    rid = [0]

    def make(kls, what, dk, dkey, single, key, fixed=False):
        rid[0] += 1
        return {"id": rid[0], "what": what, "dk": dk, "dkey": dkey, "single": single, "key": key, "runs": 0, "cached": None,
                "busy": False, "fixed": fixed, "real": 0}

    def provider(r, kls):
        def f(resolver):
            r["real"] += 1
            n = r["real"]
            w = r["what"]
            if w == "none":
                return None
            if w == "boom":
                raise Boom()
            if w == "wrong":
                return 7
            if w in ("dep", "maybedep"):
                (resolver.resolve if w == "dep" else resolver.maybe_resolve)(KINDS[r["dk"]], key=KEYS[r["dkey"]])
            o = objs[(r["id"], n)] = kls()
            return o
        return f

    def real(thunk):
        try:
            o = thunk()
        except DependencyNotFoundError as e:
            return ("missing", e.kls, e.key)
        except DependencyCycleError as e:
            return ("cycle", list(e.cycle))
        except InternalError:
            return ("wrong",)
        except Boom:
            return ("boom",)
        except InvalidOperationError:
            return ("invalid",)
        except Exception as e:  # noqa
            return ("other", repr(e))
        return o

    def same(at, got, want):
        if want[0] == "ok":
            if isinstance(got, tuple):
                return f"{at}: {got}, expected an object"
            if got is not objs.get(want[1]):
                return f"{at}: not the expected object {want[1]}"
            return None
        if isinstance(got, tuple):
            return None if tuple(got) == tuple(want) else f"{at}: {got}, expected {want}"
        return None if want[0] == "none" and got is None else f"{at}: {got!r}, expected {want}"

    for n, (op, k, ki, what, dk, dki, single) in enumerate(inp["ops"]):
        kls, key = KINDS[k], KEYS[ki]
        at = f"operation {n} ({op} {kls.__name__} key={key!r})"
        if op in ("reg", "inst"):
            r = make(kls, "obj" if op == "inst" else what, dk, dki, single if op == "reg" else True, key, fixed=op == "inst")
            ok = not ref.frozen and (kls, key) not in ref.regs
            if op == "reg":
                got = real(lambda: c.register(kls, provider(r, kls), key=key, singleton=single))
            else:
                o = kls()
                objs[(r["id"], 1)] = o
                got = real(lambda: c.register_instance(kls, o, key=key))
            if ok:
                ref.regs[(kls, key)] = r
            if got != (None if ok else ("invalid",)):
                return f"{at}: {got}, expected {'acceptance' if ok else 'a rejection'}"
        elif op == "coll":
            r = make(kls, what, dk, dki, single, key)
            got = real(lambda: c.collection.register(kls, provider(r, kls), key=key, singleton=single))
            if not ref.frozen:
                ref.coll.setdefault((kls, key), []).append(r)
            if got != (("invalid",) if ref.frozen else None):
                return f"{at}: {got}, expected {'a rejection' if ref.frozen else 'acceptance'}"
        elif op == "resolve":
            got = real(lambda: c.resolve(kls, key=key))
            e = same(at, got, ref.resolve(kls, key))
            if e:
                return e
        elif op in ("maybe", "lookup"):
            if op == "lookup":
                got = real(lambda: DependencyLookup(c, kls).maybe_get(key))
            else:
                got = real(lambda: c.maybe_resolve(kls, key=key))
            want = ref.resolve(kls, key)
            if want == ("missing", kls, key):
                want = ("none",)
            e = same(at, got, want)
            if e:
                return e
        else:
            ref.frozen = True
            want = []
            bad = None
            for r in ref.coll.get((kls, key), []):
                res = ref.run(r, kls)
                if res[0] == "none":
                    continue
                if res[0] != "ok":
                    bad = res
                    break
                want.append(res)
            got = real(lambda: list(c.collection.resolve(kls, key=key)))
            if bad:
                e = same(at, got, bad)
                if e:
                    return e
            else:
                if isinstance(got, tuple) or len(got) != len(want):
                    return f"{at}: {got}, expected {len(want)} objects"
                for g, w in zip(got, want):
                    if g is not objs.get(w[1]):
                        return f"{at}: the objects are not those of the registrations in order"
        for r in list(ref.regs.values()) + [x for v in ref.coll.values() for x in v]:
            if r["real"] != r["runs"] and not r["fixed"]:
                return f"{at}: provider {r['id']} ran {r['real']} times, expected {r['runs']}"
        for kls in KINDS:
            for name, o, m in (("container", c, [k for k in ref.regs]), ("collection", c.collection, None)):
                got = list(o.iter_keys(kls))
                want = [k[1] for k in m if k[0] is kls] if m is not None else None
                if want is not None and got != want:
                    return f"{at}: keys of {kls.__name__} are {got}, expected {want}"
                if m is None and sorted(map(repr, got)) != sorted(repr(k[1]) for k, v in ref.coll.items() for _ in v if k[0] is kls):
                    return f"{at}: collection keys of {kls.__name__} are {got}"
    return wired(inp["wire"])


def wired(seed):
    """Every kind of constructor parameter of a wired class."""
    c = DependencyContainer()
    a, d1, d2, xb = A(), D(), A(), B()
    have_b, have_c = bool(seed & 1), bool(seed & 2)
    c.register_instance(A, a)
    c.register_instance(A, d2, key="k")
    if have_b:
        c.register_instance(B, xb)
    if have_c:
        c.register(C, lambda r: None)
    c.collection.register_instance(A, d1)
    c.collection.register(A, lambda r: None)
    c.collection.register_instance(A, d2)

    class W:
        def __init__(self, a: A, res: DependencyResolver, it: Iterable[A], seq: Sequence[A], col: Collection[A], lk: Lookup[A],
                     lz: Lazy[A], fn: Callable[[], A], ob: B | None, oc: C | None, dflt: B = 5, num: "int | str" = 3,
                     given: int = 4, *, kw: A) -> None:
            self.__dict__.update({k: v for k, v in locals().items() if k != "self"})

    W.__init__.__annotations__.update(a=A, res=DependencyResolver, it=Iterable[A], seq=Sequence[A], col=Collection[A],
                                      lk=Lookup[A], lz=Lazy[A], fn=Callable[[], A], ob=B | None, oc=C | None, dflt=B,
                                      num=int | str, given=int, kw=A)
    try:
        w = wire_object(c, W, given=11)
        got = dict(a=w.a is a, res=w.res is c, it=list(w.it) == [d1, d2], seq=w.seq == [d1, d2], col=list(w.col) == [d1, d2],
                   lk=w.lk.maybe_get("k") is d2 and w.lk.maybe_get("z") is None and list(w.lk.iter_keys()) == [None, "k"],
                   lz=w.lz.get() is a and w.lz.get() is a, fn=w.fn() is a,
                   ob=w.ob is (xb if have_b else None), oc=w.oc is None, dflt=w.dflt is xb if have_b else w.dflt == 5,
                   num=w.num == 3, given=w.given == 11, kw=w.kw is a)
    except Exception as e:  # noqa
        return f"wiring a class failed: {e!r}"
    bad = [k for k, v in got.items() if not v]
    if bad:
        return f"wired parameters {bad} are wrong"
    try:
        wire_object(c, W, given=1, other=2)
        return "an unused argument of a wired class is accepted"
    except Exception:  # noqa
        pass

    class N:
        def __init__(self, b: B) -> None: ...
    N.__init__.__annotations__.update(b=B)
    try:
        wire_object(c, N)
        ok = True
    except DependencyNotFoundError:
        ok = False
    except Exception as e:  # noqa
        return f"a missing dependency of a wired class is reported as {e!r}"
    return None if ok == have_b else "a wired class with a missing dependency"
