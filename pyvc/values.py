"""Values of the symbolic interpreter."""
from __future__ import annotations

from fractions import Fraction
from typing import Any, Callable

import z3

from .core import (FALSE, TRUE, HObj, Path, Unsupported, is_sym_bool, is_sym_int, is_sym_real,
                   is_z3, z_and, z_not, z_or, zbool, zint, znum, zreal)


# ----------------------------------------------------------------------------- immutable
class Ext:
    """A name outside the repository (resolved through the model registry)."""

    __slots__ = ("name",)
    _pool: dict[str, "Ext"] = {}

    def __new__(cls, name: str) -> "Ext":
        e = cls._pool.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls._pool[name] = e
        return e

    def __repr__(self) -> str:
        return f"<ext {self.name}>"


class EnumMember:
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls: Any, name: str, value: Any) -> None:
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self) -> str:
        return f"{self.cls.name}.{self.name}"


class BuiltinCls:
    """A Python builtin class (exceptions, int, list, ...)."""

    _pool: dict[type, "BuiltinCls"] = {}

    def __new__(cls, t: type) -> "BuiltinCls":
        e = cls._pool.get(t)
        if e is None:
            e = object.__new__(cls)
            e.t = t
            e.name = t.__name__
            cls._pool[t] = e
        return e

    def __repr__(self) -> str:
        return f"<builtin {self.name}>"


class FStr:
    """A string with symbolic holes: parts are str or (value, format_spec)."""

    __slots__ = ("parts",)

    def __init__(self, parts: list) -> None:
        out: list = []
        for p in parts:
            if isinstance(p, FStr):
                for q in p.parts:
                    FStr._add(out, q)
            else:
                FStr._add(out, p)
        self.parts = tuple(out)

    @staticmethod
    def _add(out: list, q: Any) -> None:
        if isinstance(q, str):
            if not q:
                return
            if out and isinstance(out[-1], str):
                out[-1] += q
                return
        out.append(q)

    def simplify(self) -> Any:
        if all(isinstance(p, str) for p in self.parts):
            return "".join(self.parts)
        return self

    def __repr__(self) -> str:
        return "FStr(" + "".join(p if isinstance(p, str) else "{%s:%s}" % p for p in self.parts) + ")"


def fstr_eq(a: Any, b: Any) -> Any:
    pa = a.parts if isinstance(a, FStr) else ((a,) if a else ())
    pb = b.parts if isinstance(b, FStr) else ((b,) if b else ())
    if len(pa) == len(pb) and all(
        (isinstance(x, str) and isinstance(y, str) and x == y)
        or (not isinstance(x, str) and not isinstance(y, str) and x[1] == y[1])
        for x, y in zip(pa, pb)
    ):
        # Integer renderings contain no letters, '/', '_' or '.': with equal literal skeletons
        # that separate the holes the rendering is injective.
        conds = [py_eq(x[0], y[0]) for x, y in zip(pa, pb) if not isinstance(x, str)]
        for i in range(len(pa) - 1):
            if not isinstance(pa[i], str) and not isinstance(pa[i + 1], str):
                raise Unsupported("adjacent holes in a symbolic string")
        return simp(z_and(*conds))
    # Different skeletons.  Decide by the first / last literal when they clash.
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return False
    if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
        n = min(len(pa[-1]), len(pb[-1]))
        if pa[-1][-n:] != pb[-1][-n:]:
            return False
    # A literal with a letter that the hole (an integer) cannot produce.
    la = "".join(p for p in pa if isinstance(p, str))
    lb = "".join(p for p in pb if isinstance(p, str))
    strip = lambda s: "".join(c for c in s if not (c.isdigit() or c == "-"))
    if strip(la) != strip(lb):
        holes = [p for p in pa + pb if not isinstance(p, str)]
        if all(isinstance(h[0], int) or is_sym_int(h[0]) for h in holes):
            return False
    raise Unsupported(f"string comparison {a!r} == {b!r}")


class PathVal:
    """pathlib.Path: an opaque base plus components (str or FStr)."""

    __slots__ = ("base", "comps")

    def __init__(self, base: Any, comps: tuple) -> None:
        self.base, self.comps = base, comps

    def join(self, s: Any) -> "PathVal":
        return PathVal(self.base, self.comps + tuple(split_path(s)))

    def __repr__(self) -> str:
        return f"Path({self.base}/" + "/".join(map(repr, self.comps)) + ")"


def split_path(s: Any) -> list:
    parts = s.parts if isinstance(s, FStr) else (s,)
    comps: list[list] = [[]]
    for p in parts:
        if isinstance(p, str):
            pieces = p.split("/")
            comps[-1].append(pieces[0])
            for q in pieces[1:]:
                comps.append([q])
        else:
            comps[-1].append(p)
    out = []
    for c in comps:
        v = FStr(c).simplify()
        if v != "":
            out.append(v)
    return out


class Unbound:
    def __repr__(self) -> str:
        return "<unbound>"


UNBOUND = Unbound()


class Poison:
    """A value the havoc of a loop could not describe; reading it is unsupported."""

    def __init__(self, why: str) -> None:
        self.why = why

    def __repr__(self) -> str:
        return f"<poison {self.why}>"


class NotImpl:
    pass


class OptVal:
    """An optional number decided lazily: None iff ``isnone``, otherwise ``val``.

    While ``ctx.memo['opt-probe']`` is set (construction of the object under test) it passes as
    None, so that validation code does not fork; the unit assumes the validated conditions."""

    __slots__ = ("name", "isnone", "val")

    def __init__(self, name: str, isnone: Any, val: Any) -> None:
        self.name, self.isnone, self.val = name, isnone, val

    def none_p(self, it: Any) -> bool:
        if it.ctx.memo.get("opt-probe"):
            return True
        key = ("opt", id(self))
        d = it.ctx.memo.get(key)
        if d is None:
            d = it.ctx.memo[key] = it.ctx.branch(self.isnone)
        return d

    def resolve(self, it: Any) -> Any:
        return None if self.none_p(it) else self.val

    def binop(self, it: Any, op: str, other: Any, swapped: bool) -> Any:
        v = self.resolve(it)
        if v is None:
            raise it.exc(TypeError, "None operand")
        if isinstance(other, OptVal):
            other = other.resolve(it)
        if op == "Neg":
            return -v
        return it.b.arith(it, op, other, v) if swapped else it.b.arith(it, op, v, other)

    def compare(self, it: Any, op: str, other: Any, swapped: bool) -> Any:
        v = self.resolve(it)
        if isinstance(other, OptVal):
            other = other.resolve(it)
        if op in ("Eq", "NotEq"):
            r = py_eq(v, other)
            return r if op == "Eq" else ((not r) if isinstance(r, bool) else z_not(r))
        if v is None:
            raise it.exc(TypeError, "unorderable None")
        return it.b.order(it, op, other, v) if swapped else it.b.order(it, op, v, other)

    def truth(self, it: Any) -> Any:
        v = self.resolve(it)
        return False if v is None else it.truth(v)

    def __repr__(self) -> str:
        return f"<opt {self.name}>"


def opt_int(ctx: Path, name: str, lo: int | None = None) -> OptVal:
    n, v = ctx.bool(f"{name}_is_none"), ctx.int(name)
    if lo is not None:
        ctx.assume(v >= lo)
    o = OptVal(name, n, v)
    ctx.inputs[name] = lambda ev: None if ev(n) else ev(v)
    return o


# ----------------------------------------------------------------------------- sequences
class SymSeq:
    """An immutable symbolic sequence: length term and element function."""

    __slots__ = ("length", "get", "kind", "tag")

    def __init__(self, length: Any, get: Callable[[Any], Any], kind: Any = None, tag: Any = None):
        self.length, self.get, self.kind, self.tag = length, get, kind, tag


class PyList(HObj):
    def __init__(self, ctx: Path | None, items: Any) -> None:
        super().__init__(ctx)
        self.content: Any = items  # list or SymSeq

    @property
    def sym(self) -> bool:
        return isinstance(self.content, SymSeq)

    def set(self, ctx: Path, content: Any) -> None:
        ctx.log_write(self, "content")
        self.content = content

    def __repr__(self) -> str:
        return f"PyList({self.content if not self.sym else 'sym len=' + str(self.content.length)})"


class PyDict(HObj):
    """Dictionary with concrete hashable keys, or (``sym``) a SymMap."""

    def __init__(self, ctx: Path | None, items: dict) -> None:
        super().__init__(ctx)
        self.content: Any = dict(items)

    def set(self, ctx: Path, content: Any) -> None:
        ctx.log_write(self, "content")
        self.content = content

    def __repr__(self) -> str:
        return f"PyDict({self.content})"


class SymMap:
    __slots__ = ("has", "get", "kind", "keys")

    def __init__(self, has: Callable, get: Callable, kind: Any = None, keys: Any = None) -> None:
        self.has, self.get, self.kind = has, get, kind
        self.keys: Any = keys  # the keys in order (SymSeq), for iteration


class PySet(HObj):
    """A set: list of concrete/symbolic elements plus symbolic membership predicates."""

    def __init__(self, ctx: Path | None, items: list, preds: list | None = None) -> None:
        super().__init__(ctx)
        self.content = (list(items), list(preds or []))
        self.src: Any = None  # (content, sequence): the sequence whose elements these are

    def has(self, v: Any) -> Any:
        items, preds = self.content
        return simp(z_or(*[py_eq(v, x) for x in items], *[p(v) for p in preds]))

    def set(self, ctx: Path, items: list, preds: list) -> None:
        ctx.log_write(self, "content")
        self.content = (items, preds)


# ----------------------------------------------------------------------------- objects
class Obj(HObj):
    def __init__(self, ctx: Path | None, cls: Any, fields: dict | None = None) -> None:
        super().__init__(ctx)
        self.cls = cls
        self.fields: dict[str, Any] = dict(fields or {})
        self.closed = True

    def setf(self, ctx: Path, name: str, v: Any) -> None:
        ctx.log_write(self, name)
        self.fields[name] = v

    def __repr__(self) -> str:
        return f"<{getattr(self.cls, 'name', self.cls)}#{self.uid}>"


class Model(Obj):
    """An external or abstracted object.  Methods are ``m_<name>(ctx, *args, **kw)``."""

    clsname = "Model"

    def __init__(self, ctx: Path | None, cls: Any = None, **fields: Any) -> None:
        super().__init__(ctx, cls, fields)

    def find_method(self, name: str) -> Callable | None:
        return getattr(self, "m_" + name, None)

    def __repr__(self) -> str:
        return f"<{type(self).__name__}#{self.uid}>"


class Sink(Model):
    """Accepts every method call without effect (loggers)."""

    def find_method(self, name: str) -> Callable | None:
        return lambda ctx, *a, **k: None


class Entity:
    """An element of an abstract domain, identified by an integer term."""

    __slots__ = ("model", "id")

    def __init__(self, model: Any, id: Any) -> None:
        self.model, self.id = model, id

    def __repr__(self) -> str:
        return f"<entity {getattr(self.model, 'name', self.model)} {self.id}>"


# ----------------------------------------------------------------------------- helpers
def simp(v: Any) -> Any:
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def is_num(v: Any) -> bool:
    return isinstance(v, (bool, int, Fraction)) or isinstance(v, z3.ArithRef) or is_sym_bool(v)


def is_int_like(v: Any) -> bool:
    return (isinstance(v, int)) or is_sym_int(v) or is_sym_bool(v)


def py_eq(a: Any, b: Any) -> Any:
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported(f"comparison with {a if isinstance(a, Poison) else b}")
    if a is None or b is None:
        return False
    if isinstance(a, (EnumMember, Ext, BuiltinCls)) or isinstance(b, (EnumMember, Ext, BuiltinCls)):
        return False
    if isinstance(a, Entity) and hasattr(a.model, "eq"):
        r = a.model.eq(a, b)
        if r is not NotImplemented:
            return r
    if isinstance(b, Entity) and hasattr(b.model, "eq"):
        r = b.model.eq(b, a)
        if r is not NotImplemented:
            return r
    if isinstance(a, (str, FStr)) or isinstance(b, (str, FStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (str, FStr)) and isinstance(b, (str, FStr)):
            return fstr_eq(a, b)
        if isinstance(a, Entity) or isinstance(b, Entity):
            raise Unsupported("entity/string comparison")
        return False
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        return False
    if is_num(a) and is_num(b):
        if not is_z3(a) and not is_z3(b):
            return a == b
        if is_sym_bool(a) and (is_sym_bool(b) or isinstance(b, bool)) or (
            is_sym_bool(b) and isinstance(a, bool)
        ):
            return simp(z3.simplify(zbool(a) == zbool(b)))
        x, y = znum(a), znum(b)
        if x.sort() != y.sort():
            x, y = zreal(a), zreal(b)
        return simp(z3.simplify(x == y))
    if is_num(a) != is_num(b):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return simp(z_and(*[py_eq(x, y) for x, y in zip(a, b)]))
    if isinstance(a, PathVal) and isinstance(b, PathVal):
        if a.base != b.base or len(a.comps) != len(b.comps):
            if a.base == b.base:
                return False
            return False
        return simp(z_and(*[py_eq(x, y) for x, y in zip(a.comps, b.comps)]))
    if isinstance(a, Entity) and isinstance(b, Entity):
        if a.model is not b.model:
            return False
        return simp(z3.simplify(a.id == b.id))
    if isinstance(a, PyList) and isinstance(b, PyList):
        if not a.sym and not b.sym:
            if len(a.content) != len(b.content):
                return False
            return simp(z_and(*[py_eq(x, y) for x, y in zip(a.content, b.content)]))
        ca, cb = as_seq(a), as_seq(b)
        i = z3.Int("eq!i")
        return z_and(
            py_eq(ca.length, cb.length),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(ca.length)),
                                      zbool(py_eq(ca.get(i), cb.get(i))))),
        )
    if isinstance(a, (PyList, tuple)) and isinstance(b, (PyList, tuple)):
        return False
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if isinstance(a.content, dict) and isinstance(b.content, dict):
            if set(a.content) != set(b.content):
                return False
            return simp(z_and(*[py_eq(a.content[k], b.content[k]) for k in a.content]))
        raise Unsupported("symbolic dict comparison")
    if isinstance(a, Obj) and isinstance(b, Obj):
        if getattr(a.cls, "is_dataclass", False) and a.cls is b.cls:
            if set(a.fields) != set(b.fields):
                return False
            return simp(z_and(*[py_eq(a.fields[k], b.fields[k]) for k in a.fields]))
        return False
    if type(a) is not type(b):
        return False
    raise Unsupported(f"equality of {a!r} and {b!r}")


def items_to_seq(items: list) -> SymSeq:
    def get(i: Any) -> Any:
        i = z3.simplify(zint(i))
        if z3.is_int_value(i):
            n = i.as_long()
            if 0 <= n < len(items):
                return items[n]
            if not items:
                raise Unsupported("indexing an empty sequence")
            return items[-1]
        if not items:
            raise Unsupported("element of an empty sequence")
        out = items[-1]
        for n in range(len(items) - 2, -1, -1):
            out = merge(i == n, items[n], out)
        return out

    return SymSeq(len(items), get, kinds_join([kind_of(x) for x in items]))


def as_seq(v: Any) -> SymSeq:
    if isinstance(v, SymSeq):
        return v
    if isinstance(v, PyList):
        return v.content if v.sym else items_to_seq(v.content)
    if isinstance(v, (tuple, list)):
        return items_to_seq(list(v))
    raise Unsupported(f"not a sequence: {v!r}")


def merge(c: Any, a: Any, b: Any) -> Any:
    """if c then a else b"""
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (bool,)) and isinstance(b, bool) and a == b:
        return a
    if is_num(a) and is_num(b):
        ab = isinstance(a, bool) or is_sym_bool(a)
        bb = isinstance(b, bool) or is_sym_bool(b)
        if ab and bb:
            return z3.If(c, zbool(a), zbool(b))
        x, y = znum(a), znum(b)
        if x.sort() != y.sort():
            x, y = zreal(a), zreal(b)
        if x.eq(y):
            return a
        return z3.If(c, x, y)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Entity) and isinstance(b, Entity) and a.model is b.model:
        return Entity(a.model, z3.If(c, a.id, b.id))
    if isinstance(a, FStr) and isinstance(b, FStr) and len(a.parts) == len(b.parts):
        ps = []
        for x, y in zip(a.parts, b.parts):
            if isinstance(x, str) and isinstance(y, str) and x == y:
                ps.append(x)
            elif not isinstance(x, str) and not isinstance(y, str) and x[1] == y[1]:
                ps.append((merge(c, x[0], y[0]), x[1]))
            else:
                raise Unsupported(f"cannot merge {a!r} and {b!r}")
        return FStr(ps)
    if isinstance(a, PathVal) and isinstance(b, PathVal) and a.base == b.base and len(a.comps) == len(b.comps):
        return PathVal(a.base, tuple(merge(c, x, y) for x, y in zip(a.comps, b.comps)))
    if isinstance(a, (str,)) and a == b:
        return a
    if isinstance(a, PyList) and isinstance(b, PyList):
        sa, sb = as_seq(a), as_seq(b)
        return PyList(None, SymSeq(merge(c, sa.length, sb.length),
                                   lambda i: merge(c, sa.get(i), sb.get(i)), sa.kind))
    raise Unsupported(f"cannot merge {a!r} and {b!r}")


# ----------------------------------------------------------------------------- kinds
def kind_of(v: Any) -> Any:
    if v is UNBOUND:
        return ("unbound",)
    if isinstance(v, bool) or is_sym_bool(v):
        return ("bool",)
    if is_int_like(v):
        return ("int",)
    if isinstance(v, Fraction) or is_sym_real(v):
        return ("real",)
    if isinstance(v, z3.ArrayRef):
        return ("arr", v.sort())
    if v is None or isinstance(v, (str, EnumMember, Ext, BuiltinCls)):
        return ("const", v)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(kind_of(x) for x in v)
    if isinstance(v, Entity):
        return ("ent", v.model)
    if isinstance(v, PyList):
        return ("list", kind_content(v.content))
    if isinstance(v, HObj):
        return ("obj", v.uid)
    if isinstance(v, FStr):
        return ("fstr", tuple(p if isinstance(p, str) else ("hole", kind_of(p[0]), p[1]) for p in v.parts))
    if isinstance(v, PathVal):
        return ("path", v.base, tuple(kind_of(c) for c in v.comps))
    return ("other", type(v).__name__)


def kind_content(c: Any) -> Any:
    if isinstance(c, SymSeq):
        return ("seq", c.kind)
    if isinstance(c, list):
        return ("seq", kinds_join([kind_of(x) for x in c]))
    if isinstance(c, dict):
        return ("dict",)
    if isinstance(c, tuple):
        return ("set",)
    return ("other", type(c).__name__)


def kinds_join(ks: list) -> Any:
    ks = [k for k in ks if k is not None]
    if not ks:
        return None
    k0 = ks[0]
    if all(k == k0 for k in ks):
        return k0
    if all(k[0] in ("int", "real") for k in ks):
        return ("real",)
    return ("other", "mixed")


def sort_of_kind(k: Any) -> Any:
    return {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "ent": z3.IntSort()}[k[0]]


def fresh_of_kind(ctx: Path, k: Any, name: str) -> Any:
    t = k[0]
    if t == "int":
        return ctx.int(name)
    if t == "real":
        return ctx.real(name)
    if t == "bool":
        return ctx.bool(name)
    if t == "arr":
        return z3.Const(ctx.fresh_name(name), k[1])
    if t == "const":
        return k[1]
    if t == "tuple":
        return tuple(fresh_of_kind(ctx, x, f"{name}.{i}") for i, x in enumerate(k[1:]))
    if t == "ent":
        return k[1].fresh(ctx, name) if hasattr(k[1], "fresh") else Entity(k[1], ctx.int(name))
    if t == "list":
        return PyList(ctx, fresh_seq(ctx, k[1][1], name))
    if t == "fstr":
        return FStr([p if isinstance(p, str) else (fresh_of_kind(ctx, p[1], name), p[2]) for p in k[1]])
    if t == "path":
        return PathVal(k[1], tuple(fresh_of_kind(ctx, c, name) for c in k[2]))
    return Poison(f"{name}: {k}")


def fresh_getter(ctx: Path, k: Any, name: str) -> Callable[[Any], Any]:
    if k is None:
        # Nothing is known about the element kind: the sequence is empty.
        def get_none(i: Any) -> Any:
            raise Unsupported(f"element of sequence {name} of unknown kind")

        return get_none
    t = k[0]
    if t in ("int", "real", "bool"):
        f = ctx.func(name, z3.IntSort(), sort_of_kind(k))
        return lambda i: f(zint(i))
    if t == "ent":
        f = ctx.func(name, z3.IntSort(), z3.IntSort())
        return lambda i: Entity(k[1], f(zint(i)))
    if t == "const":
        return lambda i: k[1]
    if t == "tuple":
        gs = [fresh_getter(ctx, x, f"{name}.{j}") for j, x in enumerate(k[1:])]
        return lambda i: tuple(g(i) for g in gs)
    if t == "fstr":
        gs = [p if isinstance(p, str) else (fresh_getter(ctx, p[1], f"{name}.h{j}"), p[2])
              for j, p in enumerate(k[1])]
        return lambda i: FStr([g if isinstance(g, str) else (g[0](i), g[1]) for g in gs])
    if t == "path":
        gs = [fresh_getter(ctx, c, f"{name}.c{j}") for j, c in enumerate(k[2])]
        return lambda i: PathVal(k[1], tuple(g(i) for g in gs))
    if t == "list":
        raise Unsupported(f"sequence {name} of lists")
    raise Unsupported(f"sequence {name} of {k}")


def fresh_seq(ctx: Path, k: Any, name: str, length: Any = None) -> SymSeq:
    if length is None:
        length = ctx.int(f"len({name})")
        ctx.fact(length >= 0)
    if k is None:
        ctx.fact(zint(length) == 0)
    return SymSeq(length, fresh_getter(ctx, k, name), k)
