"""Symbolic torch tensors: symbolic shapes, contents as functions of the index, views that share storage.

The contracts of the torch operations below are trusted (assumed): they say, entry by entry, what the operation computes.
Operations without a contract here are unsupported, so a function that uses them is not decided."""
from __future__ import annotations

from fractions import Fraction
from typing import Any, Callable

import z3

from . import builtins_ as B
from .core import HObj, Unsupported, is_sym_bool, is_z3, z_and, z_not, z_or, zbool, zint, zreal
from .extlib import EXP, LOG, R
from .values import BuiltinCls, Ext, Model, PyList, SymSeq, is_int_like, is_num, py_eq

I, BS = z3.IntSort(), z3.BoolSort()
INF = float("inf")


# ----------------------------------------------------------------------------- cells
class XR:
    """A real number or minus infinity."""

    __slots__ = ("inf", "val")

    def __init__(self, inf: Any, val: Any) -> None:
        self.inf, self.val = inf, val

    def __repr__(self) -> str:
        return f"XR({self.inf}, {self.val})"


def xr(v: Any) -> XR:
    if isinstance(v, XR):
        return v
    if isinstance(v, float):
        if v == -INF:
            return XR(z3.BoolVal(True), z3.RealVal(0))
        raise Unsupported(f"cell {v}")
    return XR(z3.BoolVal(False), cell(v, "real"))


def cell(v: Any, kind: str) -> Any:
    """The value as a cell of the kind."""
    if kind == "xreal":
        return xr(v)
    if isinstance(v, XR):
        raise Unsupported("a possibly infinite value in a finite tensor")
    if isinstance(v, float):
        raise Unsupported("an infinite value in a finite tensor")
    isb = isinstance(v, bool) or is_sym_bool(v)
    if kind == "bool":
        return zbool(v) if isb else (z3.BoolVal(v != 0) if not is_z3(v) else v != 0)
    if kind == "int":
        if isb:
            return z3.If(zbool(v), z3.IntVal(1), z3.IntVal(0)) if is_z3(v) else z3.IntVal(int(v))
        if is_int_like(v):
            return zint(v)
        r = zreal(v)
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    if isb:
        return z3.If(zbool(v), z3.RealVal(1), z3.RealVal(0)) if is_z3(v) else z3.RealVal(int(v))
    return zreal(v)


def cell_ite(c: Any, a: Any, b: Any) -> Any:
    c = zbool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (XR, float)) or isinstance(b, (XR, float)):
        x, y = xr(a), xr(b)
        return XR(z3.If(c, zbool(x.inf), zbool(y.inf)), z3.If(c, x.val, y.val))
    return z3.If(c, a, b)


def cell_eq(a: Any, b: Any) -> Any:
    if isinstance(a, (XR, float)) or isinstance(b, (XR, float)):
        x, y = xr(a), xr(b)
        return z_and(zbool(x.inf) == zbool(y.inf), z_or(x.inf, x.val == y.val))
    return zbool(py_eq(a, b))


def join_kind(a: str, b: str) -> str:
    order = ("bool", "int", "real", "xreal")
    return order[max(order.index(a), order.index(b))]


def value_kind(v: Any) -> str:
    if isinstance(v, (XR, float)):
        return "xreal"
    if isinstance(v, bool) or is_sym_bool(v):
        return "bool"
    return "int" if is_int_like(v) else "real"


def dim(v: Any) -> Any:
    if isinstance(v, bool):
        return int(v)
    if is_z3(v):
        v = z3.simplify(v)
        return v.as_long() if z3.is_int_value(v) else v
    return v


def same(a: Any, b: Any) -> bool:
    """Syntactically the same number."""
    if is_z3(a) or is_z3(b):
        return zint(a).eq(zint(b)) or z3.simplify(zint(a) - zint(b)).eq(z3.IntVal(0))
    return a == b


def kind_of_dtype(dt: Any, default: str = "real") -> str:
    if dt is None:
        return default
    n = getattr(dt, "name", None)
    if isinstance(n, str):
        n = n.split(".")[-1]
        if n == "bool":
            return "bool"
        if n in ("int64", "int32", "int16", "int8", "long", "int", "uint8"):
            return "int"
        if n.startswith("float") or n in ("bfloat16", "half", "double"):
            return "real"
    if isinstance(dt, BuiltinCls):
        return {"bool": "bool", "int": "int", "float": "real"}.get(dt.t.__name__, default)
    return default


# ----------------------------------------------------------------------------- storage
class Storage(Model):
    def __init__(self, ctx: Any, ndim: int, kind: str, get: Callable) -> None:
        super().__init__(ctx, None)
        self.ndim, self.kind = ndim, kind
        self.fields["cells"] = get
        self.fields["version"] = 0

    def put(self, ctx: Any, get: Callable, kind: str) -> None:
        ctx.log_write(self, "cells")
        if kind != self.kind:
            old, k = self.fields["cells"], join_kind(self.kind, kind)
            self.kind = k
        self.fields["cells"] = get
        self.fields["version"] = object()

    def loc_kind(self, attr: str) -> Any:
        return ("ten", self.ndim, self.kind)

    def loc_get(self, attr: str) -> Any:
        return self.fields["cells"]

    def havoc_loc(self, ctx: Any, attr: str, name: str, kinds: list) -> None:
        k = "bool"
        for x in kinds:
            k = join_kind(k, x[2])
        self.put(ctx, arbitrary(ctx, name, self.ndim, k), k)


SORTS = {"int": I, "real": R, "bool": BS}


def arbitrary(ctx: Any, name: str, ndim: int, kind: str) -> Callable:
    """A content about which nothing is known."""
    if kind == "xreal":
        f, g = ctx.func(f"{name}.inf", *[I] * ndim, BS) if ndim else None, ctx.func(name, *[I] * ndim, R) if ndim else None
        if not ndim:
            b, v = ctx.bool(f"{name}.inf"), ctx.real(name)
            return lambda *i: XR(b, v)
        return lambda *i: XR(f(*[zint(x) for x in i]), g(*[zint(x) for x in i]))
    if not ndim:
        v = {"int": ctx.int, "real": ctx.real, "bool": ctx.bool}[kind](name)
        return lambda *i: v
    f = ctx.func(name, *[I] * ndim, SORTS[kind])
    return lambda *i: f(*[zint(x) for x in i])


# ----------------------------------------------------------------------------- tensors
class Tensor(Model):
    """shape: tuple of numbers; vmap: for every dimension of the storage ("fix", k) or ("ax", axis, offset)."""

    clsname = "Tensor"

    def __init__(self, ctx: Any, shape: tuple, store: Storage, vmap: list, dtype: Any = None, device: Any = None) -> None:
        super().__init__(ctx, None)
        self.shape = tuple(dim(s) for s in shape)
        self.store, self.vmap = store, vmap
        self.extra = {"store": store}
        self.dtype, self.device = dtype, device
        self.hits: Any = None
        self.stale_of: Any = None  # (storage, version): a copy that must not outlive a write

    # -- reading and writing
    @property
    def kind(self) -> str:
        return self.store.kind

    def reader(self) -> Callable:
        """The present content, as a function of the index; later writes do not change it."""
        if self.stale_of is not None and self.stale_of[0].fields["version"] is not self.stale_of[1]:
            raise Unsupported("a reshaped view after a write to its base")
        g, vmap, kind = self.store.fields["cells"], list(self.vmap), self.store.kind

        def get(*idx: Any) -> Any:
            v = g(*[zint(m[1]) if m[0] == "fix" else add(idx[m[1]], m[2]) for m in vmap])
            return cell(v, kind)

        return get

    def at(self, *idx: Any) -> Any:
        return self.reader()(*[zint(i) for i in idx])

    def write(self, ctx: Any, f: Callable, kind: str) -> None:
        """Entries of this view become f(index)."""
        if self.stale_of is not None:
            raise Unsupported("a write to a reshaped view")
        old, vmap, shape = self.store.fields["cells"], list(self.vmap), self.shape
        used = {m[1] for m in vmap if m[0] == "ax"}
        for a, n in enumerate(shape):
            if a not in used and not same(n, 1):
                raise Unsupported("a write to an expanded tensor")
        k = self.store.kind
        k2 = "xreal" if k in ("real", "xreal") and kind == "xreal" else k
        base = self.store.base_shape

        def get(*b: Any) -> Any:
            idx: list = [z3.IntVal(0)] * len(shape)
            conds = []
            for m, x, n in zip(vmap, b, base):
                x = zint(x)
                if m[0] == "fix":
                    conds.append(x == zint(m[1]))
                else:
                    idx[m[1]] = add(x, -m[2])
                    if not same(m[2], 0):
                        conds.append(x >= zint(m[2]))
                    if not (same(m[2], 0) and same(shape[m[1]], n)):
                        conds.append(x < zint(m[2]) + zint(shape[m[1]]))
            c = z3.simplify(zbool(z_and(*conds))) if conds else z3.BoolVal(True)
            if z3.is_true(c):
                return cell(f(*idx), k2)
            return cell_ite(c, cell(f(*idx), k2), cell(old(*b), k2))

        self.store.put(ctx, get, k2)

    def new(self, ctx: Any, shape: tuple, get: Callable, kind: str, dtype: Any = None) -> "Tensor":
        return make(ctx, shape, get, kind, dtype if dtype is not None else (self.dtype if kind == self.kind else None), self.device)

    def view_of(self, ctx: Any, shape: tuple, vmap: list) -> "Tensor":
        t = Tensor(ctx, shape, self.store, vmap, self.dtype, self.device)
        t.stale_of = self.stale_of
        return t

    # -- engine hooks
    def isinstance(self, it: Any, cls: Any) -> bool:
        return isinstance(cls, Ext) and cls.name.split(".")[-1] == "Tensor"

    def py_len(self, it: Any) -> Any:
        if not self.shape:
            raise it.exc(TypeError, "len() of a 0-d tensor")
        return self.shape[0]

    def truth(self, it: Any) -> Any:
        v = item(self)
        if isinstance(v, XR):
            return True
        return v if self.kind == "bool" else v != 0

    def to_int(self, it: Any) -> Any:
        return cell(item(self), "int")

    def to_float(self, it: Any) -> Any:
        return cell(item(self), "real")

    def iter_seq(self, it: Any) -> SymSeq:
        return SymSeq(self.shape[0], lambda i: select(it, self, 0, i), None)

    def binop(self, it: Any, op: str, other: Any, swapped: bool) -> Any:
        if op in ("Neg", "Invert"):
            g = self.reader()
            return self.new(it.ctx, self.shape, lambda *i: (z_not(g(*i)) if op == "Invert" else -g(*i)), self.kind)
        if not isinstance(other, Tensor) and not is_num(other) and not isinstance(other, float):
            return NotImplemented
        a, b = (other, self) if swapped else (self, other)
        return elementwise(it, op, a, b)

    def compare(self, it: Any, op: str, other: Any, swapped: bool) -> Any:
        if not isinstance(other, Tensor) and not is_num(other) and not isinstance(other, float):
            return NotImplemented
        a, b = (other, self) if swapped else (self, other)
        return elementwise(it, op, a, b)

    def inplace(self, it: Any, op: str, other: Any) -> Any:
        r = elementwise(it, op, self, other)
        assign(it, self, r)
        return self

    def getitem(self, it: Any, i: Any) -> Any:
        return index(it, self, i)

    def setitem(self, it: Any, i: Any, v: Any) -> None:
        set_index(it, self, i, v)

    def find_method(self, name: str) -> Any:
        return None

    def getattr(self, ctx: Any, name: str) -> Any:
        from .interp import Native

        if name == "shape":
            return self.shape
        if name == "ndim":
            return len(self.shape)
        if name in ("dtype", "device"):
            v = getattr(self, name)
            if v is None:
                raise Unsupported(f"{name} of a tensor")
            return v
        if name in ("T", "mT"):
            return permute(ctx, self, [1, 0] if name == "T" else list(range(len(self.shape) - 2)) + [len(self.shape) - 1, len(self.shape) - 2])
        f = METHODS.get(name)
        if f is not None:
            return Native(lambda it, a, k: f(it, self, *a, **k), name)
        raise Unsupported(f"tensor method {name}")


def add(a: Any, b: Any) -> Any:
    if not is_z3(b) and b == 0:
        return zint(a)
    return z3.simplify(zint(a) + zint(b))


def make(ctx: Any, shape: tuple, get: Callable, kind: str, dtype: Any = None, device: Any = None) -> Tensor:
    shape = tuple(dim(s) for s in shape)
    st = Storage(ctx, len(shape), kind, get)
    st.base_shape = shape
    return Tensor(ctx, shape, st, [("ax", a, 0) for a in range(len(shape))], dtype, device)


def symbolic(ctx: Any, name: str, shape: tuple, kind: str = "real", dtype: Any = None, device: Any = None) -> Tensor:
    return make(ctx, shape, arbitrary(ctx, name, len(shape), kind), kind, dtype, device)


def item(t: Tensor) -> Any:
    for n in t.shape:
        if not same(n, 1):
            raise Unsupported("a tensor of several elements as a number")
    return t.at(*[0] * len(t.shape))


# ----------------------------------------------------------------------------- elementwise
def broadcast(it: Any, shapes: list) -> tuple:
    """The common shape; sizes that turn out to be one become one in the given lists."""
    nd = max(len(s) for s in shapes)
    out: list = []
    for d in range(nd):
        cur: Any = 1
        for n, s in enumerate(shapes):
            j = d - (nd - len(s))
            if j < 0 or same(s[j], 1) or same(s[j], cur):
                continue
            if same(cur, 1):
                cur = s[j]
            elif it.ctx.branch(zint(s[j]) == zint(cur)):
                continue
            elif it.ctx.branch(zint(s[j]) == 1):
                s[j] = 1
            elif it.ctx.branch(zint(cur) == 1):
                for s2 in shapes[:n]:
                    j2 = d - (nd - len(s2))
                    if j2 >= 0:
                        s2[j2] = 1
                cur = s[j]
            else:
                raise it.exc(RuntimeError, "shape mismatch")
        out.append(cur)
    return tuple(out)


def spread(g: Callable, shape: tuple, nd: int) -> Callable:
    """The content g of the shape as a function of a broadcast index."""
    off = nd - len(shape)
    return lambda *i: g(*[z3.IntVal(0) if same(shape[j], 1) else i[off + j] for j in range(len(shape))])


def as_reader(v: Any) -> tuple[Callable, tuple, str]:
    if isinstance(v, Tensor):
        return v.reader(), v.shape, v.kind
    k = value_kind(v)
    if isinstance(v, float):
        return (lambda *i: v), (), "xreal"
    return (lambda *i: cell(v, k)), (), k


def elementwise(it: Any, op: str, a: Any, b: Any) -> Tensor:
    (ga, sa, ka), (gb, sb, kb) = as_reader(a), as_reader(b)
    t = a if isinstance(a, Tensor) else b
    sa, sb = list(sa), list(sb)
    shape = broadcast(it, [sa, sb])
    nd = len(shape)
    fa, fb = spread(ga, sa, nd), spread(gb, sb, nd)
    k = join_kind(ka, kb)
    if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
        def cmp(*i: Any) -> Any:
            x, y = fa(*i), fb(*i)
            if op in ("Eq", "NotEq"):
                r = cell_eq(x, y)
                return r if op == "Eq" else z3.Not(zbool(r))
            if k == "xreal":
                x, y = xr(x), xr(y)
                lt = z_and(z_not(y.inf), z_or(x.inf, x.val < y.val))
                gt = z_and(z_not(x.inf), z_or(y.inf, y.val < x.val))
                return {"Lt": lt, "Gt": gt, "LtE": z_not(gt), "GtE": z_not(lt)}[op]
            kk = "int" if k == "bool" else k
            x, y = cell(x, kk), cell(y, kk)
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
        return _hit(make(it.ctx, shape, cmp, "bool", None, t.device), a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if k != "bool":
            raise Unsupported("bitwise operation on numbers")
        f = {"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op]
        return _hit(make(it.ctx, shape, lambda *i: f(zbool(fa(*i)), zbool(fb(*i))), "bool", None, t.device), a, b)
    if op in ("FloorDiv", "Mod"):
        if isinstance(b, Tensor):
            raise Unsupported("division by a tensor")
        if it.ctx.branch(py_eq(b, 0)):
            raise it.exc(RuntimeError, "ZeroDivisionError")
        if k != "int":
            raise Unsupported("floor division of reals")
        fn = B.py_floordiv if op == "FloorDiv" else B.py_mod
        if it.ctx.memo.get("uf-mod") and is_z3(b):
            uf = B.uf_div if op == "FloorDiv" else B.uf_mod
            fn = lambda x, y: uf(it.ctx, x, y)
        return _hit(make(it.ctx, shape, lambda *i: fn(fa(*i), b), "int", t.dtype, t.device), a, b)
    if op == "Div":
        k = join_kind(k, "real")
    if op == "Pow":
        raise Unsupported("power of a tensor")
    if op in ("Add", "Sub", "Mult", "Div"):
        if k == "bool":
            k = "int"

        def ar(*i: Any) -> Any:
            x, y = cell(fa(*i), k), cell(fb(*i), k)
            if k == "xreal":
                if op == "Add":
                    return XR(z3.Or(zbool(x.inf), zbool(y.inf)), x.val + y.val)
                if op == "Sub" and kb != "xreal":
                    return XR(x.inf, x.val - y.val)
                raise Unsupported(f"{op} of infinite values")
            return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y}[op]()

        dt = None
        for v in (a, b):
            if isinstance(v, Tensor) and v.kind == k:
                dt = v.dtype
        return _hit(make(it.ctx, shape, ar, k, dt, t.device), a, b)
    raise Unsupported(f"{op} of tensors")


def _hit(r: Tensor, a: Any, b: Any) -> Tensor:
    for v in (a, b):
        if isinstance(v, Tensor) and v.hits is not None:
            r.hits = v.hits
    return r


def assign(it: Any, t: Tensor, v: Any) -> None:
    """t[...] = v, with v broadcast to the shape of t."""
    g, s, k = as_reader(v)
    if len(s) > len(t.shape):
        raise Unsupported("a value of more dimensions than its target")
    nd, s = len(t.shape), list(s)
    off = nd - len(s)
    for j, n in enumerate(s):
        if same(n, 1) or same(n, t.shape[off + j]):
            continue
        if not it.ctx.branch(zint(n) == zint(t.shape[off + j])):
            if it.ctx.branch(zint(n) == 1):
                s[j] = 1
                continue
            raise it.exc(RuntimeError, "shape mismatch")
    t.write(it.ctx, spread(g, s, nd), k)


# ----------------------------------------------------------------------------- indexing
def select(it: Any, t: Tensor, axis: int, k: Any) -> Tensor:
    vmap = []
    for m in t.vmap:
        if m[0] == "ax" and m[1] == axis:
            vmap.append(("fix", add(k, m[2])))
        elif m[0] == "ax" and m[1] > axis:
            vmap.append(("ax", m[1] - 1, m[2]))
        else:
            vmap.append(m)
    return t.view_of(it.ctx, t.shape[:axis] + t.shape[axis + 1:], vmap)


def narrow(it: Any, t: Tensor, axis: int, lo: Any, hi: Any) -> Tensor:
    vmap = [("ax", m[1], dim(add(m[2], lo)) if not same(lo, 0) else m[2]) if m[0] == "ax" and m[1] == axis else m for m in t.vmap]
    shape = list(t.shape)
    shape[axis] = dim(z3.simplify(zint(hi) - zint(lo)))
    return t.view_of(it.ctx, tuple(shape), vmap)


def insert_axis(it: Any, t: Tensor, axis: int) -> Tensor:
    vmap = [("ax", m[1] + 1, m[2]) if m[0] == "ax" and m[1] >= axis else m for m in t.vmap]
    return t.view_of(it.ctx, t.shape[:axis] + (1,) + t.shape[axis:], vmap)


def norm_axis(t: Tensor, d: int, extra: int = 0) -> int:
    if not isinstance(d, int):
        raise Unsupported("symbolic dimension number")
    n = len(t.shape) + extra
    if not -n <= d < max(n, 1):
        raise Unsupported("dimension out of range")
    return d % n if n else 0


def bounded(it: Any, i: Any, n: Any) -> Any:
    """A valid index into n entries (negative ones count from the end)."""
    z, zn = zint(i), zint(n)
    if isinstance(i, int):
        j = i if i >= 0 else dim(zn + i)
    else:
        neg = it.ctx.branch(z < 0)
        j = dim(z + zn) if neg else dim(z)
    if not it.ctx.branch(z_and(zint(j) >= 0, zint(j) < zn)):
        raise it.exc(IndexError, "index out of range")
    return j


def split_index(it: Any, t: Tensor, i: Any) -> list:
    """The index as a list of ("new",) / ("int", k) / ("slice", lo, hi) / ("ten", tensor)."""
    from .interp import SliceVal

    items = list(i) if isinstance(i, tuple) else [i]
    used = sum(1 if not isinstance(x, Tensor) else (len(x.shape) if x.kind == "bool" else 1)
               for x in items if x is not None and not (isinstance(x, Ext) and x.name.endswith("Ellipsis")))
    if used > len(t.shape):
        raise it.exc(IndexError, "too many indices")
    out: list = []
    pos = 0
    ell = [n for n, x in enumerate(items) if isinstance(x, Ext) and x.name.endswith("Ellipsis")]
    if not ell:
        items.append(Ext("builtins.Ellipsis"))
    for x in items:
        if x is None:
            out.append(("new",))
        elif isinstance(x, Ext) and x.name.endswith("Ellipsis"):
            for _ in range(len(t.shape) - used):
                out.append(("slice", 0, t.shape[pos]))
                pos += 1
        elif isinstance(x, SliceVal):
            if x.step is not None and x.step != 1:
                raise Unsupported("a step in a tensor slice")
            if x.lo is None and x.hi is None:
                out.append(("slice", 0, t.shape[pos]))
            else:
                lo, hi = B.slice_bounds(it, x, t.shape[pos])
                out.append(("slice", dim(lo), dim(hi)))
            pos += 1
        elif isinstance(x, Tensor):
            if x.kind not in ("bool", "int"):
                raise it.exc(IndexError, "tensors used as indices must be integers or booleans")
            out.append(("ten", x, pos))
            pos += len(x.shape) if x.kind == "bool" else 1
        elif isinstance(x, PyList):
            out.append(("ten", tensor_of(it, x), pos))
            pos += 1
        elif is_int_like(x) and not isinstance(x, bool):
            out.append(("int", bounded(it, x, t.shape[pos])))
            pos += 1
        else:
            raise Unsupported(f"tensor index {x!r}")
    return out


def basic_view(it: Any, t: Tensor, parts: list) -> Tensor:
    a = 0
    for p in parts:
        if p[0] == "int":
            t = select(it, t, a, p[1])
        elif p[0] == "slice":
            if not (same(p[1], 0) and same(p[2], t.shape[a])):
                t = narrow(it, t, a, p[1], p[2])
            a += 1
        elif p[0] == "new":
            t = insert_axis(it, t, a)
            a += 1
    return t


def index(it: Any, t: Tensor, i: Any) -> Any:
    parts = split_index(it, t, i)
    tens = [p for p in parts if p[0] == "ten"]
    if not tens:
        return basic_view(it, t, parts)
    # apply the basic part first; a tensor index stays a full axis there
    t2, axes = advanced_base(it, t, parts)
    g, ctx = t2.reader(), it.ctx
    if len(tens) == 1 and tens[0][1].kind == "bool":
        return masked_select(it, t2, axes[0], tens[0][1])
    if any(x[1].kind == "bool" for x in tens):
        raise Unsupported("mixed mask and integer indices")
    shs = [list(x[1].shape) for x in tens]
    shape = broadcast(it, shs)
    if any(b - a != 1 for a, b in zip(axes, axes[1:])):
        raise Unsupported("separated index tensors")
    a0, nd = axes[0], len(shape)
    fs = []
    for x, a, sh in zip(tens, axes, shs):
        fs.append((a, spread(in_range(it, x[1], t2.shape[a]), sh, nd)))
    out_shape = t2.shape[:a0] + shape + t2.shape[axes[-1] + 1:]

    def get(*idx: Any) -> Any:
        adv = idx[a0:a0 + nd]
        return g(*idx[:a0], *[f(*adv) for _, f in fs], *idx[a0 + nd:])

    r = make(ctx, out_shape, get, t2.kind, t2.dtype, t2.device)
    if nd == len(out_shape) == 1:
        for x in tens:
            if x[1].hits is not None:
                r.hits = x[1].hits
    return r


def in_range(it: Any, x: Tensor, n: Any) -> Callable:
    """The entries of an index tensor, which must be valid indices."""
    g = x.reader()
    q = [z3.Int(f"ix!{j}") for j in range(len(x.shape))]
    dom = [z3.And(v >= 0, v < zint(s)) for v, s in zip(q, x.shape)]
    ok = z3.ForAll(q, z3.Implies(z3.And(*dom), z3.And(g(*q) >= -zint(n), g(*q) < zint(n)))) if q else \
        z3.And(g() >= -zint(n), g() < zint(n))
    neg = z3.ForAll(q, z3.Implies(z3.And(*dom), g(*q) >= 0)) if q else g() >= 0
    if not it.ctx.memo.get("valid-indices"):
        if not it.ctx.is_valid(ok):
            raise Unsupported("index tensor entries that may be out of range")
    if it.ctx.memo.get("valid-indices") or it.ctx.is_valid(neg):
        return g
    return lambda *i: z3.If(g(*i) < 0, g(*i) + zint(n), g(*i))


def advanced_base(it: Any, t: Tensor, parts: list) -> tuple[Tensor, list]:
    basic, axes, a = [], [], 0
    for p in parts:
        if p[0] == "ten":
            axes.append(a)
            n = len(p[1].shape) if p[1].kind == "bool" else 1
            for d in range(n):
                basic.append(("slice", 0, t.shape[p[2] + d]))
            a += n
        else:
            basic.append(p)
            a += 0 if p[0] == "int" else 1
    return basic_view(it, t, basic), axes


class Hits:
    """The positions where a mask holds, in order: n of them, the j-th at pos[a](j) on axis a."""

    def __init__(self, it: Any, mask: Tensor) -> None:
        ctx = it.ctx
        self.g, self.shape = mask.reader(), mask.shape
        self.n = ctx.int("hits", lo=0)
        self.pos = [ctx.func(f"hit{a}", I, I) for a in range(len(mask.shape))]
        nth = ctx.func("nth", *[I] * len(mask.shape), I)
        j = z3.Int("hj")
        here = [p(j) for p in self.pos]
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(
            *[z3.And(h >= 0, h < zint(s)) for h, s in zip(here, self.shape)], zbool(self.g(*here)))), patterns=[self.pos[0](j)]))
        q = [z3.Int(f"hq{a}") for a in range(len(mask.shape))]
        m = nth(*q)
        ctx.fact(z3.ForAll(q, z3.Implies(z3.And(*[z3.And(v >= 0, v < zint(s)) for v, s in zip(q, self.shape)], zbool(self.g(*q))),
                                         z3.And(m >= 0, m < self.n, *[p(m) == v for p, v in zip(self.pos, q)])), patterns=[m]))
        self.nth = nth
        for f in ctx.memo.get("on-hits", ()):
            f(self)

    def within(self, q: list) -> Any:
        return z_and(*[z3.And(v >= 0, v < zint(s)) for v, s in zip(q, self.shape)], zbool(self.g(*q)))


def hits_in(it: Any, mask: Tensor) -> Hits:
    """The same positions for the same mask."""
    memo = it.ctx.memo.setdefault("hits-of", {})
    v = mask.store.fields["cells"]
    key = (id(mask.store), id(v), str(mask.vmap), str(mask.shape))
    if key not in memo:
        memo[key] = (Hits(it, mask), mask.store, v)
    return memo[key][0]


def hits_of(it: Any, mask: Tensor) -> list[Tensor]:
    h = Hits(it, mask)
    out = []
    for a in range(len(mask.shape)):
        t = make(it.ctx, (h.n,), lambda j, a=a: h.pos[a](zint(j)), "int", None, mask.device)
        t.hits = h
        out.append(t)
    return out


def masked_select(it: Any, t: Tensor, axis: int, mask: Tensor) -> Tensor:
    """t[:, mask]: the entries along the axes of the mask where it holds."""
    m = len(mask.shape)
    for d in range(m):
        if not same(mask.shape[d], t.shape[axis + d]) and not it.ctx.is_valid(zint(mask.shape[d]) == zint(t.shape[axis + d])):
            raise Unsupported("a mask of another shape")
    h = hits_in(it, mask)
    g = t.reader()

    def get(*idx: Any) -> Any:
        return g(*idx[:axis], *[p(zint(idx[axis])) for p in h.pos], *idx[axis + 1:])

    r = make(it.ctx, t.shape[:axis] + (h.n,) + t.shape[axis + m:], get, t.kind, t.dtype, t.device)
    r.hits = h if axis == 0 and len(r.shape) == 1 else None
    r.src = (mask, g) if axis == 0 else None
    return r


def set_index(it: Any, t: Tensor, i: Any, v: Any) -> None:
    parts = split_index(it, t, i)
    tens = [p for p in parts if p[0] == "ten"]
    if not tens:
        assign(it, basic_view(it, t, parts), v)
        return
    t2, axes = advanced_base(it, t, parts)
    ctx = it.ctx
    if len(tens) == 1 and tens[0][1].kind == "bool":
        m = tens[0][1]
        if isinstance(v, Tensor) and v.shape and getattr(v, "src", None) is not None and axes[0] == 0:
            # t[mask] = u[mask]
            same_mask(it, m, v.src[0])
            gm, gv, old, n = m.reader(), v.src[1], t2.reader(), len(m.shape)
            t2.write(ctx, lambda *x: cell_ite(zbool(gm(*x[:n])), cell(gv(*x), t2.kind), cell(old(*x), t2.kind)), v.kind)
            return
        if isinstance(v, Tensor) and v.shape:
            raise Unsupported("a tensor assigned through a mask")
        gm, gv, old, a, n = m.reader(), as_reader(v)[0], t2.reader(), axes[0], len(m.shape)
        for d in range(n):
            if not same(m.shape[d], t2.shape[a + d]) and not ctx.is_valid(zint(m.shape[d]) == zint(t2.shape[a + d])):
                raise Unsupported("a mask of another shape")
        k = join_kind(t2.kind, as_reader(v)[2]) if t2.kind in ("real", "xreal") else t2.kind
        t2.write(ctx, lambda *x: cell_ite(gm(*x[a:a + n]), cell(gv(), k), cell(old(*x), k)), as_reader(v)[2])
        return
    if isinstance(v, Tensor) and v.shape:
        raise Unsupported("a tensor assigned through index tensors")
    # integer index tensors (one mask among them stands for its hits): entries that some index position addresses
    fs: list = []  # (axis, function of the position)
    shapes: list = []
    hit: Any = None
    for p, a in zip(tens, axes):
        x = p[1]
        if x.kind == "bool":
            if len(x.shape) != 1:
                raise Unsupported("a mask of several axes among index tensors")
            h = Hits(it, x)
            shapes.append((h.n,))
            fs.append((a, lambda j, h=h: h.pos[0](zint(j)), (h.n,), h, x))
        else:
            shapes.append(x.shape)
            fs.append((a, in_range(it, x, t2.shape[a]), x.shape, x.hits, x))
    masks = [f for f in fs if f[4].kind == "bool"]
    if masks:
        # the other index tensors select with the same mask: t[mask, x[mask, k]]
        for f in fs:
            if f[4].kind != "bool":
                src = getattr(f[4], "src", None)
                if src is None:
                    raise Unsupported("a mask next to an unrelated index tensor")
                same_mask(it, masks[0][4], src[0])
        m = masks[0][4]
        gm = m.reader()
        q = [z3.Int("sq")]
        dom = z3.And(q[0] >= 0, q[0] < zint(m.shape[0]), zbool(gm(q[0])))
        vals = [(f[0], q[0] if f[4].kind == "bool" else f[4].src[1](q[0])) for f in fs]
        exists(it, t2, q, dom, vals, v)
        return
    hs = {id(f[3]): f[3] for f in fs if f[3] is not None}
    if len(hs) == 1 and all(f[3] is not None for f in fs):
        h = list(hs.values())[0]
        q = [z3.Int(f"sq{a}") for a in range(len(h.shape))]
        # in terms of the mask's own positions
        j = h.nth(*q)
        vals = []
        for a, f, *_ in fs:
            e = zint(f(j))
            e = z3.substitute(e, *[(p(j), qa) for p, qa in zip(h.pos, q)])
            vals.append((a, e))
        exists(it, t2, q, h.within(q), vals, v)
        return
    shapes = [list(x) for x in shapes]
    shape = broadcast(it, shapes)
    q = [z3.Int(f"sq{a}") for a in range(len(shape))]
    dom = z_and(*[z3.And(x >= 0, x < zint(n)) for x, n in zip(q, shape)])
    exists(it, t2, q, dom, [(f[0], spread(f[1], sh, len(shape))(*q)) for f, sh in zip(fs, shapes)], v)


def same_mask(it: Any, a: Tensor, b: Tensor) -> None:
    if a is b and a.store.fields["version"] is b.store.fields["version"]:
        return
    raise Unsupported("two different masks")


def exists(it: Any, t: Tensor, q: list, dom: Any, vals: list, v: Any) -> None:
    """t[x] = v wherever some q in dom has vals equal to x on their axes."""
    old, (gv, _, kv) = t.reader(), as_reader(v)
    k = join_kind(t.kind, kv) if t.kind in ("real", "xreal") else t.kind

    def get(*x: Any) -> Any:
        eqs = [e == zint(x[a]) for a, e in vals]
        # a position that is fixed by an equation needs no quantifier
        sub, rest, left = [], [], list(q)
        for a, e in vals:
            if any(e.eq(w) for w in left):
                sub.append((e, zint(x[a])))
                left = [w for w in left if not w.eq(e)]
            else:
                rest.append(e == zint(x[a]))
        body = z3.substitute(z3.And(zbool(dom), *rest), *sub) if sub else z3.And(zbool(dom), *rest)
        c = z3.Exists(left, body) if left else body
        return cell_ite(c, cell(gv(), k), cell(old(*x), k))

    t.write(it.ctx, get, kv)


# ----------------------------------------------------------------------------- methods and functions
METHODS: dict[str, Callable] = {}


def method(*names: str) -> Callable:
    def deco(f: Callable) -> Callable:
        for n in names:
            METHODS[n] = f
        return f

    return deco


def sizes(it: Any, a: tuple) -> tuple:
    if len(a) == 1 and isinstance(a[0], (tuple, PyList)):
        r = it.concrete_items(a[0])
        if r is None:
            raise Unsupported("a shape of unknown rank")
        a = tuple(r)
    for s in a:
        if not is_int_like(s):
            raise it.exc(TypeError, "shape")
    return tuple(a)


def nonneg(it: Any, shape: tuple) -> tuple:
    for s in shape:
        if it.ctx.branch(zint(s) < 0):
            raise it.exc(RuntimeError, "negative dimension")
    return shape


@method("size")
def m_size(it: Any, t: Tensor, dim: Any = None) -> Any:
    return t.shape if dim is None else t.shape[norm_axis(t, dim)]


@method("dim")
def m_dim(it: Any, t: Tensor) -> Any:
    return len(t.shape)


@method("numel", "nelement")
def m_numel(it: Any, t: Tensor) -> Any:
    r: Any = 1
    for s in t.shape:
        r = B.arith(it, "Mult", r, s)
    return r


@method("clone", "contiguous")
def m_clone(it: Any, t: Tensor, **kw: Any) -> Any:
    r = make(it.ctx, t.shape, t.reader(), t.kind, t.dtype, t.device)
    r.hits = t.hits
    return r


@method("to", "cpu", "cuda", "type_as")
def m_to(it: Any, t: Tensor, *a: Any, **kw: Any) -> Any:
    dt, dev = kw.get("dtype"), kw.get("device", t.device)
    for x in a:
        if isinstance(x, Tensor):
            dt, dev = x.dtype, x.device
        elif isinstance(x, (Ext, BuiltinCls)) or getattr(x, "is_dtype", False):
            dt = x
        elif isinstance(x, Model):
            dev = x
    k = kind_of_dtype(dt, "real" if dt is not None else t.kind)
    if t.kind == "xreal" and k == "real":
        k = "xreal"
    g = t.reader()
    r = make(it.ctx, t.shape, lambda *i: cell(g(*i), k), k, dt if dt is not None else t.dtype, dev)
    r.hits = t.hits
    return r


for _n, _d in (("float", "torch.float32"), ("long", "torch.int64"), ("int", "torch.int32"), ("bool", "torch.bool"), ("double", "torch.float64")):
    METHODS[_n] = lambda it, t, _d=_d: m_to(it, t, Ext(_d))


@method("unsqueeze")
def m_unsqueeze(it: Any, t: Tensor, dim: Any) -> Any:
    return insert_axis(it, t, norm_axis(t, dim, 1))


@method("squeeze")
def m_squeeze(it: Any, t: Tensor, dim: Any) -> Any:
    a = norm_axis(t, dim)
    if same(t.shape[a], 1):
        return select(it, t, a, 0)
    if it.ctx.branch(zint(t.shape[a]) == 1):
        return select(it, t, a, 0)
    return t


@method("squeeze_")
def m_squeeze_(it: Any, t: Tensor, dim: Any) -> Any:
    u = METHODS["squeeze"](it, t, dim)
    t.shape, t.vmap = u.shape, u.vmap
    return t


@method("unsqueeze_")
def m_unsqueeze_(it: Any, t: Tensor, dim: Any) -> Any:
    u = METHODS["unsqueeze"](it, t, dim)
    t.shape, t.vmap = u.shape, u.vmap
    return t


@method("expand")
def m_expand(it: Any, t: Tensor, *a: Any) -> Any:
    s = sizes(it, a)
    off = len(s) - len(t.shape)
    if off < 0:
        raise it.exc(RuntimeError, "expand")
    vmap = [("ax", m[1] + off, m[2]) if m[0] == "ax" else m for m in t.vmap]
    shape: list = []
    for d, n in enumerate(s):
        if d < off:
            shape.append(n)
            continue
        cur = t.shape[d - off]
        if isinstance(n, int) and n == -1:
            shape.append(cur)
        elif same(n, cur):
            shape.append(cur)
        elif same(cur, 1):
            shape.append(n)
            vmap = [("fix", m[2]) if m[0] == "ax" and m[1] == d else m for m in vmap]
        elif it.ctx.branch(zint(n) == zint(cur)):
            shape.append(cur)
        else:
            raise it.exc(RuntimeError, "expand")
    r = t.view_of(it.ctx, tuple(shape), vmap)
    r.expanded = True
    return r


@method("repeat")
def m_repeat(it: Any, t: Tensor, *a: Any) -> Any:
    s = sizes(it, a)
    old = len(s) - len(t.shape)
    if old < 0 or any(not same(x, 1) for x in s[old:]):
        raise Unsupported("repeat along an existing dimension")
    g = t.reader()
    return t.new(it.ctx, tuple(nonneg(it, tuple(s[:old]))) + t.shape, lambda *i: g(*i[old:]), t.kind)


def permute(ctx: Any, t: Tensor, order: list) -> Tensor:
    inv = {o: n for n, o in enumerate(order)}
    return t.view_of(ctx, tuple(t.shape[o] for o in order), [("ax", inv[m[1]], m[2]) if m[0] == "ax" else m for m in t.vmap])


@method("transpose")
def m_transpose(it: Any, t: Tensor, a: Any, b: Any) -> Any:
    a, b = norm_axis(t, a), norm_axis(t, b)
    order = list(range(len(t.shape)))
    order[a], order[b] = order[b], order[a]
    return permute(it.ctx, t, order)


@method("permute")
def m_permute(it: Any, t: Tensor, *a: Any) -> Any:
    return permute(it.ctx, t, [norm_axis(t, d) for d in sizes(it, a)])


@method("item")
def m_item(it: Any, t: Tensor) -> Any:
    return item(t)


@method("tolist")
def m_tolist(it: Any, t: Tensor) -> Any:
    g = t.reader()
    if len(t.shape) == 2:
        return PyList(it.ctx, SymSeq(t.shape[0], lambda i: PyList(it.ctx, SymSeq(t.shape[1], lambda j: g(zint(i), zint(j)), (t.kind,))), None))
    if len(t.shape) != 1:
        raise Unsupported("tolist of a scalar or a tensor of rank 3")
    return PyList(it.ctx, SymSeq(t.shape[0], lambda i: g(zint(i)), (t.kind,)))


@method("fill_")
def m_fill(it: Any, t: Tensor, value: Any) -> Any:
    assign(it, t, value)
    return t


@method("zero_")
def m_zero(it: Any, t: Tensor) -> Any:
    assign(it, t, 0)
    return t


@method("copy_")
def m_copy(it: Any, t: Tensor, src: Any, **kw: Any) -> Any:
    assign(it, t, src)
    return t


@method("logical_not_")
def m_lnot_(it: Any, t: Tensor) -> Any:
    assign(it, t, m_lnot(it, t))
    return t


@method("logical_not")
def m_lnot(it: Any, t: Tensor) -> Any:
    g = t.reader()
    return make(it.ctx, t.shape, lambda *i: z3.Not(zbool(cell(g(*i), "bool"))), "bool", None, t.device)


for _n, _o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("add", "Add"), ("sub", "Sub"),
               ("mul", "Mult"), ("div", "Div"), ("logical_and", "BitAnd"), ("logical_or", "BitOr")):
    METHODS[_n] = lambda it, t, o, _o=_o: elementwise(it, _o, t, o)
for _n, _o in (("add_", "Add"), ("sub_", "Sub"), ("mul_", "Mult"), ("div_", "Div"), ("logical_and_", "BitAnd"), ("logical_or_", "BitOr")):
    METHODS[_n] = lambda it, t, o, _o=_o: t.inplace(it, _o, o)


@method("masked_fill")
def m_masked_fill(it: Any, t: Tensor, mask: Any, value: Any) -> Any:
    r = m_clone(it, t)
    return m_masked_fill_(it, r, mask, value)


@method("masked_fill_")
def m_masked_fill_(it: Any, t: Tensor, mask: Tensor, value: Any) -> Any:
    shape = broadcast(it, [t.shape, mask.shape])
    if len(shape) != len(t.shape):
        raise it.exc(RuntimeError, "masked_fill")
    gm, (gv, sv, kv), old = spread(mask.reader(), mask.shape, len(shape)), as_reader(value), t.reader()
    if sv:
        raise Unsupported("masked_fill with a tensor")
    k = join_kind(t.kind, kv) if t.kind in ("real", "xreal") else t.kind
    t.write(it.ctx, lambda *i: cell_ite(zbool(gm(*i)), cell(gv(), k), cell(old(*i), k)), kv)
    return t


def triangle(upper: bool) -> Callable:
    def f(it: Any, t: Tensor, diagonal: Any = 0) -> Any:
        old, k = t.reader(), t.kind
        nd = len(t.shape)

        def get(*i: Any) -> Any:
            r, c = zint(i[nd - 2]), zint(i[nd - 1])
            keep = c - r >= zint(diagonal) if upper else c - r <= zint(diagonal)
            return cell_ite(keep, cell(old(*i), k), cell(0, k))

        t.write(it.ctx, get, k)
        return t

    return f


METHODS["tril_"], METHODS["triu_"] = triangle(False), triangle(True)
METHODS["tril"] = lambda it, t, *a, **k: METHODS["tril_"](it, m_clone(it, t), *a, **k)
METHODS["triu"] = lambda it, t, *a, **k: METHODS["triu_"](it, m_clone(it, t), *a, **k)


@method("log_")
def m_log_(it: Any, t: Tensor) -> Any:
    old = t.reader()
    it.ctx.fact(LOG(z3.RealVal(1)) == 0)
    t.write(it.ctx, lambda *i: XR(zreal(old(*i)) == 0, LOG(zreal(old(*i)))), "xreal")
    return t


@method("log")
def m_log(it: Any, t: Tensor) -> Any:
    return m_log_(it, m_clone(it, t))


def new_like(value: Any) -> Callable:
    def f(it: Any, t: Tensor, *a: Any, **kw: Any) -> Any:
        if value is not None:
            s = sizes(it, a)
            v = value
        else:
            s, v = sizes(it, (a[0],)) if isinstance(a[0], (tuple, PyList)) else a[:-1], a[-1]
        dt = kw.get("dtype", t.dtype)
        k = kind_of_dtype(kw.get("dtype"), "real" if t.kind == "xreal" else t.kind)
        return full(it, nonneg(it, s), v, k, dt, kw.get("device", t.device))

    return f


METHODS["new_zeros"], METHODS["new_ones"], METHODS["new_full"] = new_like(0), new_like(1), new_like(None)


@method("new_empty")
def m_new_empty(it: Any, t: Tensor, *a: Any, **kw: Any) -> Any:
    s = nonneg(it, sizes(it, a))
    k = kind_of_dtype(kw.get("dtype"), "real" if t.kind == "xreal" else t.kind)
    return symbolic(it.ctx, "uninit", s, k, kw.get("dtype", t.dtype), kw.get("device", t.device))


@method("index_select")
def m_index_select(it: Any, t: Tensor, dim: Any, index: Tensor) -> Any:
    a = norm_axis(t, dim)
    g, f = t.reader(), in_range(it, index, t.shape[a])
    return make(it.ctx, t.shape[:a] + (index.shape[0],) + t.shape[a + 1:], lambda *i: g(*i[:a], f(i[a]), *i[a + 1:]), t.kind, t.dtype, t.device)


@method("roll")
def m_roll(it: Any, t: Tensor, shifts: Any, dims: Any = None) -> Any:
    if isinstance(shifts, tuple):
        if len(shifts) != 1:
            raise Unsupported("roll over several dimensions")
        shifts, dims = shifts[0], dims[0]
    if dims is None:
        raise Unsupported("roll of the flattened tensor")
    a = norm_axis(t, dims)
    g, n = t.reader(), zint(t.shape[a])
    s = zint(shifts)

    def get(*i: Any) -> Any:
        x = zint(i[a])
        # (x - s) mod n, without a modulo for |s| <= n
        small = z3.And(s <= n, s >= -n)
        y = z3.If(small, z3.If(x - s < 0, x - s + n, z3.If(x - s >= n, x - s - n, x - s)), (x - s) % n)
        return g(*i[:a], y, *i[a + 1:])

    return make(it.ctx, t.shape, get, t.kind, t.dtype, t.device)


@method("gather")
def m_gather(it: Any, t: Tensor, dim: Any, index: Tensor) -> Any:
    a = norm_axis(t, dim)
    g, f = t.reader(), in_range(it, index, t.shape[a])
    for d in range(len(t.shape)):
        if d != a and not same(index.shape[d], t.shape[d]) and not it.ctx.is_valid(zint(index.shape[d]) <= zint(t.shape[d])):
            raise Unsupported("gather over another shape")
    return make(it.ctx, index.shape, lambda *i: g(*i[:a], f(*i), *i[a + 1:]), t.kind, t.dtype, t.device)


def reduce_axis(it: Any, t: Tensor, dim: Any, keepdim: bool, kind: str, f: Callable) -> Tensor:
    """f(row, size) with row a function of the position on the axis."""
    a = norm_axis(t, dim)
    g, n = t.reader(), t.shape[a]
    shape = t.shape[:a] + ((1,) if keepdim else ()) + t.shape[a + 1:]

    def get(*i: Any) -> Any:
        i = tuple(i)
        rest = i[:a] + (i[a + 1:] if keepdim else i[a:])
        return f(lambda j: g(*rest[:a], j, *rest[a:]), n, rest)

    return make(it.ctx, shape, get, kind, None if kind != t.kind else t.dtype, t.device)


def quant(ex: bool) -> Callable:
    def f(it: Any, t: Tensor, dim: Any = None, keepdim: bool = False) -> Any:
        def red(row: Callable, n: Any, rest: tuple) -> Any:
            if isinstance(n, int) and n <= 4:
                vs = [zbool(cell(row(z3.IntVal(j)), "bool")) for j in range(n)]
                return (z3.Or if ex else z3.And)(*vs) if vs else z3.BoolVal(not ex)
            j = z3.Int(f"rj!{len(rest)}")
            b, c = zbool(cell(row(j), "bool")), z3.And(j >= 0, j < zint(n))
            return z3.Exists([j], z3.And(c, b)) if ex else z3.ForAll([j], z3.Implies(c, b))

        if dim is None:
            g = t.reader()
            q = [z3.Int(f"rj!{d}") for d in range(len(t.shape))]
            c = z3.And(*[z3.And(v >= 0, v < zint(s)) for v, s in zip(q, t.shape)]) if q else z3.BoolVal(True)
            b = zbool(cell(g(*q), "bool"))
            v = (b if not q else z3.Exists(q, z3.And(c, b)) if ex else z3.ForAll(q, z3.Implies(c, b)))
            return make(it.ctx, (), lambda: v, "bool", None, t.device)
        return reduce_axis(it, t, dim, keepdim, "bool", red)

    return f


METHODS["any"], METHODS["all"] = quant(True), quant(False)


@method("nonzero")
def m_nonzero(it: Any, t: Tensor, as_tuple: bool = False) -> Any:
    g = t.reader()
    mask = make(it.ctx, t.shape, lambda *i: zbool(cell(g(*i), "bool")), "bool", None, t.device)
    hs = hits_of(it, mask)
    if as_tuple:
        return tuple(hs)
    rs = [h.reader() for h in hs]

    def get(j: Any, a: Any) -> Any:
        out = rs[-1](j)
        for n in range(len(rs) - 2, -1, -1):
            out = z3.If(zint(a) == n, rs[n](j), out)
        return out

    return make(it.ctx, (hs[0].shape[0], len(hs)), get, "int", None, t.device)


# -- reductions to a number, abstractly
@method("sum")
def m_sum(it: Any, t: Tensor, dim: Any = None, keepdim: bool = False, dtype: Any = None) -> Any:
    fn = it.ctx.memo.get("sum")
    if fn is None:
        raise Unsupported("sum of a tensor")
    return fn(it, t, dim, keepdim)


def extremum(sign: int) -> Callable:
    def f(it: Any, t: Tensor, dim: Any = None) -> Any:
        if dim is not None or len(t.shape) != 1 or t.kind not in ("int", "real"):
            raise Unsupported("minimum or maximum along a dimension")
        if it.ctx.branch(zint(t.shape[0]) == 0):
            raise it.exc(RuntimeError, "minimum of no elements")
        ctx, g = it.ctx, t.reader()
        m, w = (ctx.int if t.kind == "int" else ctx.real)("extremum"), ctx.int("where")
        j = z3.Int("ej")
        ctx.fact(z3.And(w >= 0, w < zint(t.shape[0]), g(w) == m))
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(t.shape[0])), (m <= g(j)) if sign < 0 else (m >= g(j)))))
        return make(ctx, (), lambda: m, t.kind, t.dtype, t.device)

    return f


METHODS["min"], METHODS["max"] = extremum(-1), extremum(1)


@method("view", "reshape")
def m_view(it: Any, t: Tensor, *a: Any) -> Any:
    """Merging or splitting of adjacent dimensions, or the same shape."""
    s = list(sizes(it, a))
    if len(s) == len(t.shape) and all(same(x, y) or isinstance(x, int) and x == -1 for x, y in zip(s, t.shape)):
        return t.view_of(it.ctx, t.shape, t.vmap)
    if len(t.shape) == 2 and len(s) == 1 and it.ctx.memo.get("uf-mod"):
        # row by row: entry x is that of row x // m, column x % m
        ctx, n, m, g = it.ctx, zint(t.shape[0]), zint(t.shape[1]), t.reader()
        total = z3.simplify(n * m)
        if not same(s[0], -1) and not ctx.branch(zint(s[0]) == total):
            raise it.exc(RuntimeError, "shape is invalid for input")

        def at(x: Any) -> Any:
            q, r = B.uf_div(ctx, x, m), B.uf_mod(ctx, x, m)
            ctx.fact(z3.Implies(z3.And(x >= 0, x < total), z3.And(q >= 0, q < n, r >= 0, r < m)))
            return g(q, r)

        u = make(ctx, (total,), at, t.kind, t.dtype, t.device)
        u.stale_of = (t.store, t.store.fields["version"])
        return u
    if len(t.shape) == 1 and len(s) == 2:
        ctx, total = it.ctx, zint(t.shape[0])
        for d in (0, 1):
            if isinstance(s[d], int) and s[d] == -1:
                s[d] = it.b.arith(it, "FloorDiv", total, s[1 - d])
        n, m = zint(s[0]), zint(s[1])
        if not ctx.branch(z3.And(n >= 0, m >= 0, z3.simplify(n * m) == total)):
            raise it.exc(RuntimeError, "shape is invalid for input")
        g = t.reader()
        u = make(ctx, (s[0], s[1]), lambda i, j: g(z3.simplify(zint(i) * m + zint(j))), t.kind, t.dtype, t.device)
        u.stale_of = (t.store, t.store.fields["version"])
        return u
    raise Unsupported("reshape")


@method("flatten")
def m_flatten(it: Any, t: Tensor, start_dim: Any = 0, end_dim: Any = -1) -> Any:
    if len(t.shape) == 2 and isinstance(start_dim, int) and isinstance(end_dim, int) and start_dim in (0, -2) and end_dim in (1, -1):
        return m_view(it, t, -1)
    raise Unsupported("flatten")


# ----------------------------------------------------------------------------- construction
def full(it: Any, shape: tuple, v: Any, kind: str, dtype: Any = None, device: Any = None) -> Tensor:
    if isinstance(v, Tensor):
        v = item(v)
    if isinstance(v, (float, XR)) and kind == "real":
        kind = "xreal"
    c = cell(v, kind)
    return make(it.ctx, shape, lambda *i: c, kind, dtype, device)


def _shape_args(it: Any, a: list, k: dict) -> tuple:
    if "size" in k:
        return nonneg(it, sizes(it, (k["size"],)))
    return nonneg(it, sizes(it, tuple(a)))


@B.ext_call("torch.zeros")
def t_zeros(it: Any, a: list, k: dict) -> Any:
    return full(it, _shape_args(it, a, k), 0, kind_of_dtype(k.get("dtype")), k.get("dtype"), k.get("device"))


@B.ext_call("torch.ones")
def t_ones(it: Any, a: list, k: dict) -> Any:
    return full(it, _shape_args(it, a, k), 1, kind_of_dtype(k.get("dtype")), k.get("dtype"), k.get("device"))


@B.ext_call("torch.empty")
def t_empty(it: Any, a: list, k: dict) -> Any:
    kd = kind_of_dtype(k.get("dtype"))
    return symbolic(it.ctx, "uninit", _shape_args(it, a, k), kd, k.get("dtype"), k.get("device"))


@B.ext_call("torch.empty_like")
def t_empty_like(it: Any, a: list, k: dict) -> Any:
    t = a[0]
    if not it.ctx.pure:
        return symbolic(it.ctx, "uninit", t.shape, t.kind, k.get("dtype", t.dtype), k.get("device", t.device))

    def get(*i: Any) -> Any:
        raise Unsupported("a read of uninitialised memory")

    return make(it.ctx, t.shape, get, t.kind, k.get("dtype", t.dtype), k.get("device", t.device))


@B.ext_call("torch.full")
def t_full(it: Any, a: list, k: dict) -> Any:
    v = a[1] if len(a) > 1 else k["fill_value"]
    kd = kind_of_dtype(k.get("dtype"), {"xreal": "real"}.get(value_kind(v), value_kind(v)))
    return full(it, nonneg(it, sizes(it, (a[0],))), v, kd, k.get("dtype"), k.get("device"))


def like(v: Any) -> Callable:
    def f(it: Any, a: list, k: dict) -> Any:
        t = a[0]
        val = v if v is not None else (a[1] if len(a) > 1 else k["fill_value"])
        return full(it, t.shape, val, kind_of_dtype(k.get("dtype"), "real" if t.kind == "xreal" else t.kind), k.get("dtype", t.dtype),
                    k.get("device", t.device))

    return f


B.EXT_CALLS["torch.zeros_like"], B.EXT_CALLS["torch.ones_like"], B.EXT_CALLS["torch.full_like"] = like(0), like(1), like(None)


@B.ext_call("torch.arange")
def t_arange(it: Any, a: list, k: dict) -> Any:
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else tuple(a[:3])
    if "end" in k:
        hi = k["end"]
    if not (isinstance(step, int) and step == 1):
        raise Unsupported("arange with a step")
    if not (is_int_like(lo) and is_int_like(hi)):
        raise Unsupported("arange over reals")
    if it.ctx.branch(zint(hi) < zint(lo)):
        raise it.exc(RuntimeError, "arange bounds")
    kd = kind_of_dtype(k.get("dtype"), "int")
    return make(it.ctx, (z3.simplify(zint(hi) - zint(lo)),), lambda i: cell(add(i, lo), kd), kd, k.get("dtype"), k.get("device"))


def tensor_of(it: Any, v: Any, dtype: Any = None, device: Any = None) -> Tensor:
    if isinstance(v, Tensor):
        return m_clone(it, v)
    if is_num(v) or isinstance(v, float):
        kd = kind_of_dtype(dtype, {"xreal": "real"}.get(value_kind(v), value_kind(v)))
        return full(it, (), v, kd, dtype, device)
    if isinstance(v, (PyList, tuple)):
        items = it.concrete_items(v)
        if items is not None and items and isinstance(items[0], (PyList, tuple)):
            raise Unsupported("a tensor of nested lists")
        if items is not None:
            kd = "bool" if items else "real"
            for x in items:
                if not is_num(x) and not isinstance(x, float):
                    raise Unsupported("tensor of other values")
                kd = join_kind(kd, value_kind(x))
            kd = kind_of_dtype(dtype, kd)
            cs = [cell(x, kd) for x in items]

            def get(i: Any) -> Any:
                if not cs:
                    return cell(0, kd)
                out = cs[-1]
                for n in range(len(cs) - 2, -1, -1):
                    out = cell_ite(zint(i) == n, cs[n], out)
                return out

            return make(it.ctx, (len(items),), get, kd, dtype, device)
        s = it.seq_of(v)
        ek = (s.kind or ("int",))[0]
        if ek not in ("int", "real", "bool"):
            raise Unsupported("tensor of other values")
        kd = kind_of_dtype(dtype, ek)
        return make(it.ctx, (s.length,), lambda i: cell(s.get(i), kd), kd, dtype, device)
    raise Unsupported(f"torch.tensor of {v!r}")


@B.ext_call("torch.tensor", "torch.as_tensor")
def t_tensor(it: Any, a: list, k: dict) -> Any:
    return tensor_of(it, a[0], k.get("dtype"), k.get("device"))


@B.ext_call("torch.where")
def t_where(it: Any, a: list, k: dict) -> Any:
    if len(a) == 1:
        return tuple(hits_of(it, a[0]))
    c, x, y = a
    (gc, sc, _), (gx, sx, kx), (gy, sy, ky) = as_reader(c), as_reader(x), as_reader(y)
    sc, sx, sy = list(sc), list(sx), list(sy)
    shape = broadcast(it, [sc, sx, sy])
    nd = len(shape)
    fc, fx, fy = spread(gc, sc, nd), spread(gx, sx, nd), spread(gy, sy, nd)
    kd = join_kind(kx, ky)
    return make(it.ctx, shape, lambda *i: cell_ite(zbool(fc(*i)), cell(fx(*i), kd), cell(fy(*i), kd)), kd, None, c.device)


def cat_uniform(it: Any, s: SymSeq, dim_: Any) -> Tensor:
    """The concatenation of any number of tensors of one shape."""
    ctx = it.ctx
    if ctx.branch(zint(s.length) < 1):
        raise it.exc(RuntimeError, "expected a non-empty list of tensors")
    t, u = s.get(ctx.int("cat_a", lo=0)), s.get(ctx.int("cat_b", lo=0))
    if not isinstance(t, Tensor) or len(t.shape) != len(u.shape) or t.kind != u.kind or not all(same(x, y) for x, y in zip(t.shape, u.shape)):
        raise Unsupported("concatenation of an unknown number of different tensors")
    d, gets = norm_axis(t, dim_), [s]
    n, part = zint(t.shape[d]), ctx.func("part", I, I)

    def get(*i: Any) -> Any:
        x = zint(i[d])
        q = part(x)
        if not has_bound(ctx, x):
            ctx.fact(z3.Implies(z3.And(x >= 0, x < zint(s.length) * n), z3.And(q >= 0, q < zint(s.length), q * n <= x, x < q * n + n)))
        return s.get(q).reader()(*i[:d], x - q * n, *i[d + 1:])

    return make(ctx, t.shape[:d] + (z3.simplify(zint(s.length) * n),) + t.shape[d + 1:], get, t.kind, t.dtype, t.device)


def has_bound(ctx: Any, e: Any) -> bool:
    """The term is over the variable of a quantifier under construction."""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x) or z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in ctx.made:
            return True
        todo += x.children()
    return False


@method("split")
def m_split(it: Any, t: Tensor, split_size: Any, dim: Any = 0) -> Any:
    if isinstance(split_size, PyList):
        return split_sizes(it, t, split_size, norm_axis(t, dim))
    if not is_int_like(split_size):
        raise Unsupported("sections of different sizes")
    ctx, d, n = it.ctx, norm_axis(t, dim), zint(split_size)
    if ctx.branch(n < 1):
        raise Unsupported("sections of no entries")
    D, count = zint(t.shape[d]), ctx.int("sections", lo=1)
    ctx.fact(z3.And(count * n >= D, z3.Or(count == 1, (count - 1) * n < D)))

    def get(q: Any) -> Any:
        q = zint(q)
        lo = q * n
        left = D - lo
        return narrow(it, t, d, lo, lo + z3.If(left < n, left, n)) if not ctx.is_valid(left >= n) else narrow(it, t, d, lo, lo + n)

    return PyList(ctx, SymSeq(count, get, None))


def split_sizes(it: Any, t: Tensor, sizes: PyList, d: int) -> PyList:
    """Sections of given sizes; the q-th begins at off(q), the sum of the sizes before."""
    ctx, s = it.ctx, it.seq_of(sizes)
    off = ctx.memo.get("offsets")
    if off is None:
        raise Unsupported("sections of different sizes")
    n = zint(s.length)
    if not ctx.branch(off(n) == zint(t.shape[d])):
        raise it.exc(RuntimeError, "split_with_sizes expects sizes to sum to the size of the dimension")

    def get(q: Any) -> Any:
        q = zint(q)
        ctx.fact(z3.Implies(z3.And(q >= 0, q < n), z3.And(off(q) >= 0, off(q + 1) == off(q) + zint(s.get(q)), off(q + 1) <= off(n))))
        return narrow(it, t, d, off(q), off(q) + zint(s.get(q)))

    return PyList(ctx, SymSeq(s.length, get, None))


@method("narrow")
def m_narrow(it: Any, t: Tensor, dim: Any, start: Any, length: Any) -> Any:
    d = norm_axis(t, dim)
    a, n = zint(start), zint(length)
    if it.ctx.branch(z3.Or(a < 0, n < 0, a + n > zint(t.shape[d]))):
        raise Unsupported("a section out of range")
    return narrow(it, t, d, a, a + n)


@method("isnan")
def m_isnan(it: Any, t: Tensor) -> Any:
    if t.kind == "int" or t.kind == "bool":
        return full(it, t.shape, False, "bool", None, t.device)
    return symbolic(it.ctx, "nan", t.shape, "bool", None, t.device)


def clamped(it: Any, t: Tensor, min: Any = None, max: Any = None) -> Callable:
    g, k = t.reader(), t.kind
    if k not in ("int", "real") or isinstance(min, Tensor) or isinstance(max, Tensor):
        raise Unsupported("clamp of such a tensor")

    def get(*i: Any) -> Any:
        v = g(*i)
        if min is not None:
            v = z3.If(v < cell(min, k), cell(min, k), v)
        if max is not None:
            v = z3.If(v > cell(max, k), cell(max, k), v)
        return v

    return get


@method("clamp", "clip")
def m_clamp(it: Any, t: Tensor, min: Any = None, max: Any = None) -> Any:
    return make(it.ctx, t.shape, clamped(it, t, min, max), t.kind, t.dtype, t.device)


@method("clamp_", "clip_")
def m_clamp_(it: Any, t: Tensor, min: Any = None, max: Any = None) -> Any:
    t.write(it.ctx, clamped(it, t, min, max), t.kind)
    return t


METHODS["clamp_min"], METHODS["clamp_min_"] = (lambda it, t, min: m_clamp(it, t, min)), (lambda it, t, min: m_clamp_(it, t, min))


@method("masked_select")
def m_masked_select(it: Any, t: Tensor, mask: Tensor) -> Any:
    if len(t.shape) != 1 or len(mask.shape) != 1:
        raise Unsupported("masked_select of several dimensions")
    return masked_select(it, t, 0, mask)


@method("detach", "requires_grad_")
def m_detach(it: Any, t: Tensor, *a: Any, **kw: Any) -> Any:
    return t


@B.ext_call("torch.cat", "torch.concat")
def t_cat(it: Any, a: list, k: dict) -> Any:
    items = it.concrete_items(a[0])
    if items is None:
        return cat_uniform(it, it.seq_of(a[0]), a[1] if len(a) > 1 else k.get("dim", 0))
    if not items:
        raise Unsupported("concatenation of an unknown number of tensors")
    d = norm_axis(items[0], a[1] if len(a) > 1 else k.get("dim", 0))
    kd = items[0].kind
    offs, n = [], z3.IntVal(0)
    for t in items:
        kd = join_kind(kd, t.kind)
        for e in range(len(t.shape)):
            if e != d and not same(t.shape[e], items[0].shape[e]) and it.ctx.branch(zint(t.shape[e]) != zint(items[0].shape[e])):
                raise it.exc(RuntimeError, "sizes of tensors must match")
        offs.append(n)
        n = z3.simplify(n + zint(t.shape[d]))
    gs = [t.reader() for t in items]

    def get(*i: Any) -> Any:
        out = cell(gs[-1](*i[:d], add(i[d], -offs[-1]), *i[d + 1:]), kd)
        for j in range(len(gs) - 2, -1, -1):
            out = cell_ite(zint(i[d]) < offs[j + 1], cell(gs[j](*i[:d], add(i[d], -offs[j]), *i[d + 1:]), kd), out)
        return out

    return make(it.ctx, items[0].shape[:d] + (n,) + items[0].shape[d + 1:], get, kd, items[0].dtype, items[0].device)


for _n in ("index_select", "roll", "gather", "transpose", "permute", "unsqueeze", "squeeze", "sum", "any", "all", "logical_not", "tril",
           "triu", "log", "masked_fill", "clone", "eq", "ne", "lt", "le", "gt", "ge", "min", "max", "nonzero", "numel", "add", "sub", "mul", "isnan", "clamp", "masked_select",
           "div"):
    B.EXT_CALLS[f"torch.{_n}"] = lambda it, a, k, _n=_n: METHODS[_n](it, a[0], *a[1:], **{("dim" if x == "axis" else x): y for x, y in k.items() if x != "input"})


@B.ext_call("torch.nn.functional.pad")
def t_pad(it: Any, a: list, k: dict) -> Any:
    t = a[0]
    pads = it.concrete_items(a[1] if len(a) > 1 else k["pad"])
    value = k.get("value", a[3] if len(a) > 3 else 0)
    if k.get("mode", a[2] if len(a) > 2 else "constant") != "constant" or len(pads) != 2:
        raise Unsupported("padding of several dimensions")
    l, r = pads
    nd, g, n = len(t.shape), t.reader(), t.shape[-1]
    if it.ctx.branch(z_or(zint(l) < 0, zint(r) < 0)):
        raise Unsupported("negative padding")
    kd = join_kind(t.kind, value_kind(value)) if t.kind in ("real", "xreal") else t.kind

    def get(*i: Any) -> Any:
        x = zint(i[nd - 1])
        return cell_ite(z3.And(x >= zint(l), x < zint(l) + zint(n)), cell(g(*i[:nd - 1], add(x, -l)), kd), cell(value, kd))

    return make(it.ctx, t.shape[:-1] + (z3.simplify(zint(l) + zint(n) + zint(r)),), get, kd, t.dtype, t.device)


@B.ext_call("torch._dynamo.maybe_mark_dynamic", "torch._dynamo.mark_dynamic")
def _noop(it: Any, a: list, k: dict) -> Any:
    return None


B.EXT_CALLS["torch.compiler.is_compiling"] = lambda it, a, k: False


def DEVICE(ctx: Any, type: str = "cpu") -> Any:
    from .extlib import Device

    return Device(ctx, None, type=type, index=None)
