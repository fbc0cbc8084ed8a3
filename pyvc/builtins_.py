"""Semantics of Python builtins and trusted contracts of external functions."""
from __future__ import annotations

import math
from fractions import Fraction
from typing import Any, Callable

import z3

from .core import (FALSE, TRUE, HObj, Path, Unsupported, is_sym_bool, is_sym_int, is_sym_real, is_z3,
                   z_and, z_implies, z_not, z_or, zbool, zint, znum, zreal)
from .values import (UNBOUND, BuiltinCls, Entity, EnumMember, Ext, FStr, Model, Obj, OptVal, PathVal, PyDict,
                     PyList, PySet, Sink, SymMap, SymSeq, as_seq, fresh_seq, is_int_like, is_num,
                     items_to_seq, kind_of, kinds_join, merge, py_eq, simp, split_path)

GLOBAL_OVERRIDES: dict[str, Callable] = {}
FUNC_OVERRIDES: dict[str, Callable] = {}
CLASS_OVERRIDES: dict[str, Callable] = {}
EXT_VALUES: dict[str, Any] = {}
EXT_CALLS: dict[str, Callable] = {}
EXT_ISINSTANCE: dict[str, Callable] = {}


def ext_call(*names: str) -> Callable:
    def deco(fn: Callable) -> Callable:
        for n in names:
            EXT_CALLS[n] = fn
        return fn

    return deco


def check_key(k: Any) -> None:
    if not isinstance(k, (str, int, EnumMember, tuple, Ext, type(None), BuiltinCls, Entity)) and not hasattr(k, "qualname"):
        raise Unsupported(f"dictionary key {k!r}")


def sym_key(k: Any) -> bool:
    """Equality of this key with another one is not decided by Python's ==."""
    return is_z3(k) or isinstance(k, (FStr, Entity)) or isinstance(k, tuple) and any(sym_key(x) for x in k)


# ----------------------------------------------------------------------------- arithmetic
def is_float_inf(v: Any) -> bool:
    return isinstance(v, float)


def both_int(a: Any, b: Any) -> bool:
    return is_int_like(a) and is_int_like(b)


def py_floordiv(a: Any, b: Any) -> Any:
    a, b = zint(a), zint(b)
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    return z3.If(b > 0, a / b, (-a) / (-b))


def py_mod(a: Any, b: Any) -> Any:
    a, b = zint(a), zint(b)
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return z3.If(b > 0, a % b, -((-a) % (-b)))


def arith(it: Any, op: str, a: Any, b: Any) -> Any:
    ctx = it.ctx
    if isinstance(a, (str, FStr)) or isinstance(b, (str, FStr)):
        if op == "Add" and isinstance(a, (str, FStr)) and isinstance(b, (str, FStr)):
            return FStr([a, b]).simplify()
        if op == "Mult" and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise it.exc(TypeError, "str operand")
    if isinstance(a, PyList) or isinstance(b, PyList):
        if op == "Add" and isinstance(a, PyList) and isinstance(b, PyList):
            return PyList(ctx, concat(a.content, b.content))
        if op == "Mult":
            if isinstance(b, PyList):
                a, b = b, a
            if not a.sym and isinstance(b, int):
                return PyList(ctx, a.content * b)
            if not a.sym and len(a.content) == 1 and is_sym_int(b):
                x = a.content[0]
                return PyList(ctx, SymSeq(z3.If(b > 0, b, z3.IntVal(0)), lambda i: x, kind_of(x)))
        raise Unsupported(f"list {op}")
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    if isinstance(a, tuple) and op == "Mult" and isinstance(b, int):
        return a * b
    if isinstance(a, PathVal) and op == "Div":
        return a.join(b)
    if isinstance(a, PySet) and isinstance(b, PySet):
        (ia, pa), (ib, pb) = a.content, b.content
        if op == "BitOr":
            return PySet(ctx, ia + ib, pa + pb)
        if op == "Sub":
            return PySet(ctx, [], [lambda v: z_and(a.has(v), z_not(b.has(v)))])
        if op == "BitAnd":
            return PySet(ctx, [], [lambda v: z_and(a.has(v), b.has(v))])
    if isinstance(a, float) or isinstance(b, float):
        return float_arith(it, op, a, b)
    if op == "BitOr" and (isinstance(a, (BuiltinCls, Ext)) or a is None or hasattr(a, "mro")):
        return (a, b)  # union type
    if isinstance(a, PyDict) and isinstance(b, PyDict) and op == "BitOr":
        d = dict(a.content)
        d.update(b.content)
        return PyDict(ctx, d)
    if not (is_num(a) and is_num(b)):
        raise Unsupported(f"{op} on {a!r}, {b!r}")
    conc = not is_z3(a) and not is_z3(b)
    if op in ("Add", "Sub", "Mult"):
        if conc:
            r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b}[op]()
            return Fraction(r) if isinstance(a, Fraction) or isinstance(b, Fraction) else int(r)
        x, y = (zint(a), zint(b)) if both_int(a, b) else (zreal(a), zreal(b))
        if op == "Mult" and it.ctx.memo.get("uf-mod") and z3.is_int(x):
            for u, w in ((x, y), (y, x)):
                if z3.is_app(u) and u.decl().eq(UDIV) and u.arg(1).eq(w):
                    return z3.simplify(u.arg(0) - uf_mod(it.ctx, u.arg(0), w))
        r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y}[op]()
        return z3.simplify(r)
    if op in ("Div", "FloorDiv", "Mod"):
        zero = py_eq(b, 0)
        if it.ctx.branch(zero):
            raise it.exc(ZeroDivisionError)
        if op == "Div":
            if conc:
                return Fraction(a) / Fraction(b)
            return zreal(a) / zreal(b)
        if both_int(a, b):
            if conc:
                return a // b if op == "FloorDiv" else a % b
            if it.ctx.memo.get("uf-mod") and is_z3(b):
                if op == "Mod" and it.ctx.memo.get("quotients"):
                    uf_div(it.ctx, a, b)
                return uf_mod(it.ctx, a, b) if op == "Mod" else uf_div(it.ctx, a, b)
            if op == "FloorDiv":
                return z3.simplify(py_floordiv(a, b))
            return z3.simplify(py_mod(a, b))
        if conc:
            return Fraction(a // b) if op == "FloorDiv" else a % b
        q = z3.ToReal(z3.ToInt(zreal(a) / zreal(b)))
        return q if op == "FloorDiv" else zreal(a) - zreal(b) * q
    if op == "Pow":
        return power(it, a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        ab = isinstance(a, bool) or is_sym_bool(a)
        bb = isinstance(b, bool) or is_sym_bool(b)
        if ab and bb:
            if op == "BitAnd":
                return simp(z_and(a, b))
            if op == "BitOr":
                return simp(z_or(a, b))
            return simp(z3.Xor(zbool(a), zbool(b)))
        if conc:
            return {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}[op]()
    if op in ("LShift", "RShift") and conc:
        return a << b if op == "LShift" else a >> b
    raise Unsupported(f"{op} on {a!r}, {b!r}")


def float_arith(it: Any, op: str, a: Any, b: Any) -> Any:
    if all(isinstance(x, (int, float, Fraction)) for x in (a, b)):
        fa, fb = float(a), float(b)
        try:
            r = {"Add": lambda: fa + fb, "Sub": lambda: fa - fb, "Mult": lambda: fa * fb,
                 "Div": lambda: fa / fb}[op]()
        except (KeyError, ZeroDivisionError) as ex:
            raise Unsupported(f"float {op}") from ex
        return it.float_const(r)
    raise Unsupported(f"{op} with an infinite operand")


UMOD = z3.Function("mod", z3.IntSort(), z3.IntSort(), z3.IntSort())
UDIV = z3.Function("div", z3.IntSort(), z3.IntSort(), z3.IntSort())


def uf_mod(ctx: Path, a: Any, b: Any) -> Any:
    """Remainder by a symbolic divisor as an uninterpreted function (an over-approximation)."""
    a, b = zint(a), zint(b)
    r = UMOD(a, b)
    ctx.fact(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
    return r


def uf_div(ctx: Path, a: Any, b: Any) -> Any:
    a, b = zint(a), zint(b)
    r = UDIV(a, b)
    ctx.fact(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r <= a)))
    quotients = ctx.memo.get("quotients")
    if quotients:
        # the defining property, and its ground instances for the quotients of interest: a < c * b iff a // b < c
        ctx.fact(z3.Implies(b > 0, z3.simplify(r * b, som=True) + uf_mod(ctx, a, b) == a))
        for c in quotients:
            ctx.fact(z3.Implies(b > 0, (a < z3.simplify(c * b, som=True)) == (r < c)))
            ctx.fact(z3.Implies(z3.And(b > 0, r == c), z3.simplify(c * b, som=True) + uf_mod(ctx, a, b) == a))
        for c in quotients:
            if ctx.is_valid(z3.And(b > 0, r == c)):
                return c
    return r


POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())


def power(it: Any, a: Any, b: Any) -> Any:
    ctx = it.ctx
    if not is_z3(a) and not is_z3(b):
        if isinstance(b, int) and (b >= 0 or isinstance(a, Fraction)):
            return a ** b
        if isinstance(b, int):
            return Fraction(a) ** b
        if b == Fraction(1, 2):
            r = math.isqrt(int(a)) if isinstance(a, int) else None
            if r is not None and r * r == a:
                return Fraction(r)
        return POW(zreal(a), zreal(b))
    if isinstance(b, int) and 0 <= b <= 4:
        r: Any = 1
        for _ in range(b):
            r = arith(it, "Mult", r, a)
        return r
    x, p = zreal(a), zreal(b)
    if isinstance(b, (int, Fraction)) and (2 * b).__trunc__() == 2 * b and abs(b) <= 4:
        # a half-integral power, by the square root
        from .extlib import SQRT
        if b < 0 and ctx.branch(x == 0):
            raise it.exc(ZeroDivisionError, "0.0 cannot be raised to a negative power")
        if ctx.branch(x < 0):
            raise Unsupported("complex power")
        h = int(2 * abs(b))
        base, n = x, h // 2
        if h % 2:
            root = SQRT(x)
            ctx.fact(z3.And(root >= 0, root * root == x))
            ctx.fact(z3.Implies(x > 0, root > 0))
            base = root
            n = h
        out = z3.RealVal(1)
        if h % 2:  # root^(2n+1) = x^n root
            for _ in range(h // 2):
                out = out * x
            out = out * root
        else:
            for _ in range(n):
                out = out * base
        return z3.simplify(out if b > 0 else 1 / out)
    r2 = POW(x, p)
    whole = is_int_like(b)
    if not whole and ctx.branch(x < 0):
        raise Unsupported("complex power")
    if ctx.branch(z_and(x == 0, p < 0)):
        raise it.exc(ZeroDivisionError, "0.0 cannot be raised to a negative power")
    ctx.fact(z3.Implies(x > 0, r2 > 0))
    ctx.fact(z3.Implies(z3.And(x == 0, p > 0), r2 == 0))
    ctx.fact(z3.Implies(z3.Or(x == 1, p == 0), r2 == 1))
    ctx.fact(z3.Implies(p == 1, r2 == x))
    ctx.fact(z3.Implies(z3.And(x > 0, x <= 1, p >= 0), r2 <= 1))
    ctx.fact(z3.Implies(z3.And(x >= 1, p >= 0), r2 >= 1))
    if whole:  # x ** n and x ** (n + 1)
        n1, n0 = POW(x, z3.simplify(p + 1)), POW(x, z3.simplify(p - 1))
        ctx.fact(z3.Implies(x > 0, z3.And(n1 == r2 * x, r2 == n0 * x)))
    return r2


def order(it: Any, op: str, a: Any, b: Any) -> Any:
    if isinstance(a, tuple) and isinstance(b, tuple):
        return lex_order(it, op, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, float) or isinstance(b, float):
        if all(isinstance(x, (int, float, Fraction)) for x in (a, b)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        # finite symbolic number against an infinity
        inf = a if isinstance(a, float) else b
        if inf != inf:
            return False
        a_less = (isinstance(b, float) and inf > 0) or (isinstance(a, float) and inf < 0)
        return {"Lt": a_less, "LtE": a_less, "Gt": not a_less, "GtE": not a_less}[op]
    if isinstance(a, PySet) and isinstance(b, PySet):
        raise Unsupported("set comparison")
    if not (is_num(a) and is_num(b)):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise it.exc(TypeError, "unorderable")
        raise Unsupported(f"ordering of {a!r} and {b!r}")
    if not is_z3(a) and not is_z3(b):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    x, y = (zint(a), zint(b)) if both_int(a, b) else (zreal(a), zreal(b))
    r = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]()
    return simp(z3.simplify(r))


def lex_order(it: Any, op: str, a: tuple, b: tuple) -> Any:
    strict = op in ("Lt", "Gt")
    base = "Lt" if op in ("Lt", "LtE") else "Gt"
    if not a or not b:
        if op == "Lt":
            return len(a) < len(b)
        if op == "LtE":
            return len(a) <= len(b)
        if op == "Gt":
            return len(a) > len(b)
        return len(a) >= len(b)
    return simp(z_or(order(it, base, a[0], b[0]),
                     z_and(py_eq(a[0], b[0]), lex_order(it, op, a[1:], b[1:]))))


def exists_in(i: Any, s: SymSeq, v: Any) -> Any:
    """Some element of s equals v.  A slice is searched by the index of what it was sliced from."""
    lo, hi, src = z3.IntVal(0), zint(s.length), s
    while src.tag and src.tag[0] == "slice":
        _, src, l0 = src.tag
        lo, hi = lo + l0, hi + l0
    return z3.Exists([i], z3.And(i >= lo, i < hi, zbool(py_eq(v, src.get(i)))))


def contains(it: Any, c: Any, v: Any) -> Any:
    if isinstance(c, (tuple, list)):
        return simp(z_or(*[py_eq(v, x) for x in c]))
    if isinstance(c, PyList):
        if not c.sym:
            return simp(z_or(*[py_eq(v, x) for x in c.content]))
        s = c.content
        i = bound(it.ctx, "in")
        return exists_in(i, s, v)
    if isinstance(c, PySet):
        return c.has(v)
    if isinstance(c, PyDict):
        if isinstance(c.content, SymMap):
            return c.content.has(v)
        if isinstance(v, FStr):
            return simp(z_or(*[py_eq(v, k) for k in c.content]))
        if is_z3(v):
            return simp(z_or(*[py_eq(v, k) for k in c.content]))
        if sym_key(v) or any(isinstance(x, (Entity, tuple)) and sym_key(x) for x in c.content):
            return simp(z_or(*[py_eq(v, k) for k in c.content]))
        return v in c.content
    if isinstance(c, str) and isinstance(v, str):
        return v in c
    if hasattr(c, "contains"):
        return c.contains(it, v)
    if isinstance(c, Entity) and hasattr(c.model, "contains"):
        return c.model.contains(it, c, v)
    if isinstance(c, Obj):
        if hasattr(c.cls, "find") and c.cls.find("__contains__"):
            return it.truth(it.call_method(c, "__contains__", v))
    # generic iterables
    items = it.concrete_items(c)
    if items is not None:
        return simp(z_or(*[py_eq(v, x) for x in items]))
    raise Unsupported(f"in {c!r}")


# ----------------------------------------------------------------------------- sequences
_bound_n = [0]


def bound(ctx: Path, hint: str = "i") -> Any:
    n = ctx.names.get("bound:" + hint, 0)
    ctx.names["bound:" + hint] = n + 1
    return z3.Int(f"{hint}?{n}")


def concat(a: Any, b: Any) -> Any:
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    sa, sb = (x if isinstance(x, SymSeq) else items_to_seq(x) for x in (a, b))
    la, lb = zint(sa.length), zint(sb.length)
    if z3.is_int_value(z3.simplify(lb)) and z3.simplify(lb).as_long() == 0:
        return a
    if z3.is_int_value(z3.simplify(la)) and z3.simplify(la).as_long() == 0:
        return b

    def get(i: Any) -> Any:
        i = zint(i)
        c = z3.simplify(i < la)
        if z3.is_true(c):
            return sa.get(i)
        if z3.is_false(c):
            return sb.get(z3.simplify(i - la))
        return merge(c, sa.get(i), sb.get(z3.simplify(i - la)))

    return SymSeq(z3.simplify(la + lb), get, kinds_join([sa.kind, sb.kind]))


def list_append(it: Any, lst: PyList, v: Any) -> None:
    c = lst.content
    if isinstance(c, list):
        lst.set(it.ctx, c + [v])
    else:
        lst.set(it.ctx, concat(c, [v]))


def list_extend(it: Any, lst: PyList, v: Any) -> None:
    items = it.concrete_items(v)
    if items is None:
        items = it.seq_of(v)
    lst.set(it.ctx, concat(lst.content, items))


def seq_len(v: Any) -> Any:
    c = v.content if isinstance(v, PyList) else v
    return c.length if isinstance(c, SymSeq) else len(c)


def norm_index(it: Any, i: Any, n: Any, what: str = "list") -> Any:
    """Python index -> 0-based; forks on out-of-range."""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            raise it.exc(IndexError, what)
        return j
    zi, zn = zint(i), zint(n)
    if isinstance(i, int):
        j = z3.simplify(zi + zn) if i < 0 else zi
    elif it.ctx.branch(zi >= 0):
        j = zi
    else:
        j = z3.simplify(zi + zn)
    if not it.ctx.branch(z_and(j >= 0, j < zn)):
        raise it.exc(IndexError, what)
    return j


def slice_bounds(it: Any, s: Any, n: Any) -> tuple[Any, Any]:
    """Clamped (lo, hi) with lo <= hi for step 1."""
    zn = zint(n)

    def ite(c: Any, a: Any, b: Any) -> Any:
        k = it.ctx.known(c)
        return a if k is True else b if k is False else z3.If(c, a, b)

    def clamp(v: Any, default: Any) -> Any:
        if v is None:
            return default
        v = zint(v)
        w = ite(v < 0, v + zn, v)
        return z3.simplify(ite(w < 0, z3.IntVal(0), ite(w > zn, zn, w)))

    lo = clamp(s.lo, z3.IntVal(0))
    hi = clamp(s.hi, zn)
    hi = z3.simplify(ite(hi < lo, lo, hi))
    return lo, hi


def slice_seq(it: Any, c: Any, s: Any) -> Any:
    if s.step is not None and s.step != 1:
        if isinstance(c, list) and all(isinstance(x, (int, type(None))) for x in (s.lo, s.hi, s.step)):
            return c[slice(s.lo, s.hi, s.step)]
        if s.step == -1 and s.lo is None and s.hi is None:
            q = c
            n = zint(q.length)
            return SymSeq(q.length, lambda i: q.get(z3.simplify(n - 1 - zint(i))), q.kind)
        raise Unsupported("slice step")
    if isinstance(c, list) and all(isinstance(x, (int, type(None))) for x in (s.lo, s.hi)):
        return c[slice(s.lo, s.hi)]
    q = c if isinstance(c, SymSeq) else items_to_seq(c)
    lo, hi = slice_bounds(it, s, q.length)
    n = z3.simplify(hi - lo)
    return SymSeq(n, lambda i: q.get(z3.simplify(lo + zint(i))), q.kind, ("slice", q, lo))


def getitem(it: Any, o: Any, i: Any) -> Any:
    from .interp import SliceVal

    if hasattr(o, "getitem"):
        return o.getitem(it, i)
    if isinstance(o, Entity) and hasattr(o.model, "getitem"):
        return o.model.getitem(it, o, i)
    if isinstance(o, FStr) and isinstance(i, int) and i == 0:
        for p in o.parts:
            if isinstance(p, str):
                return p[0]
            if not isinstance(p[0], Entity) or p[1]:
                raise Unsupported("a character of a symbolic string")
            if it.ctx.branch(it.truth(p[0])):
                return getitem(it, p[0], 0)
        raise it.exc(IndexError, "string index out of range")
    if isinstance(o, (PyList, tuple)):
        c = o.content if isinstance(o, PyList) else list(o)
        if isinstance(i, SliceVal):
            r = slice_seq(it, c, i)
            if isinstance(o, tuple) and isinstance(r, list):
                return tuple(r)
            return PyList(it.ctx, r)
        if not is_int_like(i):
            raise it.exc(TypeError, "list index")
        n = c.length if isinstance(c, SymSeq) else len(c)
        j = norm_index(it, i, n)
        if isinstance(c, list):
            if isinstance(j, int):
                return c[j]
            j = z3.simplify(j)
            if z3.is_int_value(j):
                return c[j.as_long()]
            try:
                return items_to_seq(c).get(j)
            except Unsupported:
                for x in range(len(c) - 1):
                    if it.ctx.branch(j == x):
                        return c[x]
                return c[-1]
        return c.get(j if is_z3(j) else z3.IntVal(j))
    if isinstance(o, PyDict):
        if isinstance(o.content, SymMap):
            if not it.ctx.branch(o.content.has(i)):
                raise it.exc(KeyError, i)
            return o.content.get(i)
        k = dict_key(it, o, i)
        if k is UNBOUND:
            raise it.exc(KeyError, i)
        return o.content[k]
    if isinstance(o, str):
        if isinstance(i, SliceVal) and all(isinstance(x, (int, type(None))) for x in (i.lo, i.hi, i.step)):
            return o[slice(i.lo, i.hi, i.step)]
        if isinstance(i, int):
            return o[i]
    if isinstance(o, FStr):
        if isinstance(i, SliceVal) and isinstance(i.lo, int) and i.hi is None and i.step is None and i.lo >= 0:
            p0 = o.parts[0]
            if isinstance(p0, str) and len(p0) >= i.lo:
                return FStr([p0[i.lo:]] + list(o.parts[1:])).simplify()
    if isinstance(o, Obj) and hasattr(o.cls, "find") and o.cls.find("__getitem__"):
        return it.call_method(o, "__getitem__", i)
    raise Unsupported(f"subscript of {o!r}")


def dict_key(it: Any, d: PyDict, k: Any) -> Any:
    """The concrete key equal to k, or UNBOUND."""
    if not sym_key(k) and not any(isinstance(x, (Entity, tuple)) and sym_key(x) for x in d.content):
        try:
            return k if k in d.content else UNBOUND
        except TypeError:
            raise it.exc(TypeError, "unhashable")
    for x in d.content:
        if it.ctx.branch(py_eq(k, x)):
            return x
    return UNBOUND


def setitem(it: Any, o: Any, i: Any, v: Any) -> None:
    from .interp import SliceVal

    if hasattr(o, "setitem"):
        o.setitem(it, i, v)
        return
    if isinstance(o, PyList) and not isinstance(i, SliceVal):
        j = norm_index(it, i, seq_len(o))
        if isinstance(j, int) and not o.sym:
            c = list(o.content)
            c[j] = v
            o.set(it.ctx, c)
            return
        s = as_seq(o)
        jj = zint(j)
        o.set(it.ctx, SymSeq(s.length, lambda x: merge(z3.simplify(zint(x) == jj), v, s.get(x)),
                             kinds_join([s.kind, kind_of(v)])))
        return
    if isinstance(o, PyDict):
        if isinstance(o.content, dict):
            if is_z3(i) or isinstance(i, FStr):
                k = dict_key(it, o, i)
                if k is UNBOUND:
                    raise Unsupported("dictionary store with a symbolic key")
                i = k
            elif sym_key(i) or any(isinstance(x, (Entity, tuple)) and sym_key(x) for x in o.content):
                k = dict_key(it, o, i)
                i = i if k is UNBOUND else k
            check_key(i)
            d = dict(o.content)
            d[i] = v
            o.set(it.ctx, d)
            return
        m = o.content
        keys = m.keys
        if keys is not None and not it.ctx.branch(zbool(m.has(i))):
            n0 = zint(keys.length)
            keys = SymSeq(z3.simplify(n0 + 1), lambda x, k0=keys: merge(z3.simplify(zint(x) == n0), i, k0.get(x)), keys.kind)
        o.set(it.ctx, SymMap(lambda k: z_or(py_eq(k, i), m.has(k)),
                             lambda k: merge(py_eq(k, i), v, m.get(k)), m.kind, keys))
        return
    if isinstance(o, Obj) and hasattr(o.cls, "find") and o.cls.find("__setitem__"):
        it.call_method(o, "__setitem__", i, v)
        return
    raise Unsupported(f"item assignment on {o!r}")


def delitem(it: Any, o: Any, i: Any) -> None:
    from .interp import SliceVal

    if isinstance(o, PyDict) and isinstance(o.content, dict):
        k = dict_key(it, o, i)
        if k is UNBOUND:
            raise it.exc(KeyError, i)
        d = dict(o.content)
        del d[k]
        o.set(it.ctx, d)
        return
    if isinstance(o, PyDict):
        m = o.content
        if not it.ctx.branch(m.has(i)):
            raise it.exc(KeyError, i)
        o.set(it.ctx, SymMap(lambda k: z_and(z_not(py_eq(k, i)), m.has(k)), m.get, m.kind))
        return
    if isinstance(o, PyList):
        if isinstance(i, SliceVal):
            if i.step is not None and i.step != 1:
                raise Unsupported("del of a list slice with a step")
            if not o.sym and all(isinstance(x, (int, type(None))) for x in (i.lo, i.hi)):
                c = list(o.content)
                del c[slice(i.lo, i.hi)]
                o.set(it.ctx, c)
                return
            lo, hi = slice_bounds(it, i, seq_len(o))
            q = it.seq_of(o)
            n, g, gap = zint(q.length), q.get, z3.simplify(zint(hi) - zint(lo))
            o.set(it.ctx, SymSeq(z3.simplify(n - gap), lambda x: merge(zint(x) < zint(lo), g(x), g(z3.simplify(zint(x) + gap))), q.kind))
            return
        j = norm_index(it, i, seq_len(o))
        if not o.sym and isinstance(j, int):
            c = list(o.content)
            del c[j]
            o.set(it.ctx, c)
            return
        q = it.seq_of(o)
        g, zj = q.get, zint(j)
        o.set(it.ctx, SymSeq(z3.simplify(zint(q.length) - 1), lambda x: merge(zint(x) < zj, g(x), g(z3.simplify(zint(x) + 1))), q.kind))
        return
    raise Unsupported(f"del on {o!r}")


# ----------------------------------------------------------------------------- map / filter / folds
def subst(v: Any, j: Any, i: Any) -> Any:
    if is_z3(v):
        return z3.simplify(z3.substitute(v, (j, zint(i)))) if not z3.is_quantifier(v) else z3.substitute(v, (j, zint(i)))
    if isinstance(v, tuple):
        return tuple(subst(x, j, i) for x in v)
    if isinstance(v, Entity):
        return Entity(v.model, subst(v.id, j, i))
    if isinstance(v, FStr):
        return FStr([p if isinstance(p, str) else (subst(p[0], j, i), p[1]) for p in v.parts])
    if isinstance(v, PathVal):
        return PathVal(v.base, tuple(subst(c, j, i) for c in v.comps))
    if isinstance(v, PyList):
        if v.sym:
            s = v.content
            return PyList(None, SymSeq(subst(s.length, j, i), lambda x: subst(s.get(x), j, i), s.kind))
        return PyList(None, [subst(x, j, i) for x in v.content])
    return v


def body_cases(it: Any, seq: SymSeq, thunk: Callable[[Any], Any], hint: str) -> tuple[Any, list]:
    ctx = it.ctx
    j = bound(ctx, hint)
    n0 = len(ctx.pc)
    ctx.pc.append(z3.And(j >= 0, j < zint(seq.length)))
    try:
        cases = ctx.summarize(lambda: thunk(seq.get(j)))
    finally:
        del ctx.pc[n0:]
    return j, cases


def raise_if_any(it: Any, seq: SymSeq, j: Any, cases: list) -> None:
    excs = [(c, v) for c, k, v in cases if k == "exc"]
    if not excs:
        return
    e = z_or(*[c for c, _ in excs])
    if it.ctx.branch(z3.Exists([j], z3.And(j >= 0, j < zint(seq.length), e))):
        # The first failing element raises; its exception class must be unique to be decided.
        classes = {repr(v.obj.cls) for _, v in excs}
        if len(classes) > 1:
            raise Unsupported("several exception classes in a comprehension")
        raise excs[0][1]


def merge_cases(cases: list) -> Any:
    vals = [(c, v) for c, k, v in cases if k == "val"]
    if not vals:
        raise Unsupported("no value in a comprehension body")
    out = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        out = merge(c, v, out)
    return out


def map_filter(it: Any, seq: SymSeq, _unused: Any, has_if: bool, ifs: Callable, elt: Callable,
               identity: bool = False) -> SymSeq:
    ctx = it.ctx
    if not has_if:
        j, cases = body_cases(it, seq, elt, "c")
        if not cases:
            return SymSeq(0, lambda i: 0)
        raise_if_any(it, seq, j, cases)
        v = merge_cases(cases)
        return SymSeq(seq.length, lambda i: subst(v, j, i), kind_of(v))
    if ctx.pure:
        raise Unsupported("filtered comprehension in a quantified body")
    j, cases = body_cases(it, seq, ifs, "c")
    raise_if_any(it, seq, j, cases)
    keep = z_or(*[z_and(c, v) for c, k, v in cases if k == "val"])

    def keep_at(i: Any) -> Any:
        return z3.substitute(keep, (j, zint(i)))

    n = zint(seq.length)
    ln = ctx.int("flt.len")
    m = ctx.func("flt.m", z3.IntSort(), z3.IntSort())
    inv = ctx.func("flt.inv", z3.IntSort(), z3.IntSort())
    a, b = z3.Ints("flt?a flt?b")
    ctx.fact(z3.And(ln >= 0, ln <= n))
    ctx.fact(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < ln),
                                       z3.And(m(a) >= 0, m(a) < n, keep_at(m(a)), inv(m(a)) == a)),
                       patterns=[m(a)]))
    ctx.fact(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < ln), m(a) < m(b)),
                       patterns=[z3.MultiPattern(m(a), m(b))]))
    body = z3.Implies(z3.And(a >= 0, a < n, keep_at(a)), z3.And(inv(a) >= 0, inv(a) < ln, m(inv(a)) == a))
    pats = []
    probe = seq.get(a)
    for t in leaf_terms(probe):
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            pats.append(t)
    if pats:
        ctx.fact(z3.ForAll([a], body, patterns=[pats[0], inv(a)]))
    else:
        ctx.fact(z3.ForAll([a], body))
    filtered = SymSeq(ln, lambda i: seq.get(m(zint(i))), seq.kind, ("filter", seq, keep_at, m, inv))
    if identity:
        return filtered
    j2, cases2 = body_cases(it, filtered, elt, "c")
    raise_if_any(it, filtered, j2, cases2)
    if not cases2:
        return SymSeq(0, lambda i: 0)
    v = merge_cases(cases2)
    return SymSeq(ln, lambda i: subst(v, j2, i), kind_of(v), filtered.tag)


def leaf_terms(v: Any) -> list:
    if is_z3(v):
        return [v]
    if isinstance(v, tuple):
        return [t for x in v for t in leaf_terms(x)]
    if isinstance(v, Entity):
        return [v.id]
    return []


class Fold:
    """S(0) = start, S(i+1) = S(i) + V(i); unfolded on demand."""

    def __init__(self, ctx: Path, n: Any, v: Callable[[Any], Any], start: Any, real: bool, key: Any) -> None:
        self.ctx, self.n, self.v, self.start, self.real = ctx, zint(n), v, start, real
        s = z3.RealSort() if real else z3.IntSort()
        self.s = z3.Function(f"sum#{abs(hash(key)) % 10**8}", z3.IntSort(), s)
        self.done: set[int] = set()
        ctx.fact(self.s(0) == (zreal(start) if real else zint(start)))

    def at(self, t: Any) -> Any:
        t = z3.simplify(zint(t))
        if t.get_id() not in self.done:
            self.done.add(t.get_id())
            p = z3.simplify(t - 1)
            x = self.v(p)
            x = zreal(x) if self.real else zint(x)
            self.ctx.fact(z3.Implies(z3.And(t > 0, t <= self.n), self.s(t) == self.s(p) + x))
        return self.s(t)


def fold_sum(it: Any, seq: SymSeq, start: Any = 0) -> Fold:
    ctx = it.ctx
    j = z3.Int("sum?j")
    v = seq.get(j)
    if not is_num(v):
        raise Unsupported(f"sum of {v!r}")
    real = not is_int_like(v) or not is_int_like(start)
    key = ("sum", zint(seq.length).sexpr(), znum(v).sexpr(), str(start))
    f = ctx.memo.get(key)
    if f is None:
        if ctx.pure:
            raise Unsupported("sum in a quantified body")
        f = ctx.memo[key] = Fold(ctx, seq.length, seq.get, start, real, key)
    return f


def do_sum(it: Any, v: Any, start: Any = 0) -> Any:
    items = it.concrete_items(v)
    if items is not None:
        r = start
        for x in items:
            r = it.binop(ADD, r, x)
        return r
    seq = it.seq_of(v)
    return fold_sum(it, seq, start).at(seq.length)


import ast as _ast

ADD = _ast.Add()


def do_minmax(it: Any, args: list, kwargs: dict, is_max: bool) -> Any:
    key = kwargs.get("key")
    if len(args) == 1:
        items = it.concrete_items(args[0])
        if items is None:
            seq = it.seq_of(args[0])
            n = zint(seq.length)
            if it.ctx.branch(n <= 0):
                if "default" in kwargs:
                    return kwargs["default"]
                raise it.exc(ValueError, "empty sequence")
            if key is not None:
                raise Unsupported("min/max with key over a symbolic sequence")
            ctx = it.ctx
            if ctx.pure:
                raise Unsupported("min/max in a quantified body")
            j = z3.Int("mm?j")
            v = seq.get(j)
            mk = ("mm", is_max, n.sexpr(), znum(v).sexpr())
            hit = ctx.memo.get(mk)
            if hit is not None:
                return hit
            w = ctx.int("argmax" if is_max else "argmin")
            ctx.fact(z3.Implies(n > 0, z3.And(w >= 0, w < n)))
            top = seq.get(w)
            c = zbool(order(it, "LtE" if is_max else "GtE", v, top))
            ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), c)))
            ctx.memo[mk] = top
            return top
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            raise it.exc(ValueError, "empty sequence")
    else:
        items = args
    best = items[0]
    bk = it.call(key, [best], {}) if key is not None else best
    for x in items[1:]:
        xk = it.call(key, [x], {}) if key is not None else x
        c = order(it, "Gt" if is_max else "Lt", xk, bk)
        if isinstance(c, bool):
            if c:
                best, bk = x, xk
        else:
            try:
                best, bk = merge(c, x, best), merge(c, xk, bk)
            except Unsupported:
                if it.ctx.branch(c):
                    best, bk = x, xk
    return best


def do_anyall(it: Any, v: Any, is_all: bool) -> Any:
    items = it.concrete_items(v)
    if items is not None:
        cs = [it.truth(x) for x in items]
        return simp(z_and(*cs) if is_all else z_or(*cs))
    seq = it.seq_of(v)
    j = bound(it.ctx, "q")
    t = zbool(it.truth(seq.get(j)))
    rng = z3.And(j >= 0, j < zint(seq.length))
    return z3.ForAll([j], z3.Implies(rng, t)) if is_all else z3.Exists([j], z3.And(rng, t))


def sort_content(it: Any, c: Any, key: Any, reverse: Any) -> Any:
    ctx = it.ctx
    if not isinstance(reverse, bool):
        raise Unsupported("symbolic reverse flag")
    if isinstance(c, list):
        if len(c) <= 1:
            return list(c)
        keys = [it.call(key, [x], {}) if key is not None else x for x in c]
        if all(not is_z3(k) and isinstance(k, (int, str, Fraction)) for k in keys):
            idx = sorted(range(len(c)), key=lambda i: keys[i], reverse=reverse)
            return [c[i] for i in idx]
        # insertion sort by forking
        out: list = []
        for x, k in zip(c, keys):
            p = len(out)
            for i in range(len(out)):
                if it.ctx.branch(zbool(order(it, "Gt" if reverse else "Lt", k, out[i][1]))):
                    p = i
                    break
            out.insert(p, (x, k))
        return [x for x, _ in out]
    seq = c
    if ctx.pure:
        raise Unsupported("sort in a quantified body")
    n = zint(seq.length)
    p = ctx.func("sort.p", z3.IntSort(), z3.IntSort())
    q = ctx.func("sort.q", z3.IntSort(), z3.IntSort())
    a, b = z3.Ints("srt?a srt?b")
    ctx.fact(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(p(a) >= 0, p(a) < n, q(p(a)) == a)),
                       patterns=[p(a)]))
    ctx.fact(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(q(a) >= 0, q(a) < n, p(q(a)) == a)),
                       patterns=[q(a)] + [t for t in leaf_terms(seq.get(a))[:1] if z3.is_app(t) and t.num_args()
                                          and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]))
    if key is None:
        kf = lambda i: seq.get(p(i))
    else:
        j, cases = body_cases(it, seq, lambda x: it.call(key, [x], {}), "k")
        raise_if_any(it, seq, j, cases)
        kv = merge_cases(cases)
        kf = lambda i: subst(kv, j, p(i))
    ka, kb = kf(a), kf(b)
    le = zbool(order(it, "GtE" if reverse else "LtE", ka, kb))
    same = zbool(py_eq(ka, kb))
    ctx.fact(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n),
                                          z3.And(le, z3.Implies(same, p(a) < p(b)))),
                       patterns=[z3.MultiPattern(p(a), p(b))]))
    return SymSeq(seq.length, lambda i: seq.get(p(zint(i))), seq.kind, ("sort", seq, p, q))


# ----------------------------------------------------------------------------- sets
def set_update(it: Any, s: PySet, v: Any) -> None:
    items, preds = s.content
    if isinstance(v, PySet):
        vi, vp = v.content
        s.set(it.ctx, items + vi, preds + vp)
        return
    conc = it.concrete_items(v)
    if conc is not None:
        s.set(it.ctx, items + conc, preds)
        return
    seq = it.seq_of(v)

    def pred(x: Any) -> Any:
        j = bound(it.ctx, "u")
        return exists_in(j, seq, x)

    s.set(it.ctx, items, preds + [pred])


# ----------------------------------------------------------------------------- formatting
def format_value(it: Any, v: Any, spec: Any, conversion: int = -1) -> Any:
    if conversion == 114:  # !r
        return (v, "!r")
    if isinstance(v, (bool, int)) and isinstance(spec, str):
        return format(v, spec)
    if isinstance(v, str):
        return format(v, spec) if isinstance(spec, str) else v
    if isinstance(v, FStr):
        return v
    if isinstance(v, Fraction):
        return format(float(v), spec)
    if isinstance(v, PathVal):
        return (v, "path")
    return (v, spec)


# ----------------------------------------------------------------------------- isinstance
def isinstance_(it: Any, v: Any, cls: Any) -> Any:
    if isinstance(v, OptVal):
        v = v.resolve(it)
    if isinstance(cls, tuple):
        return simp(z_or(*[isinstance_(it, v, c) for c in cls]))
    if cls is None:
        return v is None
    if isinstance(v, Entity) and hasattr(v.model, "isinstance"):
        return v.model.isinstance(it, v, cls)
    if isinstance(cls, BuiltinCls):
        t = cls.t
        if t is object:
            return True
        if v is None:
            return t is type(None)
        if isinstance(v, bool) or is_sym_bool(v):
            return t in (bool, int)
        if is_int_like(v):
            return t is int
        if isinstance(v, (Fraction, float)) or is_sym_real(v):
            return t is float
        if isinstance(v, (str, FStr)):
            return t is str
        if isinstance(v, tuple):
            return t is tuple
        if isinstance(v, PyList):
            return t is list
        if isinstance(v, PyDict):
            return t is dict
        if isinstance(v, PySet):
            return t in (set,)
        if isinstance(v, Model) and hasattr(v, "isinstance"):
            return v.isinstance(it, cls)
        if isinstance(v, Obj):
            return it.subclass(v.cls, cls)
        if hasattr(v, "isinstance_"):
            return v.isinstance_(it, cls)
        if isinstance(v, (PathVal, EnumMember, Ext)):
            return False
        if type(v).__name__ in ("ClassInfo", "BuiltinCls"):
            return t is type
        if type(v).__name__ in ("FuncVal", "BoundMethod", "Native"):
            return False
    if hasattr(cls, "mro"):
        if isinstance(v, Model) and hasattr(v, "isinstance"):
            return v.isinstance(it, cls)
        if isinstance(v, Obj):
            return it.subclass(v.cls, cls)
        if isinstance(v, EnumMember):
            return v.cls is cls
        if hasattr(v, "isinstance_"):
            return v.isinstance_(it, cls)
        return False
    if isinstance(cls, Ext):
        fn = EXT_ISINSTANCE.get(cls.name)
        if fn is not None:
            return fn(it, v)
        if isinstance(v, Model) and hasattr(v, "isinstance"):
            return v.isinstance(it, cls)
        if hasattr(v, "isinstance_"):
            return v.isinstance_(it, cls)
        if v is None or is_num(v) or isinstance(v, (str, FStr, EnumMember, float)):
            return False
        short = cls.name.split(".")[-1]
        if short in ("Mapping", "MutableMapping"):
            return isinstance(v, PyDict)
        if short in ("Sequence", "Iterable", "Collection"):
            return isinstance(v, (PyList, tuple, PyDict) if short != "Sequence" else (PyList, tuple))
        if short == "Path":
            return isinstance(v, PathVal)
        if short == "Tensor" and isinstance(v, (PyList, PyDict, tuple, PathVal, PySet)):
            return False
        if isinstance(v, (PyList, PyDict, tuple, PathVal, PySet)):
            return False
        if isinstance(v, Obj) and hasattr(v.cls, "mro"):
            return it.subclass(v.cls, cls)
    raise Unsupported(f"isinstance({v!r}, {cls!r})")


# ----------------------------------------------------------------------------- builtin classes
def call_builtin_class(it: Any, c: BuiltinCls, args: list, kwargs: dict) -> Any:
    from .interp import Iter, RangeVal

    t = c.t
    ctx = it.ctx
    if issubclass(t, BaseException):
        return Obj(ctx, c, {"args": tuple(args)})
    if t is range:
        a = args + []
        if len(a) == 1:
            return RangeVal(0, a[0], 1)
        if len(a) == 2:
            return RangeVal(a[0], a[1], 1)
        return RangeVal(*a)
    if t is int:
        if not args:
            return 0
        return to_int(it, args[0])
    if t is float:
        if not args:
            return Fraction(0)
        return to_float(it, args[0])
    if t is bool:
        return it.truth(args[0]) if args else False
    if t is str:
        if not args:
            return ""
        v = args[0]
        if isinstance(v, (str, FStr)):
            return v
        if isinstance(v, (int, bool)):
            return str(v)
        return FStr([format_value(it, v, "")]).simplify()
    if t is list:
        if not args:
            return PyList(ctx, [])
        items = it.concrete_items(args[0])
        return PyList(ctx, items if items is not None else it.seq_of(args[0]))
    if t is tuple:
        if not args:
            return ()
        items = it.concrete_items(args[0])
        if items is None:
            return PyList(ctx, it.seq_of(args[0]))
        return tuple(items)
    if t is dict:
        d: dict = {}
        if args:
            o = args[0]
            if isinstance(o, PyDict):
                if isinstance(o.content, SymMap):
                    r = PyDict(ctx, {})
                    r.content = o.content
                    return r
                d.update(o.content)
            else:
                for kv in it.concrete_items(o) or []:
                    k, v = it.unpack(kv, 2)
                    check_key(k)
                    d[k] = v
        d.update(kwargs)
        return PyDict(ctx, d)
    if t in (set, frozenset):
        s = PySet(ctx, [])
        if args:
            set_update(it, s, args[0])
            if isinstance(args[0], PyList) and args[0].sym:
                s.src = (s.content, args[0].content)
        return s
    if t is enumerate:
        start = args[1] if len(args) > 1 else kwargs.get("start", 0)
        items = it.concrete_items(args[0])
        if items is not None:
            return PyList(ctx, [(it.binop(ADD, start, i), x) for i, x in enumerate(items)])
        s = it.seq_of(args[0])
        return PyList(ctx, SymSeq(s.length, lambda i: (z3.simplify(zint(start) + zint(i)), s.get(i)),
                                  ("tuple", ("int",), s.kind)))
    if t is zip:
        cs = [it.concrete_items(a) for a in args]
        if all(x is not None for x in cs):
            return PyList(ctx, [tuple(x) for x in zip(*cs)])
        ss = [it.seq_of(a) for a in args]
        n = zint(ss[0].length)
        for s in ss[1:]:
            m = zint(s.length)
            n = n if n.eq(m) else z3.simplify(z3.If(n <= m, n, m))
        return PyList(ctx, SymSeq(n, lambda i: tuple(s.get(i) for s in ss), ("tuple",) + tuple(s.kind for s in ss)))
    if t is reversed:
        items = it.concrete_items(args[0])
        if items is not None:
            return PyList(ctx, items[::-1])
        s = it.seq_of(args[0])
        n = zint(s.length)
        return PyList(ctx, SymSeq(s.length, lambda i: s.get(z3.simplify(n - 1 - zint(i))), s.kind))
    if t is map:
        items = it.concrete_items(args[1])
        if items is not None:
            return PyList(ctx, [it.call(args[0], [x], {}) for x in items])
        s = it.seq_of(args[1])
        return PyList(ctx, map_filter(it, s, None, False, None, lambda x: it.call(args[0], [x], {})))
    if t is filter:
        f = args[0]
        pred = (lambda x: it.ctx.branch(it.truth(x if f is None else it.call(f, [x], {}))))
        items = it.concrete_items(args[1])
        if items is not None:
            return PyList(ctx, [x for x in items if pred(x)])
        s = it.seq_of(args[1])
        return PyList(ctx, map_filter(it, s, None, True, pred, lambda x: x, identity=True))
    if t is type:
        return type_of(it, args[0])
    if t is object:
        return Obj(ctx, c)
    if t is slice:
        from .interp import SliceVal
        return SliceVal(None, args[0], None) if len(args) == 1 else SliceVal(args[0], args[1], args[2] if len(args) > 2 else None)
    raise Unsupported(f"call of builtin {t.__name__}")


def type_of(it: Any, v: Any) -> Any:
    if isinstance(v, Obj) and v.cls is not None:
        return v.cls
    if isinstance(v, EnumMember):
        return v.cls
    if isinstance(v, bool) or is_sym_bool(v):
        return BuiltinCls(bool)
    if is_int_like(v):
        return BuiltinCls(int)
    if v is None:
        return BuiltinCls(type(None))
    for k, t in ((str, str), (FStr, str), (PyList, list), (PyDict, dict), (tuple, tuple), (Fraction, float), (float, float)):
        if isinstance(v, k):
            return BuiltinCls(t)
    if is_sym_real(v):
        return BuiltinCls(float)
    return Ext(f"?type:{type(v).__name__}")


def to_int(it: Any, v: Any) -> Any:
    if isinstance(v, bool):
        return int(v)
    if is_int_like(v):
        return zint(v) if is_sym_bool(v) else v
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, float):
        raise it.exc(OverflowError if v == v else ValueError)
    if is_sym_real(v):
        key = ("trunc", v.get_id())
        hit = it.ctx.memo.get(key)
        if hit is None:
            pos = it.ctx.known(v >= 0)
            if pos is None:
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            n = z3.ToInt(v) if pos else -z3.ToInt(-v)
            if not it.ctx.pure:  # a name for it keeps later terms small
                n0, n = n, it.ctx.int("trunc")
                it.ctx.fact(n == n0)
            hit = it.ctx.memo[key] = (v, n)  # v: kept alive for its id
        return hit[1]
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise it.exc(ValueError, "int") from None
    if isinstance(v, FStr):
        if len(v.parts) == 1 and is_int_like(v.parts[0][0]):
            return v.parts[0][0]
        lits = "".join(p for p in v.parts if isinstance(p, str))
        if any(not (c.isdigit() or c in "_+- ") for c in lits):
            raise it.exc(ValueError, "int")
    if isinstance(v, Entity) and hasattr(v.model, "to_int"):
        return v.model.to_int(it, v)
    if v is None or isinstance(v, (PyList, PyDict, tuple)):
        raise it.exc(TypeError, "int")
    if hasattr(v, "to_int"):
        return v.to_int(it)
    raise Unsupported(f"int({v!r})")


def to_float(it: Any, v: Any) -> Any:
    if isinstance(v, (float,)):
        return v
    if isinstance(v, (bool, int, Fraction)):
        return Fraction(v)
    if is_num(v):
        return zreal(v)
    if isinstance(v, str):
        try:
            return it.float_const(float(v))
        except ValueError:
            raise it.exc(ValueError, "float") from None
    if isinstance(v, Entity) and hasattr(v.model, "to_float"):
        return v.model.to_float(it, v)
    if hasattr(v, "to_float"):
        return v.to_float(it)
    if isinstance(v, FStr) and len(v.parts) == 1 and is_num(v.parts[0][0]):
        return zreal(v.parts[0][0])
    raise Unsupported(f"float({v!r})")


# ----------------------------------------------------------------------------- builtin functions
def distinct_count(ctx: Path, s: SymSeq) -> Any:
    """The number of different elements of a sequence."""
    n, c = zint(s.length), ctx.int("distinct")
    i, j, x, y = z3.Int("dc?i"), z3.Int("dc?j"), ctx.int("dup"), ctx.int("dup")
    eq = lambda a, b: zbool(py_eq(s.get(a), s.get(b)))
    ctx.fact(z3.And(c >= 0, c <= n, (c == 0) == (n == 0)))
    ctx.fact(z3.Implies(c == n, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(eq(i, j))))))
    ctx.fact(z3.Implies(c < n, z3.And(x >= 0, x < y, y < n, eq(x, y))))
    return c


def b_len(it: Any, args: list, kw: dict) -> Any:
    v = args[0]
    if isinstance(v, PyList):
        return seq_len(v)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, PyDict) and isinstance(v.content, dict):
        return len(v.content)
    if isinstance(v, PySet):
        items, preds = v.content
        if not preds and len(items) <= 1:
            return len(items)
        if not preds and all(not is_z3(x) for x in items):
            out: list = []
            for x in items:
                if not any(py_eq(x, y) is True for y in out):
                    out.append(x)
            return len(out)
        if v.src and v.src[0] is v.content:
            return distinct_count(it.ctx, v.src[1])
        raise Unsupported("len of a symbolic set")
    from .interp import RangeVal

    if isinstance(v, RangeVal):
        return it.seq_of(v).length
    if hasattr(v, "py_len"):
        return v.py_len(it)
    if isinstance(v, Entity) and hasattr(v.model, "py_len"):
        return v.model.py_len(it, v)
    if isinstance(v, Model):
        m = v.find_method("__len__")
        if m is not None:
            return m(it.ctx)
    if isinstance(v, Obj):
        return it.call_method(v, "__len__")
    raise Unsupported(f"len({v!r})")


def b_abs(it: Any, args: list, kw: dict) -> Any:
    v = args[0]
    if not is_z3(v):
        return abs(v)
    v = znum(v)
    return z3.If(v >= 0, v, -v)


def b_round(it: Any, args: list, kw: dict) -> Any:
    v = args[0]
    if len(args) > 1:
        raise Unsupported("round with digits")
    if is_int_like(v):
        return v
    if not is_z3(v):
        return round(v)
    f = z3.ToInt(v)
    d = v - z3.ToReal(f)
    half = z3.If(f % 2 == 0, f, f + 1)
    return z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1, half))


def b_sorted(it: Any, args: list, kw: dict) -> Any:
    items = it.concrete_items(args[0])
    c = items if items is not None else it.seq_of(args[0])
    return PyList(it.ctx, sort_content(it, c, kw.get("key"), kw.get("reverse", False)))


def b_getattr(it: Any, args: list, kw: dict) -> Any:
    from .interp import PyExc

    if len(args) == 3:
        try:
            return it.getattr(args[0], args[1])
        except PyExc as ex:
            if it.exc_matches(ex, BuiltinCls(AttributeError)):
                return args[2]
            raise
    return it.getattr(args[0], args[1])


def b_hasattr(it: Any, args: list, kw: dict) -> Any:
    from .interp import PyExc

    try:
        it.getattr(args[0], args[1])
        return True
    except PyExc as ex:
        if it.exc_matches(ex, BuiltinCls(AttributeError)):
            return False
        raise


def b_next(it: Any, args: list, kw: dict) -> Any:
    from .interp import Iter

    v = args[0]
    if isinstance(v, Iter):
        n = zint(v.seq.length)
        if it.ctx.branch(zint(v.pos) < n):
            x = v.seq.get(zint(v.pos))
            it.ctx.log_write(v, "pos")
            v.pos = z3.simplify(zint(v.pos) + 1)
            return x
        if len(args) > 1:
            return args[1]
        raise it.exc(StopIteration)
    if isinstance(v, PyList) and len(args) <= 2:
        # next() of a fresh generator expression: the first element
        n = seq_len(v)
        if it.ctx.branch(simp(zint(n) > 0)):
            return getitem(it, v, 0)
        if len(args) > 1:
            return args[1]
        raise it.exc(StopIteration)
    if isinstance(v, Model):
        m = v.find_method("__next__")
        if m is not None:
            return m(it.ctx)
    if isinstance(v, Obj):
        return it.call_method(v, "__next__")
    raise Unsupported(f"next({v!r})")


def b_iter(it: Any, args: list, kw: dict) -> Any:
    from .interp import Iter

    v = args[0]
    if isinstance(v, Iter):
        return v
    if isinstance(v, Model):
        m = v.find_method("__iter__")
        if m is not None:
            return m(it.ctx)
    if isinstance(v, Obj) and hasattr(v.cls, "find") and v.cls.find("__iter__"):
        return it.call_method(v, "__iter__")
    items = it.concrete_items(v)
    return Iter(it.ctx, items_to_seq(items) if items is not None else it.seq_of(v))


def b_divmod(it: Any, args: list, kw: dict) -> Any:
    return (it.binop(_ast.FloorDiv(), *args), it.binop(_ast.Mod(), *args))


BUILTIN_FUNCS: dict[str, Callable] = {
    "len": b_len,
    "abs": b_abs,
    "round": b_round,
    "sum": lambda it, a, k: do_sum(it, *a, **k),
    "min": lambda it, a, k: do_minmax(it, a, k, False),
    "max": lambda it, a, k: do_minmax(it, a, k, True),
    "any": lambda it, a, k: do_anyall(it, a[0], False),
    "all": lambda it, a, k: do_anyall(it, a[0], True),
    "sorted": b_sorted,
    "isinstance": lambda it, a, k: isinstance_(it, a[0], a[1]),
    "issubclass": lambda it, a, k: it.subclass(a[0], a[1]),
    "getattr": b_getattr,
    "hasattr": b_hasattr,
    "setattr": lambda it, a, k: it.setattr(a[0], a[1], a[2]),
    "next": b_next,
    "iter": b_iter,
    "divmod": b_divmod,
    "repr": lambda it, a, k: FStr([(a[0], "!r")]),
    "print": lambda it, a, k: None,
    "pow": lambda it, a, k: power(it, *a),
    "callable": lambda it, a, k: type(a[0]).__name__ in ("FuncVal", "BoundMethod", "Native", "ClassInfo", "BuiltinCls"),
    "id": lambda it, a, k: a[0].uid,
}


def ext_value(it: Any, e: Ext) -> Any:
    from .interp import Native

    if e.name in EXT_VALUES:
        return EXT_VALUES[e.name]
    if e.name.startswith("builtins."):
        f = BUILTIN_FUNCS.get(e.name[9:])
        if f is not None:
            return Native(f, e.name)
    return e


def call_ext(it: Any, e: Ext, args: list, kwargs: dict) -> Any:
    f = EXT_CALLS.get(e.name)
    if f is None:
        raise Unsupported(f"call of external {e.name}")
    it.ctx.trust(f"contract of {e.name}")
    return f(it, args, kwargs)


def inherited_attr(it: Any, o: Obj, name: str) -> Any:
    from .interp import Native

    if any(isinstance(c, Ext) and c.name in ("torch.nn.Module", "torch.nn.modules.module.Module") for c in o.cls.mro):
        if name in ("register_parameter", "register_buffer", "register_module", "add_module"):
            def register(it2: Any, a: list, k: dict) -> None:
                a = list(a) + [v for n, v in k.items() if n != "persistent"]
                it2.setattr(o, a[0], a[1])

            return Native(register, name)
    return None


def super_builtin(it: Any, s: Any, name: str) -> Any:
    from .interp import Native

    if name == "__init__":
        def init(it2: Any, a: list, k: dict) -> None:
            s.self_val.setf(it2.ctx, "args", tuple(a))

        return Native(init, "object.__init__")
    if name in ("__init_subclass__", "__enter__", "__exit__"):
        return Native(lambda it2, a, k: None, name)
    raise Unsupported(f"super().{name}")


# ----------------------------------------------------------------------------- methods of builtin values
def builtin_attr(it: Any, o: Any, name: str) -> Any:
    from .interp import FuncVal, Native

    ctx = it.ctx
    N = lambda f: Native(f, name)
    if isinstance(o, PyList):
        if name == "append":
            return N(lambda i, a, k: list_append(i, o, a[0]))
        if name == "extend":
            return N(lambda i, a, k: list_extend(i, o, a[0]))
        if name == "pop":
            def pop(i: Any, a: list, k: dict) -> Any:
                n = seq_len(o)
                if not i.ctx.branch(simp(zint(n) > 0)):
                    raise i.exc(IndexError, "pop from empty list")
                if a and not (isinstance(a[0], int) and a[0] == -1):
                    if isinstance(a[0], int) and a[0] == 0:
                        v = getitem(i, o, 0)
                        from .interp import SliceVal
                        o.set(i.ctx, slice_seq(i, o.content, SliceVal(1, None, None)))
                        return v
                    raise Unsupported("list.pop(index)")
                v = getitem(i, o, -1)
                from .interp import SliceVal
                o.set(i.ctx, slice_seq(i, o.content, SliceVal(None, -1, None)))
                return v

            return N(pop)
        if name == "insert":
            def insert(i: Any, a: list, k: dict) -> Any:
                if a[0] == 0 and isinstance(a[0], int):
                    o.set(i.ctx, concat([a[1]], o.content))
                elif not o.sym and isinstance(a[0], int):
                    c = list(o.content)
                    c.insert(a[0], a[1])
                    o.set(i.ctx, c)
                else:
                    raise Unsupported("list.insert")

            return N(insert)
        if name == "reverse":
            def reverse(i: Any, a: list, k: dict) -> None:
                from .interp import SliceVal
                if o.sym:
                    o.set(i.ctx, slice_seq(i, o.content, SliceVal(None, None, -1)))
                else:
                    o.set(i.ctx, o.content[::-1])

            return N(reverse)
        if name == "sort":
            return N(lambda i, a, k: o.set(i.ctx, sort_content(i, o.content, k.get("key"), k.get("reverse", False))))
        if name == "copy":
            return N(lambda i, a, k: PyList(i.ctx, o.content if o.sym else list(o.content)))
        if name == "clear":
            return N(lambda i, a, k: o.set(i.ctx, []))
        if name == "index":
            def index(i: Any, a: list, k: dict) -> Any:
                if o.sym:
                    s = o.content
                    v = a[0]
                    inn = contains(i, o, v)
                    if not i.ctx.branch(inn):
                        raise i.exc(ValueError, "not in list")
                    w = i.ctx.int("index")
                    j = z3.Int("idx?j")
                    i.ctx.assume(z_and(w >= 0, w < zint(s.length), py_eq(s.get(w), v)))
                    i.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z_not(py_eq(s.get(j), v)))))
                    return w
                for n, x in enumerate(o.content):
                    if i.ctx.branch(py_eq(x, a[0])):
                        return n
                raise i.exc(ValueError, "not in list")

            return N(index)
        if name == "count" and not o.sym:
            return N(lambda i, a, k: do_sum(i, PyList(i.ctx, [zint(py_eq(x, a[0])) for x in o.content])))
        if name == "remove":
            def remove(i: Any, a: list, k: dict) -> None:
                if o.sym:
                    raise Unsupported("list.remove")
                for n, x in enumerate(o.content):
                    if i.ctx.branch(py_eq(x, a[0])):
                        o.set(i.ctx, o.content[:n] + o.content[n + 1:])
                        return
                raise i.exc(ValueError, "not in list")

            return N(remove)
    if isinstance(o, PyDict):
        r = dict_attr(it, o, name)
        if r is not None:
            return r
    if isinstance(o, PySet):
        if name == "add":
            return N(lambda i, a, k: o.set(i.ctx, o.content[0] + [a[0]], o.content[1]))
        if name == "update":
            return N(lambda i, a, k: [set_update(i, o, x) for x in a] and None)
        if name in ("remove", "discard"):
            def rem(i: Any, a: list, k: dict) -> None:
                v = a[0]
                if name == "remove" and not i.ctx.branch(o.has(v)):
                    raise i.exc(KeyError, v)
                items, preds = o.content
                old = PySet(None, items, preds)
                if not preds and all(isinstance(py_eq(v, x), bool) for x in items):
                    o.set(i.ctx, [x for x in items if py_eq(v, x) is False], [])
                else:
                    o.set(i.ctx, [], [lambda w: z_and(z_not(py_eq(w, v)), old.has(w))])

            return N(rem)
        if name == "union":
            def union(i: Any, a: list, k: dict) -> Any:
                s = PySet(i.ctx, list(o.content[0]), list(o.content[1]))
                for x in a:
                    set_update(i, s, x)
                return s

            return N(union)
        if name == "copy":
            return N(lambda i, a, k: PySet(i.ctx, list(o.content[0]), list(o.content[1])))
    if isinstance(o, str):
        return N(lambda i, a, k: str_method(i, o, name, a, k))
    if isinstance(o, FStr):
        return N(lambda i, a, k: fstr_method(i, o, name, a, k))
    if isinstance(o, PathVal):
        return path_attr(it, o, name)
    if isinstance(o, tuple):
        if name == "index":
            def tindex(i: Any, a: list, k: dict) -> Any:
                for n, x in enumerate(o):
                    if i.ctx.branch(py_eq(x, a[0])):
                        return n
                raise i.exc(ValueError)

            return N(tindex)
    if is_num(o):
        if name == "bit_length" and isinstance(o, int):
            return N(lambda i, a, k: o.bit_length())
        if name == "is_integer":
            return N(lambda i, a, k: z3.IsInt(zreal(o)) if is_z3(o) else o == int(o))
        if name == "item":
            return N(lambda i, a, k: o)
    if isinstance(o, BuiltinCls):
        if name == "__name__":
            return o.name
        if o.t is dict and name == "fromkeys":
            return N(lambda i, a, k: PyDict(i.ctx, {x: (a[1] if len(a) > 1 else None) for x in i.concrete_items(a[0])}))
    if isinstance(o, FuncVal) and name == "__name__":
        return o.name
    if o is None or is_num(o):
        raise it.exc(AttributeError, name)
    raise Unsupported(f"attribute {name} of {o!r}")


def dict_attr(it: Any, o: PyDict, name: str) -> Any:
    from .interp import Native

    N = lambda f: Native(f, name)
    sym = isinstance(o.content, SymMap)
    if name == "get":
        def get(i: Any, a: list, k: dict) -> Any:
            d = a[1] if len(a) > 1 else k.get("default")
            if sym:
                return o.content.get(a[0]) if i.ctx.branch(o.content.has(a[0])) else d
            kk = dict_key(i, o, a[0])
            return d if kk is UNBOUND else o.content[kk]

        return N(get)
    if name == "pop":
        def pop(i: Any, a: list, k: dict) -> Any:
            if isinstance(o.content, SymMap):
                m = o.content
                if i.ctx.branch(m.has(a[0])):
                    v = m.get(a[0])
                    delitem(i, o, a[0])
                    return v
                if len(a) > 1:
                    return a[1]
                raise i.exc(KeyError, a[0])
            kk = dict_key(i, o, a[0])
            if kk is UNBOUND:
                if len(a) > 1:
                    return a[1]
                raise i.exc(KeyError, a[0])
            v = o.content[kk]
            delitem(i, o, kk)
            return v

        return N(pop)
    if sym:
        m = o.content
        if name in ("items", "keys", "values") and m.keys is not None:
            ks = m.keys
            if name == "keys":
                return N(lambda i, a, k: PyList(i.ctx, ks))
            f = (lambda x: m.get(ks.get(x))) if name == "values" else (lambda x: (ks.get(x), m.get(ks.get(x))))
            kd = m.kind if name == "values" else (("tuple", ks.kind, m.kind) if ks.kind and m.kind else None)
            return N(lambda i, a, k: PyList(i.ctx, SymSeq(ks.length, f, kd)))
        return None
    if name == "items":
        return N(lambda i, a, k: PyList(i.ctx, [(x, y) for x, y in o.content.items()]))
    if name == "keys":
        return N(lambda i, a, k: PyList(i.ctx, list(o.content)))
    if name == "values":
        return N(lambda i, a, k: PyList(i.ctx, list(o.content.values())))
    if name == "setdefault":
        def sd(i: Any, a: list, k: dict) -> Any:
            kk = dict_key(i, o, a[0])
            if kk is UNBOUND:
                setitem(i, o, a[0], a[1] if len(a) > 1 else None)
                return o.content[a[0]]
            return o.content[kk]

        return N(sd)
    if name == "update":
        def upd(i: Any, a: list, k: dict) -> None:
            d = dict(o.content)
            for x in a:
                if isinstance(x, PyDict) and isinstance(x.content, dict):
                    d.update(x.content)
                else:
                    items = i.concrete_items(x)
                    if items is None:
                        raise Unsupported("dict.update")
                    for kv in items:
                        kk, vv = i.unpack(kv, 2)
                        check_key(kk)
                        d[kk] = vv
            d.update(k)
            o.set(i.ctx, d)

        return N(upd)
    if name == "copy":
        return N(lambda i, a, k: PyDict(i.ctx, dict(o.content)))
    if name == "clear":
        return N(lambda i, a, k: o.set(i.ctx, {}))
    if name == "popitem":
        def popitem(i: Any, a: list, k: dict) -> Any:
            if not o.content:
                raise i.exc(KeyError)
            d = dict(o.content)
            r = d.popitem()
            o.set(i.ctx, d)
            return r

        return N(popitem)
    return None


def str_method(it: Any, s: str, name: str, a: list, k: dict) -> Any:
    if name == "join":
        items = it.concrete_items(a[0])
        if items is None:
            return FStr([(a[0], "join")])
        parts: list = []
        for n, x in enumerate(items):
            if n:
                parts.append(s)
            parts.append(x)
        return FStr(parts).simplify()
    if name == "format":
        return FStr([(PyList(None, [s] + a), "fmt")])
    if all(isinstance(x, (str, int, tuple, type(None))) for x in a) and not k:
        if not hasattr(s, name):
            raise it.exc(AttributeError, name)
        r = getattr(s, name)(*a)
        if isinstance(r, list):
            return PyList(it.ctx, r)
        if isinstance(r, bytes):
            raise Unsupported("bytes")
        return r
    raise Unsupported(f"str.{name}")


def fstr_method(it: Any, s: FStr, name: str, a: list, k: dict) -> Any:
    if name == "startswith" and isinstance(a[0], str):
        p = s.parts[0]
        if isinstance(p, str):
            if len(p) >= len(a[0]):
                return p.startswith(a[0])
            if not a[0].startswith(p):
                return False
    if name == "endswith" and isinstance(a[0], str):
        p = s.parts[-1]
        if isinstance(p, str):
            if len(p) >= len(a[0]):
                return p.endswith(a[0])
            if not a[0].endswith(p):
                return False
    raise Unsupported(f"str.{name} on a symbolic string")


def path_attr(it: Any, p: PathVal, name: str) -> Any:
    from .interp import Native

    N = lambda f: Native(f, name)
    if name == "joinpath":
        def join(i: Any, a: list, k: dict) -> Any:
            r = p
            for x in a:
                r = r.join(x)
            return r

        return N(join)
    if name == "parent":
        if not p.comps:
            return PathVal(("parent", p.base), ())
        return PathVal(p.base, p.comps[:-1])
    if name == "name" and p.comps:
        return p.comps[-1]
    if name in ("stem", "suffix") and p.comps:
        stem, suf = split_suffix(p.comps[-1])
        return stem if name == "stem" else suf
    if name == "with_suffix" and p.comps:
        def ws(i: Any, a: list, k: dict) -> Any:
            stem, suf = split_suffix(p.comps[-1])
            return PathVal(p.base, p.comps[:-1] + (FStr([stem, a[0]]).simplify(),))

        return N(ws)
    if name == "with_name" and p.comps:
        return N(lambda i, a, k: PathVal(p.base, p.comps[:-1] + (a[0],)))
    if name in ("expanduser", "resolve", "absolute"):
        return N(lambda i, a, k: p)
    raise Unsupported(f"Path.{name}")


def split_suffix(c: Any) -> tuple[Any, Any]:
    """stem/suffix of a final component (integer holes contain no dot)."""
    if isinstance(c, str):
        i = c.rfind(".")
        if 0 < i < len(c) - 1:
            return c[:i], c[i:]
        return c, ""
    if isinstance(c, Entity) and hasattr(c.model, "split_suffix"):
        return c.model.split_suffix(c)
    parts = list(c.parts)
    for n in range(len(parts) - 1, -1, -1):
        q = parts[n]
        if isinstance(q, str):
            i = q.rfind(".")
            if i > 0 or (i == 0 and n > 0):
                stem = FStr(parts[:n] + [q[:i]]).simplify()
                suf = FStr([q[i:]] + parts[n + 1:]).simplify()
                return stem, suf
        elif not is_int_like(q[0]):
            raise Unsupported("suffix of a symbolic name")
    return c, ""


from . import extlib  # noqa: E402,F401  (registers trusted external contracts)
