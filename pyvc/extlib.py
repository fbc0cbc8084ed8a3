"""Trusted contracts of external (non-repository) functions used by functions under contract."""
from __future__ import annotations

from fractions import Fraction
from typing import Any

import z3

from . import builtins_ as B
from .core import Unsupported, is_z3, z_and, z_not, z_or, zbool, zint, znum, zreal
from .values import Entity, Ext, Model, Obj, PathVal, PyDict, PyList, Sink, is_num, py_eq

R = z3.RealSort()
COS = z3.Function("cos", R, R)
SQRT = z3.Function("sqrt", R, R)
LOG = z3.Function("log", R, R)
EXP = z3.Function("exp", R, R)
LOGB = z3.Function("logb", R, R, R)
PI = z3.Real("pi")

B.EXT_VALUES["math.pi"] = PI
B.EXT_VALUES["math.inf"] = float("inf")
B.EXT_VALUES["torch.inf"] = float("inf")
B.EXT_VALUES["builtins.Ellipsis"] = Ext("builtins.Ellipsis")
B.EXT_VALUES["builtins.NotImplemented"] = Ext("builtins.NotImplemented")


@B.ext_call("math.cos")
def _cos(it: Any, a: list, k: dict) -> Any:
    x = zreal(a[0])
    r = COS(x)
    seen = it.ctx.memo.setdefault("angles", [])
    if not any(x.eq(y) for y in seen):
        seen.append(x)
    it.ctx.fact(z_and(r >= -1, r <= 1))
    it.ctx.fact(z_and(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")))
    it.ctx.fact(z_and(COS(z3.RealVal(0)) == 1, COS(PI) == -1))
    return r


@B.ext_call("math.sqrt")
def _sqrt(it: Any, a: list, k: dict) -> Any:
    x = zreal(a[0])
    if it.ctx.branch(x < 0):
        raise it.exc(ValueError, "math domain error")
    r = SQRT(x)
    it.ctx.fact(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


@B.ext_call("math.log")
def _log(it: Any, a: list, k: dict) -> Any:
    x = zreal(a[0])
    if it.ctx.branch(x <= 0):
        raise it.exc(ValueError, "math domain error")
    if len(a) == 1:
        r = LOG(x)
        it.ctx.fact(z3.And(z3.Implies(x > 1, r > 0), z3.Implies(x < 1, r < 0), z3.Implies(x == 1, r == 0)))
        it.ctx.fact(EXP(r) == x)
        it.ctx.memo.setdefault("logs", []).append(r)
        return r
    b = zreal(a[1])
    if it.ctx.branch(z_or(b <= 0, b == 1)):
        raise Unsupported("logarithm to a base that is not positive or is one")
    r = it.ctx.real("log")
    n = it.ctx.int("floor")
    it.ctx.fact(z3.And(r == LOGB(x, b), n == z3.ToInt(r)))
    it.ctx.memo.setdefault("floors", []).append(n)
    p0, p1 = B.POW(b, z3.ToReal(n)), B.POW(b, z3.ToReal(n) + 1)
    it.ctx.fact(z3.And(p1 == p0 * b, p0 > 0, z3.Implies(n == 0, p0 == 1)))
    it.ctx.fact(z3.Implies(b > 1, z3.And(p0 <= x, x < p1, (x >= 1) == (r >= 0))))
    it.ctx.fact(z3.Implies(b < 1, z3.And(p0 >= x, x > p1, (x <= 1) == (r >= 0))))
    return r


@B.ext_call("math.exp")
def _exp(it: Any, a: list, k: dict) -> Any:
    x = zreal(a[0])
    r = EXP(x)
    it.ctx.fact(z3.And(r > 0, z3.Implies(x < 0, r < 1), z3.Implies(x > 0, r > 1), z3.Implies(x == 0, r == 1)))
    for y in it.ctx.memo.get("logs", []):  # exp is increasing
        it.ctx.fact(z3.And((x >= y) == (r >= EXP(y)), (x <= y) == (r <= EXP(y))))
    return r


@B.ext_call("math.ceil")
def _ceil(it: Any, a: list, k: dict) -> Any:
    if not is_z3(a[0]):
        import math
        return math.ceil(a[0])
    return -z3.ToInt(-zreal(a[0]))


@B.ext_call("math.floor")
def _floor(it: Any, a: list, k: dict) -> Any:
    if not is_z3(a[0]):
        import math
        return math.floor(a[0])
    return z3.ToInt(zreal(a[0]))


@B.ext_call("math.isclose")
def _isclose(it: Any, a: list, k: dict) -> Any:
    x, y = zreal(a[0]), zreal(a[1])
    rel = zreal(k.get("rel_tol", Fraction(1, 10**9)))
    ab = zreal(k.get("abs_tol", Fraction(0)))
    mag = lambda v: z3.If(v >= 0, v, -v)
    mx = lambda p, q: z3.If(p >= q, p, q)
    return mag(x - y) <= mx(rel * mx(mag(x), mag(y)), ab)


class NullCM(Model):
    """A context manager with no effect on the modelled state."""

    def enter(self, ctx: Any) -> Any:
        return self.fields.get("value")

    def exit(self, ctx: Any, *a: Any) -> Any:
        return None


@B.ext_call("contextlib.nullcontext")
def _nullcontext(it: Any, a: list, k: dict) -> Any:
    return NullCM(it.ctx, None, value=a[0] if a else None)


@B.ext_call("torch.profiler.record_function", "torch.autograd.profiler.record_function",
            "torch.autograd.set_detect_anomaly", "torch.no_grad", "torch.inference_mode", "torch.autocast",
            "warnings.catch_warnings")
def _noeffect_cm(it: Any, a: list, k: dict) -> Any:
    return NullCM(it.ctx, None)


@B.ext_call("torch.cuda.empty_cache", "torch.cuda.synchronize", "gc.collect", "gc.freeze")
def _noop(it: Any, a: list, k: dict) -> Any:
    return None


@B.ext_call("collections.OrderedDict")
def _odict(it: Any, a: list, k: dict) -> Any:
    from .values import BuiltinCls

    return B.call_builtin_class(it, BuiltinCls(dict), a, k)


class DefaultDict(PyDict):
    """collections.defaultdict: a missing key that is read is added with the value of the factory."""

    factory: Any = None

    def getitem(self, it: Any, i: Any) -> Any:
        c = self.content
        if isinstance(c, dict):
            k = B.dict_key(it, self, i)
            if k is not B.UNBOUND:
                return c[k]
        elif it.ctx.branch(c.has(i)):
            return c.get(i)
        if self.factory is None:
            raise it.exc(KeyError, i)
        v = it.call(self.factory, [], {})
        B.setitem(it, self, i, v)
        return v


@B.ext_call("collections.defaultdict")
def _defaultdict(it: Any, a: list, k: dict) -> Any:
    d = DefaultDict(it.ctx, {})
    d.factory = a[0] if a else None
    if a[1:] or k:
        raise Unsupported("defaultdict(...)")
    return d


@B.ext_call("typing.cast")
def _cast(it: Any, a: list, k: dict) -> Any:
    return a[1]


@B.ext_call("typing.TypeVar", "typing.ParamSpec", "typing_extensions.TypeVar")
def _typevar(it: Any, a: list, k: dict) -> Any:
    return Ext("typing.TypeVar()")


@B.ext_call("pathlib.Path")
def _path(it: Any, a: list, k: dict) -> Any:
    if len(a) == 1 and isinstance(a[0], PathVal):
        return a[0]
    raise Unsupported("Path(...)")


class Device(Model):
    """torch.device: a type string and an optional index."""


@B.ext_call("torch.device")
def _device(it: Any, a: list, k: dict) -> Any:
    s = a[0] if a else k.get("type")
    if isinstance(s, Device):
        return s
    if not isinstance(s, str):
        raise Unsupported("torch.device of a symbolic string")
    t, _, i = s.partition(":")
    idx = a[1] if len(a) > 1 else k.get("index", int(i) if i else None)
    return Device(it.ctx, None, type=t, index=idx)


@B.ext_call("copy.deepcopy")
def _deepcopy(it: Any, a: list, k: dict) -> Any:
    def copy(v: Any) -> Any:
        if v is None or is_num(v) or isinstance(v, (str, PathVal)):
            return v
        if isinstance(v, tuple):
            return tuple(copy(x) for x in v)
        if isinstance(v, PyDict) and isinstance(v.content, dict):
            return PyDict(it.ctx, {x: copy(y) for x, y in v.content.items()})
        if isinstance(v, PyList) and not v.sym:
            return PyList(it.ctx, [copy(x) for x in v.content])
        if isinstance(v, Entity) and hasattr(v.model, "deepcopy"):
            return v.model.deepcopy(it, v)
        if hasattr(v, "deepcopy"):
            return v.deepcopy(it)
        raise Unsupported(f"deepcopy of {v!r}")

    return copy(a[0])


@B.ext_call("time.perf_counter", "time.monotonic", "time.time")
def _clock(it: Any, a: list, k: dict) -> Any:
    clock = getattr(it.ctx, "clock", None)
    return clock() if clock else it.ctx.real("clock")
