"""What a property file (props/<ID>.py) uses."""
from __future__ import annotations

from fractions import Fraction
from typing import Any, Callable

import z3

from .core import (FALSE, TRUE, HObj, Path, PathEnd, Unsupported, is_sym_bool, is_sym_int,
                   is_sym_real, is_z3, z_and, z_implies, z_not, z_or, zbool, zint, znum, zreal)
from .interp import BoundMethod, Frame, Interp, Native, PyExc
from .values import (BuiltinCls, Entity, EnumMember, Ext, FStr, Model, Obj, OptVal, PathVal, PyDict, PyList,
                     PySet, Sink, SymMap, SymSeq, fresh_seq, kind_of, merge, opt_int, py_eq)

REGISTRY: list["Unit"] = []


class Unit:
    def __init__(self, name: str, fn: Callable[[Path, Interp], None], *, about: str = "",
                 assumes: list[str] | None = None, max_paths: int = 6000, max_secs: float = 240.0,
                 timeout_ms: int = 15000, tier: str = "quick", optional: bool = False) -> None:
        self.name, self.fn, self.about = name, fn, about
        self.assumes = assumes or []
        self.max_paths, self.max_secs, self.timeout_ms, self.tier = max_paths, max_secs, timeout_ms, tier
        self.optional = optional


def unit(name: str, **kw: Any) -> Callable:
    def deco(fn: Callable) -> Callable:
        REGISTRY.append(Unit(name, fn, **{"about": (fn.__doc__ or "").strip(), **kw}))
        return fn

    return deco


def int_at(seq: Any) -> Callable:
    """Index function of an integer sequence; an empty one is total, too (its elements are never in range)."""
    if isinstance(seq.length, int) and seq.length == 0:
        return lambda i: z3.IntVal(0)
    return lambda i: zint(seq.get(i))


class Filtered:
    """Ghost vocabulary for 'the admitted ones among 0..n-1, in order': rank(i) admitted before i, at(j) the j-th."""

    def __init__(self, ctx: Path, tag: str, n: Any, ok: Callable) -> None:
        I = z3.IntSort()
        self.ctx, self.ok, self.n = ctx, ok, zint(n)
        self.rank, self.at = ctx.func(f"{tag}.rank", I, I), ctx.func(f"{tag}.at", I, I)
        i = z3.Int("fi")
        ctx.fact(self.rank(0) == 0)
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= self.n), z3.And(
            self.rank(i) >= 0, self.rank(i) <= i)), patterns=[self.rank(i)]))

    def unfold(self, k: Any) -> None:
        k = zint(k)
        ok = zbool(self.ok(k))
        self.ctx.fact(z3.Implies(k >= 0, z3.And(self.rank(k + 1) == self.rank(k) + z3.If(ok, 1, 0),
                                                z3.Implies(ok, self.at(self.rank(k)) == k))))

    def inv(self, k: Any, length: Any, elem: Callable, spec: Callable) -> dict:
        """The list so far = [spec(i) for i < k if ok(i)]."""
        k, length = zint(k), zint(length)
        self.unfold(k)
        self.unfold(k - 1)
        i, j = z3.Ints("fi fj")
        a = self.at(j)
        return {
            "length": length == self.rank(k),
            "elements": z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < length), z3.And(
                a >= 0, a < k, zbool(self.ok(a)), self.rank(a) == j, zbool(py_eq(elem(j), spec(a))))),
                patterns=[self.at(j)] + app_pattern(elem(j))),
            "complete": z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k, zbool(self.ok(i))), z3.And(
                self.rank(i) < length, zbool(py_eq(elem(self.rank(i)), spec(i))))),
                patterns=[self.rank(i)] + app_pattern(spec(i))),
        }


def app_pattern(t: Any) -> list:
    return [t] if is_z3(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else []


def induct(ctx: Any, what: str, n: Any, p: Callable) -> None:
    """Proves p(i) for 0 <= i <= n by induction and makes p(n) a fact."""
    k = ctx.int("ind", lo=0)
    ctx.ensure(f"{what} (base)", p(z3.IntVal(0)))
    ctx.ensure(f"{what} (step)", z3.Implies(z3.And(k >= 0, k < zint(n), zbool(p(k))), zbool(p(k + 1))))
    ctx.fact(z3.Implies(zint(n) >= 0, zbool(p(zint(n)))))
