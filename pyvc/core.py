"""Path exploration, obligations and solver back ends of the VC generator.

A *unit* is a Python callable ``unit(ctx)`` that builds a symbolic pre-state, runs real code
through the interpreter (interp.py) and states postconditions with ``ctx.ensure``.  The unit is
re-executed once per path: every symbolic branch consults the decision prefix of the path being
replayed and, beyond it, the solver.  The heap is therefore plain Python objects of the path.
"""
from __future__ import annotations

import hashlib
import os
import subprocess
import tempfile
import os
import sys
import time
from fractions import Fraction
from typing import Any, Callable

import z3


# z3's own helpers go through several Python layers per call; these are the same tests.
_Z3_TRUE, _Z3_FALSE = z3.Z3_L_TRUE, z3.Z3_L_FALSE
_gbv = z3.Z3_get_bool_value


def _is_true(a: Any) -> bool:
    return isinstance(a, z3.BoolRef) and _gbv(a.ctx.ref(), a.ast) == _Z3_TRUE


def _is_false(a: Any) -> bool:
    return isinstance(a, z3.BoolRef) and _gbv(a.ctx.ref(), a.ast) == _Z3_FALSE


z3.is_true, z3.is_false = _is_true, _is_false
z3.z3.is_true, z3.z3.is_false = _is_true, _is_false
z3.z3.Z3_DEBUG = False
_SIMP: dict[int, tuple] = {}


def simp_cached(t: Any) -> Any:
    hit = _SIMP.get(t.get_id())
    if hit is not None:
        return hit[1]
    r = z3.simplify(t)
    _SIMP[t.get_id()] = (t, r)  # keeps t alive: its id stays its own
    return r


class PathEnd(Exception):
    """The current path is cut (loop back edge reached, or assumption infeasible)."""


class Unsupported(Exception):
    """The code uses something outside the verified subset."""


class Budget(Exception):
    """Too many paths / too much time."""


# ----------------------------------------------------------------------------- heap objects
class HObj:
    """Any mutable heap location holder.  ``uid`` orders allocation within a path."""

    uid: int = -1

    def __init__(self, ctx: "Path | None") -> None:
        if ctx is not None:
            self.uid = ctx.new_uid()


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_z3(v: Any) -> bool:
    return isinstance(v, z3.ExprRef)


def is_sym_int(v: Any) -> bool:
    return isinstance(v, z3.ArithRef) and v.is_int()


def is_sym_real(v: Any) -> bool:
    return isinstance(v, z3.ArithRef) and v.is_real()


def is_sym_bool(v: Any) -> bool:
    return isinstance(v, z3.BoolRef)


def zbool(v: Any) -> z3.BoolRef:
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, z3.BoolRef):
        return v
    raise Unsupported(f"not a boolean term: {v!r}")


def zint(v: Any) -> z3.ArithRef:
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_sym_int(v):
        return v
    if is_sym_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an integer term: {v!r}")


def znum(v: Any) -> z3.ArithRef:
    if isinstance(v, Fraction):
        return z3.RealVal(f"{v.numerator}/{v.denominator}")
    if is_sym_real(v):
        return v
    return zint(v)


def zreal(v: Any) -> z3.ArithRef:
    n = znum(v)
    if n.is_int():
        if z3.is_int_value(n):
            return z3.RealVal(n.as_long())
        return z3.ToReal(n)
    return n


def z_and(*xs: Any) -> z3.BoolRef:
    ys = [zbool(x) for x in xs]
    ys = [y for y in ys if not z3.is_true(y)]
    if not ys:
        return TRUE
    if any(z3.is_false(y) for y in ys):
        return FALSE
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def z_or(*xs: Any) -> z3.BoolRef:
    ys = [zbool(x) for x in xs]
    ys = [y for y in ys if not z3.is_false(y)]
    if not ys:
        return FALSE
    if any(z3.is_true(y) for y in ys):
        return TRUE
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def z_not(x: Any) -> z3.BoolRef:
    b = zbool(x)
    if z3.is_true(b):
        return FALSE
    if z3.is_false(b):
        return TRUE
    return z3.Not(b)


def z_implies(a: Any, b: Any) -> z3.BoolRef:
    return z_or(z_not(a), b)


def concretize_term(t: Any) -> Any:
    """Fold literals back to Python values."""
    if isinstance(t, z3.BoolRef):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    elif z3.is_int_value(t):
        return t.as_long()
    elif z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t


# ----------------------------------------------------------------------------- solver
class Stats:
    def __init__(self) -> None:
        self.queries = 0
        self.time = 0.0
        self.by_backend: dict[str, int] = {}


class Solver:
    def __init__(self, timeout_ms: int = 15000, feas_timeout_ms: int = 3000) -> None:
        self.timeout_ms = timeout_ms
        self.feas_timeout_ms = feas_timeout_ms
        self.cache: dict[str, Any] = {}
        self.quant: dict[int, Any] = {}
        self.stats = Stats()
        self.use_cvc5 = True

    def has_quant(self, a: Any) -> bool:
        hit = self.quant.get(a.get_id())
        if hit is None:
            stack, seen, r = [a], set(), False
            while stack and not r:
                t = stack.pop()
                if z3.is_quantifier(t):
                    r = True
                elif t.get_id() not in seen:
                    seen.add(t.get_id())
                    stack.extend(t.children())
            hit = self.quant[a.get_id()] = (r, a)
        return hit[0]

    def check(self, assertions: list[z3.BoolRef], timeout_ms: int, mbqi: bool = True) -> tuple[str, Any]:
        for a in assertions:
            if z3.is_false(a):
                return "unsat", None
        s = z3.Solver()
        if not mbqi:
            s.set("smt.mbqi", False)
        s.set("timeout", timeout_ms)
        s.set("random_seed", 7)
        s.add(*assertions)
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        if r == z3.sat:
            return "sat", s.model()
        if r == z3.unsat:
            return "unsat", None
        return "unknown", None

    def feasible(self, assertions: list[z3.BoolRef]) -> str:
        # z3 terms are hash-consed: equal ids mean equal terms as long as they are alive, and
        # the cache entry keeps them alive.
        key = tuple(a.get_id() for a in assertions)
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        # With quantifiers a model is rarely found: only refutations by instantiation are looked for.
        if any(self.has_quant(a) for a in assertions):
            r, _ = self.check(assertions, 250, mbqi=False)
        else:
            r, _ = self.check(assertions, self.feas_timeout_ms)
        self.cache[key] = (r, list(assertions))
        return r

    def prove(self, hyps: list[z3.BoolRef], goal: z3.BoolRef) -> tuple[str, Any, str, float]:
        """Returns (status, model, backend, seconds); status in ok / sat / unknown."""
        t0 = time.time()
        if z3.is_true(goal):
            return "ok", None, "syntactic", 0.0
        asserts = hyps + [z_not(goal)]
        if any(self.has_quant(a) for a in asserts):
            r, m = self.check(asserts, min(4000, self.timeout_ms), mbqi=False)
            if r == "unsat":
                return "ok", None, "z3", time.time() - t0
        r, m = self.check(asserts, self.timeout_ms)
        if r == "unsat":
            return "ok", None, "z3", time.time() - t0
        if r == "sat":
            return "sat", m, "z3", time.time() - t0
        if self.use_cvc5:
            r2 = self._cvc5(asserts)
            if r2 == "unsat":
                return "ok", None, "cvc5", time.time() - t0
        return "unknown", None, "z3+cvc5", time.time() - t0

    def _cvc5(self, asserts: list[z3.BoolRef]) -> str:
        s = z3.Solver()
        s.add(*asserts)
        text = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(text)
            name = f.name
        t0 = time.time()
        try:
            out = subprocess.run(
                ["cvc5", f"--tlimit={self.timeout_ms}", "--full-saturate-quant", name],
                capture_output=True, text=True, timeout=self.timeout_ms / 1000 + 5,
            ).stdout.strip().splitlines()
        except Exception:
            out = []
        finally:
            os.unlink(name)
            self.stats.time += time.time() - t0
            self.stats.queries += 1
        return out[0] if out and out[0] in ("sat", "unsat") else "unknown"


# ----------------------------------------------------------------------------- obligations
class Obligation:
    __slots__ = ("unit", "name", "path", "status", "backend", "secs", "cex", "where", "goal")

    def __init__(self, unit, name, path, status, backend, secs, cex=None, where="", goal=""):
        self.unit, self.name, self.path, self.status = unit, name, path, status
        self.backend, self.secs, self.cex, self.where, self.goal = backend, secs, cex, where, goal


class UnitResult:
    def __init__(self, name: str) -> None:
        self.name = name
        self.obligations: list[Obligation] = []
        self.unsupported: list[str] = []
        self.paths = 0
        self.passes = 0
        self.covers: dict[str, str] = {}
        self.required_covers: set[str] = set()
        self.secs = 0.0
        self.functions: set[str] = set()
        self.lines: set[tuple[str, int]] = set()
        self.trusted: set[str] = set()
        self.contracts_used: set[str] = set()
        self.loops: dict[str, list[str]] = {}
        self.stats: dict[str, Any] = {}

    @property
    def ok(self) -> bool:
        return (
            not self.unsupported
            and bool(self.obligations)
            and all(o.status == "ok" for o in self.obligations)
            and all(self.covers.get(c) == "sat" for c in self.required_covers)
        )


class LoopInfo:
    """Inference state of one loop (per entry path)."""

    def __init__(self) -> None:
        self.havoc: dict[Any, set] = {}  # location key -> set of kinds
        self.dropped: set[str] = set()
        self.alive: set[str] = set()
        self.where = ""


class Explorer:
    def __init__(self, name: str, unit: Callable[["Path"], None], world: Any, *,
                 solver: Solver | None = None, max_paths: int = 4000,
                 max_secs: float = 300.0, max_passes: int = 30) -> None:
        self.name = name
        self.unit = unit
        self.world = world
        self.solver = solver or Solver()
        self.loops: dict[Any, LoopInfo] = {}
        self.dirty = False
        self.infer = False
        self.proved: dict[Any, Any] = {}
        self.houdini_cache: dict[Any, Any] = {}
        self.max_paths = max_paths
        self.max_secs = max_secs
        self.max_passes = max_passes
        self.result = UnitResult(name)

    def run(self) -> UnitResult:
        t0 = time.time()
        res = self.result
        self.t0 = t0
        try:
            # Pass 0 proves obligations right away; it stands if no loop had to be cut.
            for n in range(self.max_passes):
                self.dirty = False
                self.infer = n > 0
                res.passes = n + 1
                self._pass(first=(n == 0))
                if not self.loops or not self.dirty:
                    break
            else:
                raise Unsupported("loop invariant inference did not converge")
            self.infer = False
            if self.loops:
                res.obligations.clear()
                self.proved.clear()
                self._pass(first=False)
            if self.dirty:
                raise Unsupported("loop invariants not stable in final pass")
        except (Unsupported, Budget) as ex:
            res.unsupported.append(f"{type(ex).__name__}: {ex}")
        except RecursionError:
            res.unsupported.append("RecursionError in symbolic execution")
        except z3.Z3Exception as ex:
            res.unsupported.append(f"Z3Exception: {ex}")
        for info in self.loops.values():
            if os.environ.get("PYVC_DEBUG"):
                print(f"loop {info.where}: kept {sorted(info.alive - info.dropped)}\n  dropped {sorted(info.dropped)}",
                      file=sys.stderr)
            res.loops.setdefault(info.where, []).extend(sorted(info.alive - info.dropped))
        for k in res.loops:
            res.loops[k] = sorted(set(res.loops[k]))
        res.secs = time.time() - t0
        res.stats = {"queries": self.solver.stats.queries, "solver_secs": self.solver.stats.time}
        return res

    def _pass(self, first: bool) -> None:
        stack: list[list] = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.max_paths:
                raise Budget(f"more than {self.max_paths} paths")
            if time.time() - self.t0 > self.max_secs:
                raise Budget(f"more than {self.max_secs} s")
            ctx = Path(self, prefix)
            try:
                self.unit(ctx)
            except PathEnd:
                pass
            finally:
                stack.extend(ctx.pending)
        self.result.paths = n


class Path:
    """One path of one unit."""

    def __init__(self, ex: Explorer, prefix: list) -> None:
        self.ex = ex
        self.world = ex.world
        self.prefix = list(prefix)
        self.decisions: list = []
        self.pending: list[list] = []
        self.pc: list[z3.BoolRef] = []
        self.facts: list[z3.BoolRef] = []
        self.fact_ids: set[int] = set()
        self.uid_counter = 0
        self.names: dict[str, int] = {}
        self.made: set[str] = set()
        self.inputs: dict[str, Any] = {}
        self.writes: list[tuple[Any, Any]] = []
        self.contracts: dict[str, Callable] = {}
        self.call_stack: list[Any] = []
        self.loop_cands: list[Callable] = []
        self.events: Any = None
        self.pure = 0
        self.memo: dict[Any, Any] = {}
        self.roots: list = []
        self.elem_makers: dict[str, Any] = {}
        self.class_models: dict[str, Any] = {}
        self.merge_calls: list[str] = []

    # -- bookkeeping
    def new_uid(self) -> int:
        self.uid_counter += 1
        return self.uid_counter

    def log_write(self, obj: HObj, key: Any) -> None:
        self.writes.append((obj, key))

    def fresh_name(self, hint: str) -> str:
        n = self.names.get(hint, 0)
        self.names[hint] = n + 1
        r = hint if n == 0 else f"{hint}!{n}"
        self.made.add(r)
        return r

    # -- fresh terms
    def _no_fresh(self) -> None:
        if self.pure:
            # The symbol would be shared by all instances of the quantified body.
            raise Unsupported("fresh symbol inside a quantified body")

    def int(self, name: str, lo: int | None = None, hi: int | None = None, inp: bool = False):
        self._no_fresh()
        t = z3.Int(self.fresh_name(name))
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        if inp:
            self.inputs[name] = t
        return t

    def real(self, name: str, lo: Any = None, hi: Any = None, inp: bool = False):
        self._no_fresh()
        t = z3.Real(self.fresh_name(name))
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        if inp:
            self.inputs[name] = t
        return t

    def bool(self, name: str, inp: bool = False):
        self._no_fresh()
        t = z3.Bool(self.fresh_name(name))
        if inp:
            self.inputs[name] = t
        return t

    def func(self, name: str, *sorts):
        self._no_fresh()
        return z3.Function(self.fresh_name(name), *sorts)

    # -- assumptions and branching
    def assume(self, cond: Any) -> None:
        c = zbool(cond)
        c = simp_cached(c) if not z3.is_quantifier(c) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)

    def fact(self, cond: Any) -> None:
        """A definitional axiom (valid for the fresh symbols it constrains)."""
        c = zbool(cond)
        if c.get_id() not in self.fact_ids:
            self.fact_ids.add(c.get_id())
            self.facts.append(c)

    def hyps(self) -> list[z3.BoolRef]:
        return self.facts + self.pc

    def branch(self, cond: Any) -> bool:
        if isinstance(cond, bool):
            return cond
        c = simp_cached(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.pc.append(c if d else z_not(c))
            return d
        h = self.hyps()
        t = self.ex.solver.feasible(h + [c])
        if t == "unsat":
            self.decisions.append(False)
            self.pc.append(z_not(c))
            return False
        f = self.ex.solver.feasible(h + [z_not(c)])
        if f != "unsat":
            self.pending.append(self.decisions + [False])
        self.decisions.append(True)
        self.pc.append(c)
        return True

    def choose(self, n: int, label: str = "") -> int:
        """Nondeterministic choice of 0..n-1 (all alternatives are explored)."""
        if n == 1:
            return 0
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d
        for k in range(n - 1, 0, -1):
            self.pending.append(self.decisions + [k])
        self.decisions.append(0)
        return 0

    def alt(self, name: str, options: list) -> Any:
        """Case split of an input over given alternatives (recorded as input)."""
        k = self.choose(len(options), name)
        self.inputs[name] = ("case", k)
        return options[k]

    def is_valid(self, cond: Any) -> bool:
        c = zbool(cond)
        if z3.is_true(c):
            return True
        return self.ex.solver.feasible(self.hyps() + [z_not(c)]) == "unsat"

    def known(self, cond: Any) -> bool | None:
        """Whether the condition is decided by the quantifier-free part of the path condition."""
        c = simp_cached(zbool(cond))
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        h = [a for a in self.hyps() if not self.ex.solver.has_quant(a)]
        if self.ex.solver.feasible(h + [z_not(c)]) == "unsat":
            return True
        return False if self.ex.solver.feasible(h + [c]) == "unsat" else None

    # -- local exploration (for bodies of comprehensions / quantifiers)
    def summarize(self, thunk: Callable[[], Any]) -> list[tuple[z3.BoolRef, str, Any]]:
        from .interp import PyExc

        saved = (self.prefix, self.decisions, self.pending)
        n0 = len(self.pc)
        w0 = len(self.writes)
        names0 = dict(self.names)
        uid0 = self.uid_counter
        out = []
        work: list[list] = [[]]
        self.pure += 1
        try:
            while work:
                self.prefix = work.pop()
                self.decisions = []
                self.pending = []
                memo0 = dict(self.memo)
                try:
                    v = thunk()
                    out.append((z_and(*self.pc[n0:]), "val", v))
                except PyExc as ex:
                    out.append((z_and(*self.pc[n0:]), "exc", ex))
                except PathEnd:
                    pass
                self.memo = memo0
                for obj, key in self.writes[w0:]:
                    if obj.uid <= uid0:
                        raise Unsupported(f"side effect in a comprehension or quantified body: {type(obj).__name__}.{key}")
                work.extend(self.pending)
                del self.pc[n0:]
                if len(out) > 200:
                    raise Unsupported("too many paths in a pure expression")
        finally:
            self.pure -= 1
            self.prefix, self.decisions, self.pending = saved
            del self.pc[n0:]
            del self.writes[w0:]
        return out

    # -- obligations
    def ensure(self, name: str, cond: Any, where: str = "") -> None:
        """An obligation: must hold on this path."""
        if self.ex.infer:
            return
        goal = zbool(cond)
        gid = (goal.get_id(), tuple(a.get_id() for a in self.facts), tuple(a.get_id() for a in self.pc))
        hit = self.ex.proved.get(gid)
        if hit is not None and name in hit[1]:
            return  # the same obligation on a shared prefix of another path
        status, model, backend, secs = self.ex.solver.prove(self.hyps(), goal)
        if status == "ok":
            if hit is None:
                hit = self.ex.proved[gid] = (self.hyps() + [goal], set())
            hit[1].add(name)
        cex = None
        if status == "sat":
            cex = self.extract(model)
        self.ex.result.obligations.append(
            Obligation(self.ex.name, name, self.path_id(), status, backend, secs, cex, where,
                       str(goal)[:400] if status != "ok" else "")
        )

    def ensure_all(self, goals: dict[str, Any]) -> None:
        """Many obligations at one point: proved together, separately only if that fails."""
        if self.ex.infer or not goals:
            return
        live = {n: zbool(g) for n, g in goals.items()}
        open_ = {n: g for n, g in live.items() if not z3.is_true(g)}
        if len(open_) > 1:
            status, _, backend, secs = self.ex.solver.prove(self.hyps(), z_and(*open_.values()))
            if status == "ok":
                for n in open_:
                    self.ex.result.obligations.append(Obligation(
                        self.ex.name, n, self.path_id(), "ok", backend, secs / len(open_)))
                return
        for n, g in open_.items():
            self.ensure(n, g)

    def houdini(self, cands: dict[str, Any]) -> set[str]:
        """The candidates that do not follow here (each refuted by some model)."""
        bad: set[str] = set()
        live = {n: simp_cached(zbool(t)) for n, t in cands.items()}
        live = {n: t for n, t in live.items() if not z3.is_true(t)}
        key = (tuple(a.get_id() for a in self.hyps()), tuple((n, t.get_id()) for n, t in live.items()))
        hit = self.ex.houdini_cache.get(key)
        if hit is not None:
            return set(hit[0])
        keep = (self.hyps(), dict(live))
        while live:
            hyps = self.hyps()
            quant = any(self.ex.solver.has_quant(a) for a in [*hyps, *live.values()])
            r, m = self.ex.solver.check(hyps + [z_not(z_and(*live.values()))], 2000 if quant else 8000,
                                        mbqi=not quant)
            if r == "unsat":
                break
            gone = set()
            if r == "sat":
                for n, t in live.items():
                    if z3.is_false(m.eval(t, model_completion=True)):
                        gone.add(n)
            if not gone:  # undecided together: one by one
                for n, t in live.items():
                    if not self.is_valid(t) and self.ex.solver.check(hyps + [z_not(t)], 600, mbqi=False)[0] != "unsat":
                        gone.add(n)
                bad |= gone
                break
            bad |= gone
            live = {n: t for n, t in live.items() if n not in gone}
        self.ex.houdini_cache[key] = (frozenset(bad), keep)
        return bad

    def fail(self, name: str, why: str) -> None:
        """Reaching this point must be impossible."""
        self.ensure(name, False, why)

    def cover(self, name: str) -> None:
        """Vacuity guard: some path must reach this point with a satisfiable condition."""
        res = self.ex.result
        res.required_covers.add(name)
        if self.ex.infer or res.covers.get(name) == "sat":
            return
        hyps, solver = self.hyps(), self.ex.solver
        qf = [a for a in hyps if not solver.has_quant(a)]
        if len(qf) == len(hyps):
            res.covers[name] = solver.check(hyps, 5000)[0]
        elif solver.check(hyps, 2000)[0] == "unsat":
            res.covers[name] = "unsat"
        else:  # quantified facts: no contradiction found, and the quantifier-free part has a model
            res.covers[name] = solver.check(qf, 5000)[0]

    def require_cover(self, *names: str) -> None:
        self.ex.result.required_covers.update(names)

    def trust(self, what: str) -> None:
        self.ex.result.trusted.add(what)

    def path_id(self) -> str:
        s = "".join(str(int(d)) for d in self.decisions)
        return s if len(s) <= 40 else s[:24] + "~" + hashlib.sha1(s.encode()).hexdigest()[:8]

    # -- counterexample extraction
    def extract(self, model: Any) -> dict[str, Any]:
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = self._extract(model, v)
            except Exception as ex:  # pragma: no cover
                out[k] = f"?{ex}"
        return out

    def _extract(self, model: Any, v: Any) -> Any:
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "case":
            return v[1]
        if callable(v) and not is_z3(v):
            return v(lambda t: self._extract(model, t))
        if is_z3(v):
            r = concretize_term(model.eval(v, model_completion=True))
            if isinstance(r, Fraction):
                return float(r)
            if isinstance(r, (bool, int)):
                return r
            if z3.is_algebraic_value(r):
                return float(r.approx(20).as_fraction())
            return str(r)
        if isinstance(v, (list, tuple)):
            return [self._extract(model, x) for x in v]
        if isinstance(v, dict):
            return {str(k): self._extract(model, x) for k, x in v.items()}
        if isinstance(v, Fraction):
            return float(v)
        if v is None or isinstance(v, (bool, int, str, float)):
            return v
        return repr(v)
