"""Symbolic interpreter over the AST of /repo's functions (one path at a time)."""
from __future__ import annotations

import ast
import fnmatch
from fractions import Fraction
from typing import Any, Callable

import z3

from .core import (FALSE, TRUE, HObj, LoopInfo, Obligation, Path, PathEnd, Unsupported, is_sym_bool,
                   is_sym_int, is_sym_real, is_z3, z_and, z_implies, z_not, z_or, zbool, zint,
                   znum, zreal)
from .values import (UNBOUND, BuiltinCls, Entity, EnumMember, Ext, FStr, Model, Obj, OptVal, PathVal,
                     Poison, PyDict, PyList, PySet, Sink, SymMap, SymSeq, Unbound, as_seq,
                     fresh_getter, fresh_of_kind, fresh_seq, is_int_like, is_num, items_to_seq,
                     kind_content, kind_of, kinds_join, merge, py_eq, simp, split_path)
from .world import EXT_EXC, ClassInfo, ModuleInfo, World


class PyExc(Exception):
    """A Python-level exception of the interpreted program."""

    def __init__(self, obj: Obj, where: str = "") -> None:
        super().__init__(str(obj))
        self.obj = obj
        self.where = where

    @property
    def cls(self) -> Any:
        return self.obj.cls

    def __repr__(self) -> str:
        return f"PyExc({self.obj.cls})"


class _Return(Exception):
    def __init__(self, value: Any) -> None:
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Frame(HObj):
    def __init__(self, ctx: Path, module: ModuleInfo, parent: "Frame | None", func: "FuncVal | None"):
        super().__init__(ctx)
        self.vars: dict[str, Any] = {}
        self.module = module
        self.parent = parent
        self.func = func
        self.nonlocals: set[str] = set()
        self.on_yield: Callable[[Any], Any] | None = None
        self.cls: Any = func.cls if func is not None else (parent.cls if parent else None)
        self.self_val: Any = None


class FuncVal(HObj):
    def __init__(self, ctx: Path | None, node: Any, module: ModuleInfo, closure: Frame | None,
                 cls: Any = None, qualname: str = "") -> None:
        super().__init__(ctx)
        self.node, self.module, self.closure, self.cls = node, module, closure, cls
        self.name = getattr(node, "name", "<lambda>")
        self.qualname = qualname or f"{module.name}:{self.name}"
        self.decorators = decorators_of(node)

    def __repr__(self) -> str:
        return f"<function {self.qualname}>"


_DECS: dict[int, tuple] = {}


def decorators_of(node: Any) -> list[str]:
    hit = _DECS.get(id(node))
    if hit is None or hit[0] is not node:
        hit = _DECS[id(node)] = (node, [ast.unparse(d) for d in getattr(node, "decorator_list", [])])
    return hit[1]


class BoundMethod:
    def __init__(self, func: Any, self_val: Any) -> None:
        self.func, self.self_val = func, self_val

    def __repr__(self) -> str:
        return f"<bound {self.func}>"


class Native:
    """A function implemented in Python: fn(it, args, kwargs)."""

    def __init__(self, fn: Callable, name: str = "") -> None:
        self.fn, self.name = fn, name

    def __repr__(self) -> str:
        return f"<native {self.name}>"


class SuperVal:
    def __init__(self, cls: Any, self_val: Any) -> None:
        self.cls, self.self_val = cls, self_val


class Iter(HObj):
    """An explicit iterator over a sequence (position is mutable state)."""

    def __init__(self, ctx: Path, seq: SymSeq) -> None:
        super().__init__(ctx)
        self.seq = seq
        self.pos: Any = 0


class RangeVal:
    def __init__(self, lo: Any, hi: Any, step: Any) -> None:
        self.lo, self.hi, self.step = lo, hi, step


class SliceVal:
    def __init__(self, lo: Any, hi: Any, step: Any) -> None:
        self.lo, self.hi, self.step = lo, hi, step


NEUTRAL_DECORATORS = {"override", "final", "abstractmethod", "staticmethod", "classmethod", "property",
                      "contextmanager", "torch.no_grad()", "torch.inference_mode()", "overload",
                      "cached_property", "no_type_check", "runtime_checkable"}

MAX_UNROLL = 64


class LoopView:
    """What loop-invariant candidates may talk about."""

    def __init__(self, it: "Interp", entry: dict, locs: list, k: Any, seq: SymSeq | None, frame: Frame):
        self.it, self.ctx, self.k, self.seq, self.frame = it, it.ctx, k, seq, frame
        self.entry: dict[str, Any] = {}
        self.cur: dict[str, Any] = {}
        for key, obj, attr, name in locs:
            self.entry[name] = entry[key]
            self.cur[name] = it.loc_get(obj, attr)


class Interp:
    def __init__(self, ctx: Path) -> None:
        self.ctx = ctx
        self.world: World = ctx.world
        self.depth = 0
        self.last_line = ("", 0)
        self.handlers: list = []
        self.globals_memo: dict[tuple[str, str], Any] = {}
        from . import builtins_ as b

        self.b = b

    # ------------------------------------------------------------------ API for units
    def cls(self, qualname: str) -> ClassInfo:
        return self.world.get_class(qualname)

    def new(self, qualname: str, **fields: Any) -> Obj:
        """An object of an in-repo class with given fields (its state is the unit's precondition)."""
        return Obj(self.ctx, self.cls(qualname), fields)

    def enum(self, qualname: str, member: str) -> EnumMember:
        return self.class_attr(self.cls(qualname), member)

    def enum_members(self, qualname: str) -> list[EnumMember]:
        c = self.cls(qualname)
        out = []
        for n in c.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                out.append(self.class_attr(c, n.targets[0].id))
        return out

    def func(self, qualname: str) -> Any:
        mod, name = qualname.split(":")
        m = self.world._mod(mod)
        if "." in name:
            c, f = name.split(".")
            ci = self.cls(f"{mod}:{c}")
            hit = ci.find(f)
            if hit is None:
                raise Unsupported(f"{qualname} not found")
            return FuncVal(self.ctx, hit[1][1], hit[0].module, None, hit[0],
                           f"{hit[0].module.name}:{hit[0].name}.{f}")
        return self.global_name(m, name)

    def call_func(self, qualname: str, *args: Any, **kwargs: Any) -> Any:
        return self.call(self.func(qualname), list(args), kwargs)

    def call_method(self, obj: Any, name: str, *args: Any, **kwargs: Any) -> Any:
        return self.call(self.getattr(obj, name), list(args), kwargs)

    def outcome(self, thunk: Callable[[], Any]) -> tuple[str, Any]:
        try:
            return "ok", thunk()
        except PyExc as ex:
            return "exc", ex

    # ------------------------------------------------------------------ errors
    def exc(self, t: Any, *args: Any) -> PyExc:
        cls = BuiltinCls(t) if isinstance(t, type) else t
        return PyExc(Obj(self.ctx, cls, {"args": tuple(args)}), f"{self.last_line}")

    def exc_matches(self, ex: PyExc, cls: Any) -> bool:
        if isinstance(cls, tuple):
            return any(self.exc_matches(ex, c) for c in cls)
        return self.subclass(ex.obj.cls, cls)

    def subclass(self, c: Any, other: Any) -> bool:
        if c is other:
            return True
        if isinstance(c, ClassInfo):
            return c.is_subclass(other)
        if isinstance(c, BuiltinCls):
            return isinstance(other, BuiltinCls) and issubclass(c.t, other.t)
        if isinstance(c, Ext):
            t = EXT_EXC.get(c.name)
            return t is not None and isinstance(other, BuiltinCls) and issubclass(t, other.t)
        return False

    # ------------------------------------------------------------------ names
    def lookup(self, frame: Frame, name: str) -> Any:
        f: Frame | None = frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is UNBOUND:
                    raise self.exc(UnboundLocalError, name)
                if isinstance(v, Poison):
                    raise Unsupported(f"read of loop-carried variable '{name}' ({v.why})")
                return v
            f = f.parent
        return self.global_name(frame.module, name)

    def global_name(self, module: ModuleInfo, name: str) -> Any:
        key = (module.name, name)
        if key in self.globals_memo:
            return self.globals_memo[key]
        v = self.from_static(self.world.resolve(module, name))
        self.globals_memo[key] = v
        return v

    def from_static(self, r: Any) -> Any:
        if isinstance(r, tuple) and r[0] == "func":
            key = ("func", id(r[2]))
            if key not in self.globals_memo:
                self.globals_memo[key] = FuncVal(None, r[2], r[1], None)
            return self.globals_memo[key]
        if isinstance(r, tuple) and r[0] == "assign":
            _, module, expr, name = r
            key = ("assign", module.name, name)
            if key not in self.globals_memo:
                if name == "log":
                    self.globals_memo[key] = getattr(self.ctx, "log", None) or Sink(None)
                else:
                    hook = self.b.GLOBAL_OVERRIDES.get(f"{module.name}:{name}")
                    if hook is not None:
                        self.globals_memo[key] = hook(self)
                    else:
                        n = len(self.ctx.writes)
                        self.globals_memo[key] = self.eval(expr, Frame(None, module, None, None))
                        del self.ctx.writes[n:]
            return self.globals_memo[key]
        if isinstance(r, Ext):
            return self.b.ext_value(self, r)
        return r

    def assign_name(self, frame: Frame, name: str, v: Any) -> None:
        f = frame
        if name in frame.nonlocals:
            g = frame.parent
            while g is not None and name not in g.vars:
                g = g.parent
            if g is None:
                raise Unsupported(f"global assignment to {name}")
            f = g
        if f.uid >= 0:
            self.ctx.log_write(f, name)
        f.vars[name] = v

    # ------------------------------------------------------------------ statements
    def exec_block(self, body: list, frame: Frame) -> None:
        for st in body:
            self.exec(st, frame)

    def note(self, node: Any, frame: Frame) -> None:
        ln = getattr(node, "lineno", 0)
        self.last_line = (frame.module.name, ln)
        self.ctx.ex.result.lines.add((frame.module.path, ln))

    def exec(self, st: Any, frame: Frame) -> None:
        self.note(st, frame)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at {frame.module.name}:{st.lineno}")
        m(st, frame)

    def s_Expr(self, st: ast.Expr, frame: Frame) -> None:
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, frame)

    def s_Pass(self, st: Any, frame: Frame) -> None:
        pass

    def s_Assign(self, st: ast.Assign, frame: Frame) -> None:
        v = self.eval(st.value, frame)
        for t in st.targets:
            self.assign(t, v, frame)

    def s_AnnAssign(self, st: ast.AnnAssign, frame: Frame) -> None:
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, frame), frame)

    def s_AugAssign(self, st: ast.AugAssign, frame: Frame) -> None:
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(frame, t.id)
            self.assign_name(frame, t.id, self.inplace(st.op, cur, self.eval(st.value, frame)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, frame)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(st.op, cur, self.eval(st.value, frame)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            i = self.eval_index(t.slice, frame)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(st.op, cur, self.eval(st.value, frame)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op: Any, a: Any, b: Any) -> Any:
        if isinstance(a, PyList) and isinstance(op, ast.Add):
            self.b.list_extend(self, a, b)
            return a
        if isinstance(a, PySet) and isinstance(op, ast.BitOr):
            self.b.set_update(self, a, b)
            return a
        if hasattr(a, "inplace"):
            r = a.inplace(self, type(op).__name__, b)
            if r is not NotImplemented:
                return r
        return self.binop(op, a, b)

    def assign(self, t: Any, v: Any, frame: Frame) -> None:
        if isinstance(t, ast.Name):
            self.assign_name(frame, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            self.setitem(o, self.eval_index(t.slice, frame), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            for e, x in zip(t.elts, items):
                self.assign(e, x, frame)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, v: Any, n: int) -> list:
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PyList) and not v.sym:
            items = list(v.content)
        elif isinstance(v, Entity) and hasattr(v.model, "unpack"):
            items = v.model.unpack(self, v, n)
        elif hasattr(v, "unpack"):
            items = v.unpack(self, n)
        else:
            s = self.seq_of(v)
            if self.ctx.branch(zbool(py_eq(s.length, n))):
                items = [s.get(z3.IntVal(i)) for i in range(n)]
            else:
                raise self.exc(ValueError, "unpack")
        if len(items) != n:
            raise self.exc(ValueError, "unpack")
        return items

    def s_Return(self, st: ast.Return, frame: Frame) -> None:
        raise _Return(self.eval(st.value, frame) if st.value is not None else None)

    def s_If(self, st: ast.If, frame: Frame) -> None:
        if self.cond(st.test, frame):
            self.exec_block(st.body, frame)
        else:
            self.exec_block(st.orelse, frame)

    def cond(self, e: Any, frame: Frame) -> bool:
        return self.ctx.branch(self.truth(self.eval(e, frame)))

    def s_Break(self, st: Any, frame: Frame) -> None:
        raise _Break()

    def s_Continue(self, st: Any, frame: Frame) -> None:
        raise _Continue()

    def s_Assert(self, st: ast.Assert, frame: Frame) -> None:
        if not self.cond(st.test, frame):
            raise self.exc(AssertionError)

    def s_Delete(self, st: ast.Delete, frame: Frame) -> None:
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.assign_name(frame, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                self.b.delitem(self, self.eval(t.value, frame), self.eval_index(t.slice, frame))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, frame)
                if not isinstance(o, Obj) or t.attr not in o.fields:
                    raise self.exc(AttributeError, t.attr)
                self.ctx.log_write(o, t.attr)
                del o.fields[t.attr]
            else:
                raise Unsupported("del target")

    def s_Raise(self, st: ast.Raise, frame: Frame) -> None:
        if st.exc is None:
            if not self.handlers:
                raise self.exc(RuntimeError, "no active exception")
            raise self.handlers[-1]
        v = self.eval(st.exc, frame)
        cause = self.eval(st.cause, frame) if st.cause is not None else None
        if isinstance(v, (ClassInfo, BuiltinCls, Ext)):
            v = self.call(v, [], {})
        if not isinstance(v, Obj):
            raise Unsupported(f"raise of {v!r}")
        if cause is not None:
            v.fields["__cause__"] = cause
        raise PyExc(v, f"{self.last_line}")

    def s_Try(self, st: ast.Try, frame: Frame) -> None:
        def run_body() -> None:
            try:
                self.exec_block(st.body, frame)
            except PyExc as ex:
                for h in st.handlers:
                    cls = self.eval(h.type, frame) if h.type is not None else BuiltinCls(BaseException)
                    if isinstance(cls, PyList):
                        cls = tuple(cls.content)
                    if self.exc_matches(ex, cls):
                        if h.name:
                            self.assign_name(frame, h.name, ex.obj)
                        self.handlers.append(ex)
                        try:
                            self.exec_block(h.body, frame)
                        finally:
                            self.handlers.pop()
                        return
                raise
            else:
                self.exec_block(st.orelse, frame)

        if not st.finalbody:
            run_body()
            return
        try:
            run_body()
        except (PyExc, _Return, _Break, _Continue):
            self.exec_block(st.finalbody, frame)
            raise
        self.exec_block(st.finalbody, frame)

    def s_With(self, st: ast.With, frame: Frame) -> None:
        self.with_items(st.items, 0, st.body, frame)

    def with_items(self, items: list, i: int, body: list, frame: Frame) -> None:
        if i == len(items):
            self.exec_block(body, frame)
            return
        item = items[i]
        cm = self.eval(item.context_expr, frame)

        def inner(v: Any) -> None:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, frame)
            self.with_items(items, i + 1, body, frame)

        self.run_with(cm, inner)

    def run_with(self, cm: Any, inner: Callable[[Any], None]) -> None:
        if isinstance(cm, GenCM):
            cm.run(self, inner)
            return
        if isinstance(cm, Obj) and isinstance(cm.cls, ClassInfo):
            enter = self.getattr(cm, "__enter__")
            exit_ = self.getattr(cm, "__exit__")
            v = self.call(enter, [], {})
            do_exit = lambda *a: self.call(exit_, list(a), {})
        elif isinstance(cm, Model):
            e = cm.find_method("__enter__") or getattr(cm, "enter", None)
            x = cm.find_method("__exit__") or getattr(cm, "exit", None)
            if e is None or x is None:
                raise Unsupported(f"with on {cm!r}")
            v = e(self.ctx)
            do_exit = lambda *a: x(self.ctx, *a)
        elif isinstance(cm, Entity) and hasattr(cm.model, "enter"):
            v = cm.model.enter(self, cm)
            do_exit = lambda *a: cm.model.exit(self, cm, *a)
        else:
            raise Unsupported(f"with on {cm!r}")
        try:
            inner(v)
        except PyExc as ex:
            r = do_exit(ex.obj.cls, ex.obj, None)
            if r is not None and self.ctx.branch(self.truth(r)):
                return
            raise
        except (_Return, _Break, _Continue):
            do_exit(None, None, None)
            raise
        do_exit(None, None, None)

    def s_FunctionDef(self, st: ast.FunctionDef, frame: Frame) -> None:
        q = (frame.func.qualname + "." if frame.func else frame.module.name + ":") + st.name
        f = FuncVal(self.ctx, st, frame.module, frame, frame.cls, q)
        self.assign_name(frame, st.name, f)

    def s_ClassDef(self, st: ast.ClassDef, frame: Frame) -> None:
        raise Unsupported("nested class")

    def s_Import(self, st: ast.Import, frame: Frame) -> None:
        for a in st.names:
            m = self.world.module(a.name)
            v = m if m is not None else Ext(a.name)
            if a.asname:
                self.assign_name(frame, a.asname, v)
            else:
                top = a.name.split(".")[0]
                self.assign_name(frame, top, self.world.module(top) or Ext(top))

    def s_ImportFrom(self, st: ast.ImportFrom, frame: Frame) -> None:
        base = frame.module._abs(st)
        m = self.world.module(base)
        for a in st.names:
            if m is not None:
                v = self.from_static(self.world.resolve(m, a.name))
            else:
                v = self.b.ext_value(self, Ext(base + "." + a.name))
            self.assign_name(frame, a.asname or a.name, v)

    def s_Global(self, st: ast.Global, frame: Frame) -> None:
        raise Unsupported("global statement")

    def s_Nonlocal(self, st: ast.Nonlocal, frame: Frame) -> None:
        frame.nonlocals.update(st.names)

    def s_Match(self, st: ast.Match, frame: Frame) -> None:
        v = self.eval(st.subject, frame)
        for c in st.cases:
            if self.match(c.pattern, v, frame):
                if c.guard is not None and not self.cond(c.guard, frame):
                    continue
                self.exec_block(c.body, frame)
                return

    def match(self, p: Any, v: Any, frame: Frame) -> bool:
        if isinstance(p, ast.MatchValue):
            return self.ctx.branch(py_eq(v, self.eval(p.value, frame)))
        if isinstance(p, ast.MatchSingleton):
            if isinstance(p.value, bool):
                return self.ctx.branch(py_eq(v, p.value)) if is_sym_bool(v) else v is p.value
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, frame):
                return False
            if p.name is not None:
                self.assign_name(frame, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, frame) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.ctx.branch(self.isinstance(v, self.eval(p.cls, frame)))
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if isinstance(v, tuple) or isinstance(v, PyList) and not v.sym:
                items = list(v) if isinstance(v, tuple) else list(v.content)
                return len(items) == len(p.patterns) and all(self.match(q, x, frame) for q, x in zip(p.patterns, items))
            if v is None or isinstance(v, (str, bool, int, FStr)):
                return False
        raise Unsupported(f"match pattern {type(p).__name__}")

    # ------------------------------------------------------------------ loops
    def s_For(self, st: ast.For, frame: Frame) -> None:
        itv = self.eval(st.iter, frame)
        if isinstance(itv, Iter):
            raise Unsupported("for over an explicit iterator")
        conc = self.concrete_items(itv)
        if conc is not None:
            broke = False
            for x in conc:
                self.assign(st.target, x, frame)
                try:
                    self.exec_block(st.body, frame)
                except _Continue:
                    continue
                except _Break:
                    broke = True
                    break
            if not broke:
                self.exec_block(st.orelse, frame)
            return
        seq = self.seq_of(itv)
        self.sym_loop(st, frame, seq)

    def s_While(self, st: ast.While, frame: Frame) -> None:
        self.sym_loop(st, frame, None)

    def loc_get(self, obj: Any, attr: Any) -> Any:
        if isinstance(obj, Frame):
            return obj.vars.get(attr, UNBOUND)
        if isinstance(obj, Iter):
            return obj.pos
        if attr == "content":
            return obj.content
        if hasattr(obj, "loc_get"):
            return obj.loc_get(attr)
        return obj.fields.get(attr, UNBOUND)

    def loc_set(self, obj: Any, attr: Any, v: Any) -> None:
        self.ctx.log_write(obj, attr)
        if isinstance(obj, Frame):
            obj.vars[attr] = v
        elif isinstance(obj, Iter):
            obj.pos = v
        elif attr == "content":
            obj.content = v
        elif hasattr(obj, "loc_set"):
            obj.loc_set(attr, v)
        elif v is UNBOUND:
            obj.fields.pop(attr, None)
        else:
            obj.fields[attr] = v

    def loc_kind(self, obj: Any, attr: Any) -> Any:
        if attr == "content":
            return kind_content(obj.content)
        v = self.loc_get(obj, attr)
        if hasattr(obj, "loc_kind"):
            return obj.loc_kind(attr)
        return kind_of(v)

    def sym_loop(self, st: Any, frame: Frame, seq: SymSeq | None) -> None:
        ctx, ex = self.ctx, self.ctx.ex
        if ctx.pure:
            raise Unsupported("loop in a quantified body")
        key = (frame.module.name, st.lineno, st.col_offset, tuple(ctx.decisions), self.depth,
               ctx.uid_counter)
        info = ex.loops.get(key)
        if info is None:
            info = ex.loops[key] = LoopInfo()
            info.where = f"{frame.module.name}:{st.lineno}"
            ex.dirty = True
            ex.infer = True  # the rest of this pass infers; obligations are proved in the last pass
        uid0 = ctx.uid_counter
        # locations: keyed by (uid, attr)
        registry = self._live_objects(uid0, frame, info)
        locs = []
        entry: dict = {}
        seen_names: dict[str, int] = {}
        for lk in sorted(info.havoc, key=repr):
            obj = registry.get(lk[0])
            if obj is None:
                raise Unsupported("loop location not found on re-execution")
            name = lk[2]
            n = seen_names.get(name, 0)
            seen_names[name] = n + 1
            if n:
                name = f"{name}#{n}"
            locs.append((lk, obj, lk[1], name))
            entry[lk] = self.loc_get(obj, lk[1])
            k0 = self.loc_kind(obj, lk[1])
            if k0 not in info.havoc[lk]:
                info.havoc[lk].add(k0)
                ex.dirty = True
        where = info.where

        def cands(k: Any) -> dict[str, Any]:
            view = LoopView(self, entry, locs, k, seq, frame)
            out = default_cands(view, info.dropped)
            for g in ctx.loop_cands:
                try:
                    out.update(g(view))
                except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception):
                    pass
            return out

        c0 = cands(z3.IntVal(0))
        todo = {n: t for n, t in c0.items() if n not in info.dropped}
        if ex.infer:
            bad = ctx.houdini(todo)
            info.alive.update(set(todo) - bad)
            if bad:
                info.dropped |= bad
                ex.dirty = True
        else:
            ctx.ensure_all({f"loop {where}: invariant '{n}' holds initially": t for n, t in todo.items()})
        active = {n for n in c0 if n not in info.dropped}
        # havoc
        k = ctx.int(f"k@{st.lineno}")
        ctx.assume(k >= 0)
        if seq is not None:
            ctx.assume(k <= zint(seq.length))
        for lk, obj, attr, name in locs:
            kinds = [x for x in info.havoc[lk]]
            self.havoc(obj, attr, name, kinds, k, entry[lk])
        cur = cands(k)
        for n in sorted(active):
            if n in cur:
                ctx.assume(cur[n])
            elif n in active:
                active.discard(n)
                if n not in info.dropped:
                    info.dropped.add(n)
                    ex.dirty = True
        w0 = len(ctx.writes)
        if seq is not None:
            go = ctx.branch(k < zint(seq.length))
        else:
            go = self.cond(st.test, frame)
        if not go:
            self.exec_block(st.orelse, frame)
            return
        if seq is not None:
            self.assign(st.target, seq.get(k), frame)
        try:
            self.exec_block(st.body, frame)
        except _Continue:
            pass
        except _Break:
            return
        # end of body: back edge
        grew = False
        for obj, attr in ctx.writes[w0:]:
            if obj.uid < 0 or obj.uid > uid0:
                continue
            lk = (obj.uid, attr, self._loc_name(obj, attr, frame))
            kd = self.loc_kind(obj, attr)
            if lk not in info.havoc:
                info.havoc[lk] = set()
                grew = True
            if kd not in info.havoc[lk]:
                info.havoc[lk].add(kd)
                grew = True
        if grew:
            ex.dirty = True
            if not ex.infer:
                raise Unsupported("loop writes a location outside its frame")
            # Candidates are not judged against an incomplete frame.
            raise PathEnd()
        c2 = cands(k + 1)
        todo = {n: c2.get(n, FALSE) for n in sorted(active) if not (ex.infer and n in info.dropped)}
        if ex.infer:
            bad = ctx.houdini(todo)
            if bad:
                info.dropped |= bad
                ex.dirty = True
        else:
            ctx.ensure_all({f"loop {where}: invariant '{n}' is preserved": t for n, t in todo.items()})
        raise PathEnd()

    def _loc_name(self, obj: Any, attr: Any, frame: Frame) -> str:
        if isinstance(obj, Frame):
            return attr if obj is frame else f"{attr}^"
        if isinstance(obj, Obj):
            return f"{getattr(obj.cls, 'name', type(obj).__name__)}.{attr}"
        return f"{type(obj).__name__}.{attr}"

    def _live_objects(self, uid0: int, frame: Frame, info: LoopInfo) -> dict[int, Any]:
        want = {lk[0] for lk in info.havoc}
        found: dict[int, Any] = {}
        if not want:
            return found
        for o, _ in self.ctx.writes:
            if o.uid in want:
                found[o.uid] = o
        seen: set[int] = set()

        def walk(v: Any, d: int = 0) -> None:
            if id(v) in seen or d > 12:
                return
            if isinstance(v, HObj):
                seen.add(id(v))
                if v.uid in want:
                    found[v.uid] = v
            if isinstance(v, Frame):
                for x in v.vars.values():
                    walk(x, d + 1)
                if v.parent:
                    walk(v.parent, d + 1)
            elif isinstance(v, Obj):
                for x in v.fields.values():
                    walk(x, d + 1)
                for x in getattr(v, "extra", {}).values() if isinstance(getattr(v, "extra", None), dict) else ():
                    walk(x, d + 1)
            elif isinstance(v, PyList) and not v.sym:
                for x in v.content:
                    walk(x, d + 1)
            elif isinstance(v, PyDict) and isinstance(v.content, dict):
                for x in v.content.values():
                    walk(x, d + 1)
            elif isinstance(v, (tuple, list)):
                for x in v:
                    walk(x, d + 1)
            elif isinstance(v, BoundMethod):
                walk(v.self_val, d + 1)
            elif isinstance(v, FuncVal):
                if v.closure:
                    walk(v.closure, d + 1)

        for f in self.frames:
            walk(f)
        for r in self.ctx.roots:
            walk(r)
        return found

    def havoc(self, obj: Any, attr: Any, name: str, kinds: list, k: Any, entry: Any) -> None:
        ctx = self.ctx
        if hasattr(obj, "havoc_loc"):
            obj.havoc_loc(ctx, attr, name, kinds)
            return
        if attr == "content":
            if isinstance(obj, PyList):
                eks = [x[1] for x in kinds if x[0] == "seq"]
                if len(eks) != len(kinds):
                    raise Unsupported("list content of unknown kind in a loop")
                ek = kinds_join(eks)
                try:
                    self.loc_set(obj, attr, fresh_seq(ctx, ek, name))
                except Unsupported:
                    mk = ctx.elem_makers.get(name)
                    if mk is None:
                        raise
                    self.loc_set(obj, attr, mk(ctx))
                return
            if isinstance(obj, PySet):
                f = ctx.func(f"set:{name}", z3.IntSort(), z3.BoolSort())
                self.loc_set(obj, attr, ([], [lambda v: f(zint(v.id if isinstance(v, Entity) else v))]))
                return
            if isinstance(obj, PyDict):
                mk = ctx.elem_makers.get(name)
                if mk is not None:
                    self.loc_set(obj, attr, mk(ctx))
                    return
                raise Unsupported(f"dictionary {name} modified in a symbolic loop")
            raise Unsupported(f"havoc of {obj!r}")
        ks = sorted(kinds, key=repr)
        if ("unbound",) in ks and len(ks) > 1:
            ks.remove(("unbound",))
            if ctx.branch(k == 0):
                self.loc_set(obj, attr, UNBOUND)
                return
        if len(ks) == 1 and ks[0][0] == "obj" and isinstance(entry, HObj) and entry.uid == ks[0][1]:
            self.loc_set(obj, attr, entry)
            return
        i = ctx.choose(len(ks), f"kind of {name}")
        kd = ks[i]
        if kd[0] == "obj":
            if isinstance(entry, HObj) and entry.uid == kd[1]:
                self.loc_set(obj, attr, entry)
                return
            mk = ctx.elem_makers.get(name)
            self.loc_set(obj, attr, mk(ctx) if mk is not None else Poison(f"object bound in a loop"))
            return
        if kd[0] == "unbound":
            self.loc_set(obj, attr, UNBOUND)
            return
        self.loc_set(obj, attr, fresh_of_kind(ctx, kd, name))

    # ------------------------------------------------------------------ iteration helpers
    def concrete_items(self, v: Any) -> list | None:
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            return None if v.sym else list(v.content)
        if isinstance(v, PyDict):
            return list(v.content) if isinstance(v.content, dict) else None
        if isinstance(v, RangeVal):
            if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
                r = range(v.lo, v.hi, v.step)
                return list(r) if len(r) <= MAX_UNROLL else None
            return None
        if isinstance(v, str):
            return list(v)
        if isinstance(v, PySet):
            items, preds = v.content
            if not preds and len(items) <= 1:
                return list(items)
            return None
        if isinstance(v, ClassInfo) and v.is_enum:
            return self.enum_members(v.qualname)
        return None

    def seq_of(self, v: Any) -> SymSeq:
        if isinstance(v, (PyList, tuple, SymSeq)):
            return as_seq(v)
        if isinstance(v, RangeVal):
            lo, hi, step = v.lo, v.hi, v.step
            if isinstance(step, int) and step == 1:
                n = z3.If(zint(hi) > zint(lo), zint(hi) - zint(lo), z3.IntVal(0))
                return SymSeq(z3.simplify(n), lambda i: z3.simplify(zint(lo) + zint(i)), ("int",), ("range", lo))
            if isinstance(step, int) and step > 0:
                n = z3.If(zint(hi) > zint(lo), (zint(hi) - zint(lo) + (step - 1)) / step, z3.IntVal(0))
                return SymSeq(n, lambda i: zint(lo) + zint(i) * step, ("int",))
            if isinstance(step, int) and step == -1:
                n = z3.If(zint(lo) > zint(hi), zint(lo) - zint(hi), z3.IntVal(0))
                return SymSeq(z3.simplify(n), lambda i: z3.simplify(zint(lo) - zint(i)), ("int",))
            if is_sym_int(step):
                if not self.ctx.branch(step > 0):
                    raise Unsupported("range with symbolic non-positive step")
                n = z3.If(zint(hi) > zint(lo), (zint(hi) - zint(lo) + (step - 1)) / step, z3.IntVal(0))
                return SymSeq(n, lambda i: zint(lo) + zint(i) * step, ("int",))
        if isinstance(v, PyDict) and isinstance(v.content, dict):
            return items_to_seq(list(v.content))
        if isinstance(v, PyDict) and isinstance(v.content, SymMap) and v.content.keys is not None:
            return v.content.keys
        if hasattr(v, "iter_seq"):
            return v.iter_seq(self)
        if isinstance(v, Entity) and hasattr(v.model, "iter_seq"):
            return v.model.iter_seq(self, v)
        raise Unsupported(f"iteration over {v!r}")

    # ------------------------------------------------------------------ expressions
    def eval(self, e: Any, frame: Frame) -> Any:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {frame.module.name}:{e.lineno}")
        return m(e, frame)

    def e_Constant(self, e: ast.Constant, frame: Frame) -> Any:
        v = e.value
        if isinstance(v, float):
            return self.float_const(v)
        if v is Ellipsis:
            return Ext("builtins.Ellipsis")
        if isinstance(v, (bytes, complex)):
            raise Unsupported("bytes/complex literal")
        return v

    @staticmethod
    def float_const(v: float) -> Any:
        if v != v or v in (float("inf"), float("-inf")):
            return v
        return Fraction(repr(v))

    def e_Name(self, e: ast.Name, frame: Frame) -> Any:
        return self.lookup(frame, e.id)

    def e_Attribute(self, e: ast.Attribute, frame: Frame) -> Any:
        return self.getattr(self.eval(e.value, frame), e.attr)

    def e_NamedExpr(self, e: ast.NamedExpr, frame: Frame) -> Any:
        v = self.eval(e.value, frame)
        self.assign(e.target, v, frame)
        return v

    def e_Tuple(self, e: ast.Tuple, frame: Frame) -> Any:
        return tuple(self.eval_items(e.elts, frame))

    def e_List(self, e: ast.List, frame: Frame) -> Any:
        return PyList(self.ctx, self.eval_items(e.elts, frame))

    def e_Set(self, e: ast.Set, frame: Frame) -> Any:
        return PySet(self.ctx, self.eval_items(e.elts, frame))

    def eval_items(self, elts: list, frame: Frame) -> list:
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, frame)
                items = self.concrete_items(v)
                if items is None:
                    raise Unsupported("star-unpacking of a symbolic sequence")
                out.extend(items)
            else:
                out.append(self.eval(x, frame))
        return out

    def e_Dict(self, e: ast.Dict, frame: Frame) -> Any:
        d: dict = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, frame)
                if not (isinstance(o, PyDict) and isinstance(o.content, dict)):
                    raise Unsupported("** of a symbolic dict")
                d.update(o.content)
            else:
                kk = self.eval(k, frame)
                self.b.check_key(kk)
                d[kk] = self.eval(v, frame)
        return PyDict(self.ctx, d)

    def e_JoinedStr(self, e: ast.JoinedStr, frame: Frame) -> Any:
        parts: list = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, frame)
                spec = ""
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec, frame)
                parts.append(self.b.format_value(self, v, spec, p.conversion))
        return FStr(parts).simplify()

    def e_BoolOp(self, e: ast.BoolOp, frame: Frame) -> Any:
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, frame)
            if i == len(e.values) - 1:
                return v
            t = self.ctx.branch(self.truth(v))
            if isinstance(e.op, ast.And) and not t:
                return v if not is_z3(v) else (False if is_sym_bool(v) else v)
            if isinstance(e.op, ast.Or) and t:
                return v if not is_sym_bool(v) else True
        return v

    def e_UnaryOp(self, e: ast.UnaryOp, frame: Frame) -> Any:
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z_not(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, float):
                return -v
            if is_num(v):
                return -v if not isinstance(v, z3.BoolRef) else -zint(v)
            if hasattr(v, "binop"):
                return v.binop(self, "Neg", None, False)
        if isinstance(e.op, ast.UAdd) and is_num(v):
            return v
        if isinstance(e.op, ast.Invert):
            if hasattr(v, "binop"):
                return v.binop(self, "Invert", None, False)
            if isinstance(v, int):
                return ~v
        raise Unsupported(f"unary {type(e.op).__name__} on {v!r}")

    def e_BinOp(self, e: ast.BinOp, frame: Frame) -> Any:
        a = self.eval(e.left, frame)
        b = self.eval(e.right, frame)
        return self.binop(e.op, a, b)

    def binop(self, op: Any, a: Any, b: Any) -> Any:
        name = type(op).__name__
        if hasattr(a, "binop"):
            r = a.binop(self, name, b, False)
            if r is not NotImplemented:
                return r
        if hasattr(b, "binop"):
            r = b.binop(self, name, a, True)
            if r is not NotImplemented:
                return r
        return self.b.arith(self, name, a, b)

    def e_Compare(self, e: ast.Compare, frame: Frame) -> Any:
        left = self.eval(e.left, frame)
        conds = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, frame)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            conds.append(c)
            if i < len(e.ops) - 1:
                if not self.ctx.branch(self.truth(c)):
                    return False
            else:
                return c
            left = right
        return True

    def compare(self, op: Any, a: Any, b: Any) -> Any:
        name = type(op).__name__
        if name in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if name == "Is" else ((not r) if isinstance(r, bool) else z_not(r))
        if name in ("In", "NotIn"):
            r = self.b.contains(self, b, a)
            return r if name == "In" else ((not r) if isinstance(r, bool) else z_not(r))
        for x, y, sw in ((a, b, False), (b, a, True)):
            if hasattr(x, "compare"):
                r = x.compare(self, name, y, sw)
                if r is not NotImplemented:
                    return r
        if name in ("Eq", "NotEq"):
            r = self.equal(a, b)
            return r if name == "Eq" else ((not r) if isinstance(r, bool) else z_not(r))
        return self.b.order(self, name, a, b)

    def equal(self, a: Any, b: Any) -> Any:
        if isinstance(a, Obj) and isinstance(a.cls, ClassInfo):
            hit = a.cls.find("__eq__")
            if hit is not None:
                return self.call(BoundMethod(self._member_func(hit, "__eq__"), a), [b], {})
        return py_eq(a, b)

    def identical(self, a: Any, b: Any) -> Any:
        if isinstance(a, OptVal) and b is None:
            return a.none_p(self)
        if isinstance(b, OptVal) and a is None:
            return b.none_p(self)
        if a is None or b is None:
            if isinstance(a, Entity) and hasattr(a.model, "is_none"):
                return a.model.is_none(self, a)
            return a is b
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return py_eq(a, b)
        if isinstance(a, Entity) and isinstance(b, Entity):
            return py_eq(a, b)
        if isinstance(a, (HObj, EnumMember, Ext, ClassInfo, BuiltinCls)) or isinstance(
            b, (HObj, EnumMember, Ext, ClassInfo, BuiltinCls)
        ):
            return a is b
        raise Unsupported(f"identity of {a!r} and {b!r}")

    def e_IfExp(self, e: ast.IfExp, frame: Frame) -> Any:
        if self.cond(e.test, frame):
            return self.eval(e.body, frame)
        return self.eval(e.orelse, frame)

    def e_Lambda(self, e: ast.Lambda, frame: Frame) -> Any:
        return FuncVal(self.ctx, e, frame.module, frame, frame.cls, f"{frame.module.name}:<lambda>")

    def e_Subscript(self, e: ast.Subscript, frame: Frame) -> Any:
        o = self.eval(e.value, frame)
        if isinstance(o, (ClassInfo, BuiltinCls, Ext)) and not (isinstance(o, ClassInfo) and o.is_enum):
            return o  # generic alias
        return self.getitem(o, self.eval_index(e.slice, frame))

    def eval_index(self, s: Any, frame: Frame) -> Any:
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, frame)
            return SliceVal(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, frame) for x in s.elts)
        return self.eval(s, frame)

    def e_Slice(self, e: ast.Slice, frame: Frame) -> Any:
        return self.eval_index(e, frame)

    def e_Starred(self, e: Any, frame: Frame) -> Any:
        raise Unsupported("starred expression")

    def e_Yield(self, e: ast.Yield, frame: Frame) -> Any:
        f = frame
        if f.on_yield is None:
            raise Unsupported("generator function")
        v = self.eval(e.value, frame) if e.value is not None else None
        return f.on_yield(v)

    # -- comprehensions
    def e_ListComp(self, e: ast.ListComp, frame: Frame) -> Any:
        r = self.comp(e, frame)
        return PyList(self.ctx, r)

    def e_GeneratorExp(self, e: ast.GeneratorExp, frame: Frame) -> Any:
        return PyList(self.ctx, self.comp(e, frame))

    def e_SetComp(self, e: ast.SetComp, frame: Frame) -> Any:
        s = PySet(self.ctx, [])
        self.b.set_update(self, s, PyList(self.ctx, self.comp(e, frame)))
        return s

    def e_DictComp(self, e: ast.DictComp, frame: Frame) -> Any:
        pair = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(pair, e)
        ast.fix_missing_locations(pair)
        r = self.comp(pair, frame)
        if isinstance(r, list):
            d = {}
            for k, v in r:
                self.b.check_key(k)
                d[k] = v
            return PyDict(self.ctx, d)
        raise Unsupported("symbolic dict comprehension")

    def comp(self, e: Any, frame: Frame) -> Any:
        """Returns a list (concrete) or a SymSeq."""
        sub = Frame(self.ctx, frame.module, frame, frame.func)
        sub.uid = 1 << 60  # its writes are invisible outside of the comprehension
        sub.cls = frame.cls
        sub.self_val = frame.self_val
        gens = e.generators
        if len(gens) == 1:
            g = gens[0]
            itv = self.eval(g.iter, frame)
            conc = self.concrete_items(itv)
            if conc is not None:
                out = []
                for x in conc:
                    self.assign(g.target, x, sub)
                    if all(self.cond(c, sub) for c in g.ifs):
                        out.append(self.eval(e.elt, sub))
                return out
            seq = self.seq_of(itv)
            return self.b.map_filter(
                self, seq,
                lambda x: (self.assign(g.target, x, sub),
                           [self.truth_c(self.eval(c, sub)) for c in g.ifs],
                           self.eval(e.elt, sub))[1:],
                bool(g.ifs),
                lambda x: self._eval_ifs(g, x, sub), lambda x: self._eval_elt(e, g, x, sub),
                identity=isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name)
                and e.elt.id == g.target.id,
            )
        # nested generators: concrete outer loops only
        def rec(i: int) -> list:
            g = gens[i]
            itv = self.eval(g.iter, sub if i else frame)
            conc = self.concrete_items(itv)
            if conc is None:
                raise Unsupported("nested comprehension over a symbolic sequence")
            out: list = []
            for x in conc:
                self.assign(g.target, x, sub)
                if all(self.cond(c, sub) for c in g.ifs):
                    if i == len(gens) - 1:
                        out.append(self.eval(e.elt, sub))
                    else:
                        out.extend(rec(i + 1))
            return out

        return rec(0)

    def truth_c(self, v: Any) -> Any:
        return self.truth(v)

    def _eval_ifs(self, g: Any, x: Any, sub: Frame) -> bool:
        self.assign(g.target, x, sub)
        for c in g.ifs:
            if not self.cond(c, sub):
                return False
        return True

    def _eval_elt(self, e: Any, g: Any, x: Any, sub: Frame) -> Any:
        self.assign(g.target, x, sub)
        return self.eval(e.elt, sub)

    # -- calls
    def e_Call(self, e: ast.Call, frame: Frame) -> Any:
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f: Frame | None = frame
            while f is not None and f.self_val is None:
                f = f.parent
            if f is None:
                raise Unsupported("super() outside of a method")
            return SuperVal(f.cls, f.self_val)
        fn = self.eval(e.func, frame)
        args: list = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, frame)
                items = self.concrete_items(v)
                if items is None:
                    if isinstance(fn, Native) and getattr(fn, "symstar", False):
                        args.append(v)
                        continue
                    raise Unsupported("*args of symbolic length")
                args.extend(items)
            else:
                args.append(self.eval(a, frame))
        kwargs: dict = {}
        for k in e.keywords:
            v = self.eval(k.value, frame)
            if k.arg is None:
                if not (isinstance(v, PyDict) and isinstance(v.content, dict)):
                    raise Unsupported("**kwargs of a symbolic dict")
                kwargs.update(v.content)
            else:
                kwargs[k.arg] = v
        self.note(e, frame)
        return self.call(fn, args, kwargs)

    def call(self, fn: Any, args: list, kwargs: dict) -> Any:
        if isinstance(fn, Native):
            return fn.fn(self, args, kwargs)
        if isinstance(fn, BoundMethod):
            if isinstance(fn.func, FuncVal):
                return self.call_funcval(fn.func, [fn.self_val] + args, kwargs)
            return self.call(fn.func, [fn.self_val] + args, kwargs)
        if isinstance(fn, FuncVal):
            return self.call_funcval(fn, args, kwargs)
        if isinstance(fn, ClassInfo):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, BuiltinCls):
            return self.b.call_builtin_class(self, fn, args, kwargs)
        if isinstance(fn, Ext):
            return self.b.call_ext(self, fn, args, kwargs)
        if isinstance(fn, Model):
            m = fn.find_method("__call__")
            if m is not None:
                return m(self.ctx, *args, **kwargs)
        if isinstance(fn, Obj) and isinstance(fn.cls, ClassInfo):
            hit = fn.cls.find("__call__")
            if hit is not None:
                return self.call(BoundMethod(self._member_func(hit, "__call__"), fn), args, kwargs)
        raise Unsupported(f"call of {fn!r}")

    frames: list = []

    def call_funcval(self, f: FuncVal, args: list, kwargs: dict) -> Any:
        handler = self.ctx.contracts.get(f.qualname)
        if handler is not None:
            self.ctx.ex.result.contracts_used.add(f.qualname)
            return handler(self, self.bind(f, args, kwargs))
        over = self.b.FUNC_OVERRIDES.get(f.qualname)
        if over is not None:
            return over(self, args, kwargs)
        if self.ctx.merge_calls and not self.ctx.pure and not isinstance(f.node, ast.Lambda):
            if any(fnmatch.fnmatchcase(f.qualname, p) for p in self.ctx.merge_calls):
                return self.call_merged(f, args, kwargs)
        return self.call_body(f, args, kwargs)

    def call_merged(self, f: FuncVal, args: list, kwargs: dict) -> Any:
        """A side-effect-free predicate: its paths are joined into one term."""
        cases = self.ctx.summarize(lambda: self.call_body(f, args, kwargs))
        vals = []
        for cond, kind, v in cases:
            if kind == "exc":
                if self.ctx.branch(cond):
                    raise v
            else:
                vals.append((cond, v))
        if not vals:
            raise PathEnd()
        out = vals[-1][1]
        for cond, v in reversed(vals[:-1]):
            out = merge(cond, v, out)
        return z3.simplify(out) if is_z3(out) else out

    def call_body(self, f: FuncVal, args: list, kwargs: dict) -> Any:
        if "contextmanager" in f.decorators or "contextlib.contextmanager" in f.decorators:
            return GenCM(self.ctx, f, args, kwargs)
        for d in f.decorators:
            if d not in NEUTRAL_DECORATORS and not d.endswith(".setter") and not d.startswith("torch."):
                raise Unsupported(f"decorator @{d} on {f.qualname}")
        if isinstance(f.node, ast.FunctionDef) and is_generator(f.node):
            return self.run_generator(f, args, kwargs)
        frame = self.make_frame(f, args, kwargs)
        return self.run_frame(f, frame)

    def run_generator(self, f: FuncVal, args: list, kwargs: dict) -> Any:
        """A generator consumed eagerly (sound when its body has no interleaved effects)."""
        frame = self.make_frame(f, args, kwargs)
        out = PyList(self.ctx, [])
        frame.vars["<yields>"] = out

        def on_yield(v: Any) -> Any:
            self.b.list_append(self, out, v)
            return None

        frame.on_yield = on_yield
        self.run_frame(f, frame)
        return out

    def make_frame(self, f: FuncVal, args: list, kwargs: dict) -> Frame:
        frame = Frame(self.ctx, f.module, f.closure, f)
        frame.vars.update(self.bind(f, args, kwargs))
        if f.cls is not None and f.closure is None and args and "staticmethod" not in f.decorators:
            frame.self_val = args[0]
        return frame

    def run_frame(self, f: FuncVal, frame: Frame) -> Any:
        self.depth += 1
        if self.depth > 60:
            raise Unsupported(f"recursion through {f.qualname} without a contract")
        if not self.ctx.pure or True:
            self.ctx.ex.result.functions.add(f.qualname)
        self.frames = self.frames + [frame]
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, frame)
            try:
                self.exec_block(f.node.body, frame)
            except _Return as r:
                return r.value
            return None
        finally:
            self.depth -= 1
            self.frames = self.frames[:-1]

    def bind(self, f: FuncVal, args: list, kwargs: dict) -> dict:
        a = f.node.args
        out: dict = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        dframe = f.closure if f.closure is not None else Frame(None, f.module, None, f)
        if len(args) > len(pos):
            if a.vararg is None:
                raise self.exc(TypeError, f"too many arguments for {f.name}")
            out[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for n in pos[len(args):]:
            if n in kwargs:
                out[n] = kwargs.pop(n)
            elif n in defaults:
                out[n] = self.eval(defaults[n], dframe)
            else:
                raise self.exc(TypeError, f"missing argument {n} for {f.name}")
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                out[x.arg] = self.eval(d, dframe)
            else:
                raise self.exc(TypeError, f"missing argument {x.arg} for {f.name}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = PyDict(self.ctx, kwargs)
        elif kwargs:
            raise self.exc(TypeError, f"unexpected arguments {sorted(kwargs)} for {f.name}")
        return out

    # -- classes
    def instantiate(self, c: ClassInfo, args: list, kwargs: dict) -> Any:
        maker = self.ctx.class_models.get(c.qualname)
        if maker is not None:
            return maker(self, args, kwargs)
        maker = self.b.CLASS_OVERRIDES.get(c.qualname)
        if maker is not None:
            return maker(self, args, kwargs)
        if c.is_enum:
            if len(args) == 1:
                for m in self.enum_members(c.qualname):
                    if py_eq(m.value, args[0]) is True:
                        return m
            raise Unsupported("enum by value")
        o = Obj(self.ctx, c)
        hit = c.find("__init__")
        if hit is not None:
            self.call(BoundMethod(self._member_func(hit, "__init__"), o), args, kwargs)
            return o
        if any(isinstance(x, ClassInfo) and x.is_dataclass for x in c.mro):
            self._dataclass_init(c, o, args, kwargs)
            return o
        o.fields["args"] = tuple(args)
        return o

    def _dataclass_init(self, c: ClassInfo, o: Obj, args: list, kwargs: dict) -> None:
        fields: dict[str, tuple] = {}
        for k in reversed([x for x in c.mro if isinstance(x, ClassInfo) and x.is_dataclass]):
            for n, d, ann in k.fields:
                if ann.startswith("ClassVar") or ann == "KW_ONLY":
                    continue
                fields[n] = (d, k)
        names = list(fields)
        if len(args) > len(names):
            raise self.exc(TypeError, "too many arguments")
        given = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in fields or k in given:
                raise self.exc(TypeError, f"bad argument {k}")
            given[k] = v
        for n, (d, k) in fields.items():
            if n in given:
                o.fields[n] = given[n]
            elif d is None:
                raise self.exc(TypeError, f"missing argument {n}")
            else:
                fr = Frame(None, k.module, None, None)
                if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                    kw = {x.arg: x.value for x in d.keywords}
                    if "default_factory" in kw:
                        o.fields[n] = self.call(self.eval(kw["default_factory"], fr), [], {})
                    elif "default" in kw:
                        o.fields[n] = self.eval(kw["default"], fr)
                    else:
                        raise self.exc(TypeError, f"missing argument {n}")
                else:
                    o.fields[n] = self.eval(d, fr)
        hit = c.find("__post_init__")
        if hit is not None:
            self.call(BoundMethod(self._member_func(hit, "__post_init__"), o), [], {})

    def _member_func(self, hit: tuple, name: str) -> FuncVal:
        c, m = hit
        if m[0] == "assign":
            raise Unsupported(f"class attribute {name} used as a method")
        key = ("member", id(m[1]))
        f = self.globals_memo.get(key)
        if f is None:
            f = self.globals_memo[key] = FuncVal(None, m[1], c.module, None, c,
                                                 f"{c.module.name}:{c.name}.{name.lstrip('=')}")
        return f

    def class_attr(self, c: ClassInfo, name: str, after: Any = None, missing: Any = None) -> Any:
        if name == "__name__":
            return c.name
        if c.is_enum and name in c.members and c.members[name][0] == "assign":
            if name not in c.enum_members:
                v = self.eval(c.members[name][1], Frame(None, c.module, None, None)) if not isinstance(
                    c.members[name][1], ast.Call) else name
                c.enum_members[name] = EnumMember(c, name, v)
            return c.enum_members[name]
        hit = c.find(name, after)
        if hit is None:
            if missing is not None:
                return missing
            raise self.exc(AttributeError, name)
        if hit[1][0] == "assign":
            return self.eval(hit[1][1], Frame(None, hit[0].module, None, None))
        if hit[1][0] == "class":
            return self.world.cls(hit[0].module, hit[1][1], hit[0].name + ".")
        f = self._member_func(hit, name)
        if "classmethod" in f.decorators:
            return BoundMethod(f, c)
        return f

    # -- attributes
    def getattr(self, o: Any, name: str) -> Any:
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassInfo):
                hit = o.cls.find(name)
                if hit is not None and hit[1][0] == "func":
                    f = self._member_func(hit, name)
                    if "property" in f.decorators:
                        return self.call(f, [o], {})
                    if "cached_property" in f.decorators:
                        if name in o.fields:
                            return o.fields[name]
                        v = self.call_body(f, [o], {})
                        o.setf(self.ctx, name, v)
                        return v
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"read of {o!r}.{name} ({v.why})")
                return v
            if isinstance(o, Model):
                g = getattr(o, "getattr", None)
                if g is not None:
                    r = g(self.ctx, name)
                    if r is not NotImplemented:
                        return r
                m = o.find_method(name)
                if m is not None:
                    return Native(lambda it, a, k, m=m: m(it.ctx, *a, **k), name)
                if not isinstance(o.cls, ClassInfo):
                    raise Unsupported(f"attribute {name} of {o!r}")
            if isinstance(o.cls, ClassInfo):
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return PyDict(self.ctx, dict(o.fields))
                hit = o.cls.find(name)
                if hit is not None:
                    if hit[1][0] == "func":
                        f = self._member_func(hit, name)
                        if "staticmethod" in f.decorators:
                            return f
                        if "classmethod" in f.decorators:
                            return BoundMethod(f, o.cls)
                        return BoundMethod(f, o)
                    return self.class_attr(o.cls, name)
                ext = self.b.inherited_attr(self, o, name)
                if ext is not None:
                    return ext
                if not o.closed:
                    raise Unsupported(f"attribute {name} of partially specified {o!r}")
                if any(isinstance(c, Ext) for c in o.cls.mro):
                    unknown = [c for c in o.cls.mro if isinstance(c, Ext)
                               and c.name.split(".")[-1] not in ("ABC", "Protocol", "Generic", "Enum")]
                    if unknown:
                        raise Unsupported(f"attribute {name} inherited from {unknown}")
            if isinstance(o.cls, BuiltinCls) and name == "args":
                return o.fields.get("args", ())
            if isinstance(o.cls, (BuiltinCls, Ext)):
                raise Unsupported(f"attribute {name} of exception object")
            if name in getattr(o, "undefined_fields", ()):
                raise Unsupported(f"unspecified field {name}")
            raise self.exc(AttributeError, name)
        if isinstance(o, SuperVal):
            hit = o.self_val.cls.find(name, o.cls)
            if hit is not None:
                f = self._member_func(hit, name)
                if "property" in f.decorators:
                    return self.call(f, [o.self_val], {})
                return BoundMethod(f, o.self_val)
            return self.b.super_builtin(self, o, name)
        if isinstance(o, Entity):
            return o.model.getattr(self, o, name)
        if isinstance(o, ClassInfo):
            return self.class_attr(o, name)
        if isinstance(o, ModuleInfo):
            return self.global_name(o, name)
        if isinstance(o, Ext):
            return self.b.ext_value(self, Ext(o.name + "." + name))
        if isinstance(o, EnumMember):
            if name in ("name", "value"):
                return getattr(o, name)
            hit = o.cls.find(name)
            if hit is not None:
                return BoundMethod(self._member_func(hit, name), o)
        if hasattr(o, "getattr_"):
            return o.getattr_(self, name)
        return self.b.builtin_attr(self, o, name)

    def setattr(self, o: Any, name: str, v: Any) -> None:
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassInfo):
                hit = o.cls.find("=" + name)
                if hit is not None:
                    self.call(self._member_func(hit, "=" + name), [o, v], {})
                    return
                if any("frozen=True" in d for d in o.cls.decorators):
                    raise self.exc(AttributeError, name)
            if isinstance(o, Model) and hasattr(o, "setattr"):
                if o.setattr(self.ctx, name, v) is not NotImplemented:
                    return
            o.setf(self.ctx, name, v)
            return
        if isinstance(o, Entity) and hasattr(o.model, "setattr"):
            o.model.setattr(self, o, name, v)
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    # -- items
    def getitem(self, o: Any, i: Any) -> Any:
        return self.b.getitem(self, o, i)

    def setitem(self, o: Any, i: Any, v: Any) -> None:
        self.b.setitem(self, o, i, v)

    # -- truth
    def truth(self, v: Any) -> Any:
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PyList):
            if v.sym:
                return simp(z3.simplify(zint(v.content.length) != 0))
            return len(v.content) > 0
        if isinstance(v, PyDict) and isinstance(v.content, dict):
            return len(v.content) > 0
        if isinstance(v, FStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
        if isinstance(v, PySet):
            items, preds = v.content
            if not preds:
                return len(items) > 0
        if isinstance(v, Entity) and hasattr(v.model, "truth"):
            return v.model.truth(self, v)
        if hasattr(v, "truth"):
            return v.truth(self)
        if isinstance(v, Obj) and isinstance(v.cls, ClassInfo):
            if v.cls.find("__bool__") is not None:
                return self.truth(self.call_method(v, "__bool__"))
            if v.cls.find("__len__") is not None:
                return self.truth(self.call_method(v, "__len__"))
            return True
        if isinstance(v, (EnumMember, FuncVal, BoundMethod, ClassInfo, PathVal, Ext, Native, BuiltinCls)):
            return True
        if isinstance(v, Model):
            return True
        raise Unsupported(f"truth of {v!r}")

    def isinstance(self, v: Any, cls: Any) -> Any:
        return self.b.isinstance_(self, v, cls)


class GenCM(HObj):
    """The result of calling a @contextmanager function."""

    def __init__(self, ctx: Path, f: FuncVal, args: list, kwargs: dict) -> None:
        super().__init__(ctx)
        self.f, self.args, self.kwargs = f, args, kwargs

    def run(self, it: Interp, inner: Callable[[Any], None]) -> None:
        frame = it.make_frame(self.f, self.args, self.kwargs)
        signal: list = []
        count = [0]

        def on_yield(v: Any) -> Any:
            count[0] += 1
            if count[0] > 1:
                raise it.exc(RuntimeError, "generator didn't stop")
            saved, it.frames = it.frames, it.frames
            try:
                inner(v)
            except (_Return, _Break, _Continue) as s:
                signal.append(s)
            finally:
                it.frames = saved
            return None

        frame.on_yield = on_yield
        it.run_frame(self.f, frame)
        if count[0] == 0:
            raise it.exc(RuntimeError, "generator didn't yield")
        if signal:
            raise signal[0]


_GEN: dict[int, tuple] = {}


def is_generator(node: ast.FunctionDef) -> bool:
    hit = _GEN.get(id(node))
    if hit is None or hit[0] is not node:
        hit = _GEN[id(node)] = (node, _is_generator(node))
    return hit[1]


def _is_generator(node: ast.FunctionDef) -> bool:
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def default_cands(v: LoopView, dropped: Any = ()) -> dict[str, Any]:
    """Generic loop-invariant candidates, filtered to the inductive ones (Houdini)."""
    out: dict[str, Any] = {}
    nums: list[tuple[str, Any, Any]] = []

    def add(name: str, mk: Callable[[], Any]) -> None:
        if name not in dropped:
            out[name] = mk()

    for name, cur in v.cur.items():
        ent = v.entry[name]
        if isinstance(cur, (SymSeq, list)):
            ln = cur.length if isinstance(cur, SymSeq) else len(cur)
            if isinstance(ent, (SymSeq, list)):
                le = ent.length if isinstance(ent, SymSeq) else len(ent)
                nums.append((f"len({name})", zint(ln), zint(le)))
        elif is_int_like(cur) and not isinstance(cur, (bool, z3.BoolRef)):
            c = zint(cur)
            if is_int_like(ent) and not isinstance(ent, (bool, z3.BoolRef)):
                nums.append((name, c, zint(ent)))
            add(f"{name}>=0", lambda: c >= 0)
            add(f"{name}>=1", lambda: c >= 1)
        elif isinstance(cur, Fraction) or is_sym_real(cur):
            add(f"{name}>=0", lambda: zreal(cur) >= 0)
            if is_num(ent):
                add(f"{name}==entry", lambda: zreal(cur) == zreal(ent))
                add(f"{name}>=entry", lambda: zreal(cur) >= zreal(ent))
                add(f"{name}<=entry", lambda: zreal(cur) <= zreal(ent))
        elif isinstance(cur, (bool, z3.BoolRef)):
            if isinstance(ent, (bool, z3.BoolRef)):
                add(f"{name}==entry", lambda: zbool(cur) == zbool(ent))
                add(f"entry=>{name}", lambda: z_implies(ent, cur))
                add(f"{name}=>entry", lambda: z_implies(cur, ent))
    for name, x, x0 in nums:
        add(f"{name}==entry", lambda: x == x0)
        add(f"{name}>=entry", lambda: x >= x0)
        add(f"{name}<=entry", lambda: x <= x0)
        add(f"{name}==entry+k", lambda: x == x0 + v.k)
        add(f"{name}==entry-k", lambda: x == x0 - v.k)
        add(f"{name}<=entry+k", lambda: x <= x0 + v.k)
    if v.ctx.memo.get("no-pair-cands"):
        return out
    for i, (n1, x1, e1) in enumerate(nums):
        for n2, x2, e2 in nums[i + 1:]:
            add(f"{n1}=={n2}", lambda: x1 == x2)
            add(f"{n1}<={n2}", lambda: x1 <= x2)
            add(f"{n1}>={n2}", lambda: x1 >= x2)
            add(f"d{n1}==d{n2}", lambda: x1 - e1 == x2 - e2)
            add(f"{n1}+{n2}==entry", lambda: x1 + x2 == e1 + e2)
    return out
