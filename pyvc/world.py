"""Loads the modules of /repo as ASTs; classes, functions and globals are resolved lazily."""
from __future__ import annotations

import ast
import builtins
import os
from typing import Any

from .core import Unsupported
from .values import BuiltinCls, Ext

REPO = os.environ.get("VERIF_REPO", "/repo")


class ModuleInfo:
    def __init__(self, world: "World", name: str, path: str, tree: ast.Module, is_pkg: bool) -> None:
        self.world, self.name, self.path, self.tree, self.is_pkg = world, name, path, tree, is_pkg
        self.defs: dict[str, tuple] = {}
        self._scan(tree.body)

    def _scan(self, body: list) -> None:
        for n in body:
            if isinstance(n, ast.FunctionDef):
                if n.name in self.defs and self.defs[n.name][0] == "func":
                    # overloads / redefinitions: the last one wins
                    pass
                self.defs[n.name] = ("func", n)
            elif isinstance(n, ast.ClassDef):
                self.defs[n.name] = ("class", n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("assign", n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self.defs[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name, None)
                    else:
                        top = a.name.split(".")[0]
                        self.defs[top] = ("import", top, None)
            elif isinstance(n, ast.ImportFrom):
                base = self._abs(n)
                for a in n.names:
                    self.defs[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
            elif isinstance(n, ast.If):
                if isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
                    self._scan(n.body)
                    continue
                self._scan(n.body)
                self._scan(n.orelse)

    def _abs(self, n: ast.ImportFrom) -> str:
        if not n.level:
            return n.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def __repr__(self) -> str:
        return f"<module {self.name}>"


class ClassInfo:
    def __init__(self, module: ModuleInfo, node: ast.ClassDef, outer: str = "") -> None:
        self.module, self.node = module, node
        self.name = node.name
        self.qualname = f"{module.name}:{outer}{node.name}"
        self._bases: list | None = None
        self._mro: list | None = None
        self.members: dict[str, tuple] = {}
        self.enum_members: dict[str, Any] = {}
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_dataclass = any(d.split("(")[0].split(".")[-1] == "dataclass" for d in self.decorators)
        self.dc_kw_only = any("kw_only=True" in d for d in self.decorators)
        self.dc_eq = not any("eq=False" in d for d in self.decorators)
        self.fields: list[tuple[str, Any, str]] = []  # name, default expr, annotation
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                decs = [ast.unparse(d) for d in n.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    self.members["=" + n.name] = ("func", n)
                elif any(d == "overload" for d in decs):
                    continue
                else:
                    self.members[n.name] = ("func", n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = ("assign", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                ann = ast.unparse(n.annotation)
                self.fields.append((n.target.id, n.value, ann))
                if n.value is not None:
                    self.members[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.ClassDef):
                self.members[n.name] = ("class", n)

    @property
    def bases(self) -> list:
        if self._bases is None:
            out = []
            for b in self.node.bases:
                e = b.value if isinstance(b, ast.Subscript) else b
                try:
                    v = self.module.world.static_eval(self.module, e)
                except Unsupported:
                    v = Ext("?" + ast.unparse(e))
                out.append(v)
            self._bases = out
        return self._bases

    @property
    def mro(self) -> list:
        if self._mro is None:
            seqs = [list(b.mro) if isinstance(b, ClassInfo) else [b] for b in self.bases]
            out = [self]
            for s in seqs:
                for c in s:
                    if c in out:
                        if isinstance(c, ClassInfo):  # keep the last occurrence (approximates C3)
                            out.remove(c)
                            out.append(c)
                    else:
                        out.append(c)
            self._mro = out
        return self._mro

    @property
    def is_enum(self) -> bool:
        return any(isinstance(c, Ext) and c.name.split(".")[-1] in ("Enum", "IntEnum", "StrEnum")
                   for c in self.mro)

    def find(self, name: str, after: Any = None) -> tuple | None:
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo) and name in c.members:
                return c, c.members[name]
        return None

    def is_subclass(self, other: Any) -> bool:
        for c in self.mro:
            if c is other:
                return True
            if isinstance(c, BuiltinCls) and isinstance(other, BuiltinCls) and issubclass(c.t, other.t):
                return True
            if isinstance(c, Ext) and isinstance(other, BuiltinCls):
                t = EXT_EXC.get(c.name)
                if t is not None and issubclass(t, other.t):
                    return True
        if isinstance(other, BuiltinCls) and other.t is object:
            return True
        return False

    def __repr__(self) -> str:
        return f"<class {self.qualname}>"


EXT_EXC = {"pickle.PickleError": Exception, "torch.OutOfMemoryError": RuntimeError,
           "torch.cuda.OutOfMemoryError": RuntimeError}


class World:
    def __init__(self, repo: str | None = None) -> None:
        self.repo = repo or REPO
        self.src = os.path.join(self.repo, "src")
        self.modules: dict[str, ModuleInfo | None] = {}
        self.classes: dict[int, ClassInfo] = {}

    def module(self, name: str) -> ModuleInfo | None:
        if name in self.modules:
            return self.modules[name]
        info = None
        if name == "fairseq2" or name.startswith("fairseq2."):
            base = os.path.join(self.src, *name.split("."))
            for path, pkg in ((base + ".py", False), (os.path.join(base, "__init__.py"), True)):
                if os.path.isfile(path):
                    with open(path, encoding="utf-8") as f:
                        text = f.read()
                    info = ModuleInfo(self, name, path, ast.parse(text), pkg)
                    break
        self.modules[name] = info
        return info

    def cls(self, module: ModuleInfo, node: ast.ClassDef, outer: str = "") -> ClassInfo:
        c = self.classes.get(id(node))
        if c is None:
            c = self.classes[id(node)] = ClassInfo(module, node, outer)
        return c

    def get_class(self, qualname: str) -> ClassInfo:
        mod, name = qualname.split(":")
        v = self.resolve(self._mod(mod), name)
        if not isinstance(v, ClassInfo):
            raise Unsupported(f"{qualname} is not a class")
        return v

    def _mod(self, name: str) -> ModuleInfo:
        m = self.module(name)
        if m is None:
            raise Unsupported(f"module {name} not found")
        return m

    def resolve(self, module: ModuleInfo, name: str) -> Any:
        """Static resolution: ClassInfo, ('func', module, node), ('assign', module, expr), Ext, module."""
        d = module.defs.get(name)
        if d is None:
            sub = self.module(module.name + "." + name) if module.is_pkg else None
            if sub is not None:
                return sub
            if hasattr(builtins, name):
                v = getattr(builtins, name)
                return BuiltinCls(v) if isinstance(v, type) else Ext("builtins." + name)
            raise Unsupported(f"name {name} not found in {module.name}")
        if d[0] == "class":
            return self.cls(module, d[1])
        if d[0] == "func":
            return ("func", module, d[1])
        if d[0] == "assign":
            return ("assign", module, d[1], name)
        _, base, attr = d
        m = self.module(base)
        if attr is None:
            return m if m is not None else Ext(base)
        if m is not None:
            sub = self.module(base + "." + attr)
            if attr not in m.defs and sub is not None:
                return sub
            return self.resolve(m, attr)
        return Ext(base + "." + attr)

    def static_eval(self, module: ModuleInfo, e: ast.expr) -> Any:
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            v = self.static_eval(module, e.value)
            if isinstance(v, Ext):
                return Ext(v.name + "." + e.attr)
            if isinstance(v, ModuleInfo):
                return self.resolve(v, e.attr)
        raise Unsupported(f"static expression {ast.unparse(e)}")
