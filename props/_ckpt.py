"""Environment of StandardCheckpointManager: file system, gangs, file dumper and thread pool by contract."""
from __future__ import annotations

from typing import Any

import z3

from pyvc.api import *
from pyvc.extlib import NullCM

M = "fairseq2.checkpoint.manager"
CLS = f"{M}:StandardCheckpointManager"
BASE = "ckpt"


class Gang(Model):
    def __init__(self, ctx, env, name, rank, size):
        super().__init__(ctx, None, rank=rank, size=size)
        self.env, self.gname = env, name

    def m_barrier(self, ctx):
        self.env.emit("barrier", self.gname)

    def getattr(self, ctx, name):
        if name == "device":
            return Model(ctx, None, type="cpu")
        return NotImplemented


class Comp:
    """A directory entry's name and what is derived from it; entity id = index of the entry."""

    def __init__(self, d, what):
        self.d, self.what = d, what
        self.name = what

    def eq(self, e, other):
        d, i = self.d, e.id
        if self.what == "name" and isinstance(other, FStr) and len(other.parts) == 2 \
                and other.parts[0] == "step_" and other.parts[1][1] == "":
            return z_and(d.canon(i), d.num(i) == zint(other.parts[1][0]))
        if self.what in ("name", "stem") and isinstance(other, str):
            if other not in d.codes:
                raise Unsupported(f"comparison of a directory entry with {other!r}")
            return (d.stem if self.what == "stem" else d.nm)(i) == d.codes[other]
        if isinstance(other, Entity) and other.model is self:
            return NotImplemented
        raise Unsupported("comparison of a directory entry's name")

    def getitem(self, it, e, i):
        if self.what == "name" and type(i).__name__ == "SliceVal" and (i.lo, i.hi, i.step) in ((5, None, None), (5, None, 1)):
            return Entity(self.d.models["suffix"], e.id)
        raise Unsupported("part of a directory entry's name")

    def to_int(self, it, e):
        if self.what != "suffix":
            raise Unsupported("int() of a directory entry's name")
        if it.ctx.branch(self.d.parses(e.id)):
            return self.d.num(e.id)
        raise it.exc(ValueError, "int")

    def getattr(self, it, e, name):
        d = self.d
        if self.what == "name" and name == "startswith":
            def sw(i, a, k):
                if a == ["step_"] or tuple(a) == ("step_",):
                    return d.starts(e.id)
                raise Unsupported("startswith")
            return Native(sw, name)
        if self.what == "name" and name == "removeprefix":
            def rp(i, a, k):
                if list(a) == ["step_"]:
                    if i.ctx.branch(d.starts(e.id)):
                        return Entity(d.models["suffix"], e.id)
                raise Unsupported("removeprefix")
            return Native(rp, name)
        raise Unsupported(f"{name} of a directory entry's name")


class Entry:
    """A path found in a directory listing."""

    name = "entry"

    def __init__(self, d):
        self.d = d

    def getattr(self, it, e, name):
        d = self.d
        if name in ("name", "stem"):
            return Entity(d.models[name], e.id)
        if name == "joinpath":
            def jp(i, a, k):
                if list(a) == ["trainer"]:
                    return Entity(d.models["trainer"], e.id)
                raise Unsupported("path below a directory entry")
            return Native(jp, name)
        raise Unsupported(f"{name} of a directory entry")

    def binop(self, it, e, op, other, swapped):
        return NotImplemented


class Trainer:
    name = "trainer dir"

    def __init__(self, d):
        self.d = d


MODELS: dict = {}


class Dir:
    """Any directory content: n entries; each with a name, a kind and possibly trainer state."""

    def __init__(self, ctx, tag):
        I, B = z3.IntSort(), z3.BoolSort()
        f = lambda n, r: ctx.func(f"{tag}.{n}", I, r)
        self.n = ctx.int(f"{tag}.entries", lo=0, inp=True)
        self.is_dir, self.canon, self.parses, self.has_trainer, self.starts = (
            f(x, B) for x in ("is_dir", "canonical", "parses", "has_trainer", "starts"))
        self.num, self.stem, self.nm = f("num", I), f("stem", I), f("nm", I)
        self.codes = {s: k for k, s in enumerate(["model", "hg", "hook", "trainer", "optimizer", "data_reader"])}
        # one model object per kind of entity for all paths: loops compare kinds across paths
        self.models = MODELS.setdefault(tag, None) or MODELS.__setitem__(tag, {
            **{x: Comp(self, x) for x in ("name", "stem", "suffix")}, "entry": Entry(self), "trainer": Trainer(self),
        }) or MODELS[tag]
        for m in self.models.values():
            m.d = self
        i, j = z3.Ints("di dj")
        # "step_<n>" begins with "step_", and its rest parses as n; names in a directory are unique
        ctx.fact(z3.ForAll([i], z3.Implies(self.canon(i), z3.And(self.starts(i), self.parses(i))),
                           patterns=[self.canon(i)]))
        ctx.fact(z3.ForAll([i, j], z3.Implies(z3.And(self.canon(i), self.canon(j), self.num(i) == self.num(j)), i == j),
                           patterns=[z3.MultiPattern(self.num(i), self.num(j))]))
        ctx.fact(z3.ForAll([i], z3.And(*[z3.Implies(self.nm(i) == c, self.stem(i) == c) for c in self.codes.values()]),
                           patterns=[self.nm(i)]))

    def listing(self, ctx):
        return PyList(ctx, SymSeq(self.n, lambda i: Entity(self.models["entry"], zint(i)),
                                  ("ent", self.models["entry"])))


class FS(Model):
    def __init__(self, ctx, env):
        super().__init__(ctx, None)
        self.env = env

    def m_is_local_path(self, ctx, path):
        return self.env.local

    def getattr(self, ctx, name):
        return self.env.local if name == "is_local" else NotImplemented

    def m_make_directory(self, ctx, path):
        self.env.emit("mkdir", path)

    def m_move(self, ctx, a, b):
        self.env.emit("move", a, b)

    def m_remove_directory(self, ctx, path):
        if isinstance(path, Entity):
            self.env.on_remove(path, True)
            return
        self.env.emit("rmdir", path)
        if any(same(ctx, path, p) for p in self.env.known):
            return
        if not ctx.branch(ctx.bool("exists_for_rmdir")):
            raise self.env.it.exc(FileNotFoundError, "")

    def m_remove(self, ctx, path):
        if isinstance(path, Entity):
            self.env.on_remove(path, False)
            return
        self.env.emit("rm", path)
        if not ctx.branch(ctx.bool("exists_for_rm")):
            raise self.env.it.exc(FileNotFoundError, "")

    def m_exists(self, ctx, path):
        if isinstance(path, Entity):
            if path.model is path.model.d.models["trainer"]:
                return path.model.d.has_trainer(path.id)
            raise Unsupported("exists() of a directory entry")
        r = self.env.exists(path)
        if ctx.branch(r):
            self.env.known.append(path)
            return True
        return False

    def m_is_dir(self, ctx, path):
        if isinstance(path, Entity) and path.model is path.model.d.models["entry"]:
            return path.model.d.is_dir(path.id)
        raise Unsupported("is_dir()")

    def m_is_file(self, ctx, path):
        if isinstance(path, Entity) and path.model is path.model.d.models["entry"]:
            return z3.Not(path.model.d.is_dir(path.id))
        raise Unsupported("is_file()")

    def m_glob(self, ctx, path, pattern):
        return self.env.glob(path, pattern)

    def m_open_text(self, ctx, path, mode=None):
        return self.env.open_text(path, mode)


class Dumper(Model):
    def __init__(self, ctx, env):
        super().__init__(ctx, None)
        self.env = env

    def m_dump(self, ctx, data, path, options=None):
        self.env.emit("dump", path, data)


class Loader(Model):
    def __init__(self, ctx, env):
        super().__init__(ctx, None)
        self.env = env

    def m_load(self, ctx, path, options=None):
        self.env.emit("load", path)
        return PyDict(ctx, {"loaded": path})


class Fut(Model):
    """A queued save: it runs at some point between queue() and result()."""

    def __init__(self, ctx, env, fn, early):
        super().__init__(ctx, None, value=None, finished=False)
        self.env, self.fn = env, fn
        if early:
            self.go(ctx)

    def go(self, ctx):
        if not self.fields["finished"]:
            self.setf(ctx, "finished", True)
            self.setf(ctx, "value", self.env.it.call(self.fn, [], {}))

    def m_result(self, ctx, timeout=None):
        self.go(ctx)
        return self.fields["value"]

    def m_done(self, ctx):
        d = self.fields["finished"]
        if not d and ctx.branch(ctx.bool("save_finished_meanwhile")):
            self.go(ctx)
        return self.fields["finished"]


class Pool(Model):
    def __init__(self, ctx, env):
        super().__init__(ctx, None)
        self.env = env

    def m_queue(self, ctx, fn, *a, **k):
        self.env.emit("queue")
        return Fut(ctx, self.env, fn, self.env.thread_runs_early)


class State(Model):
    """A component whose state is saved or loaded."""

    def __init__(self, ctx, env, kind):
        super().__init__(ctx, None)
        self.env, self.kind = env, kind
        self.sd = PyDict(ctx, {})
        self.loaded = []

    def m_state_dict(self, ctx):
        return self.sd

    def m_load_state_dict(self, ctx, sd):
        self.loaded.append(sd)


KINDS = ("trainer", "model", "optimizer", "data_reader")


class Env:
    def __init__(self, ctx, it, *, ranks=None, local=True, early=False, rank0=None):
        self.ctx, self.it, self.local, self.thread_runs_early = ctx, it, local, early
        self.log: list[tuple] = []
        self.known: list = []
        names = ("root", "dp", "rdp", "sdp", "tp", "pp")
        if ranks is None:
            ranks = {n: ctx.int(f"{n}_rank", lo=0, inp=True) for n in names}
            if rank0 is True:
                ranks["root"] = 0
            elif rank0 is False:
                ctx.assume(ranks["root"] >= 1)
        self.ranks = ranks
        self.size = ctx.int("world", lo=1, inp=True)
        self.g = {n: Gang(ctx, self, n, ranks[n], self.size if n == "root" else ctx.int(f"{n}_size", lo=1))
                  for n in names}
        self.gangs = Model(ctx, None, **self.g)
        self.fs = FS(ctx, self)
        self.base = PathVal(BASE, ())
        self.dir = Dir(ctx, "dir")
        self.parts = {k: State(ctx, self, k) for k in KINDS}
        self.gate: Any = None
        ct = ctx.contracts
        ct["fairseq2.gang:all_sum"] = self.all_sum
        ct["fairseq2.nn.fsdp:load_with_sdp_gang"] = lambda it, b: NullCM(it.ctx)
        ct["fairseq2.nn.fsdp.common:load_with_sdp_gang"] = lambda it, b: NullCM(it.ctx)
        ct["fairseq2.file_system:_flush_nfs_lookup_cache"] = lambda it, b: None
        ctx.class_models[f"{M}:_CheckpointDeviceToHostMode"] = lambda it, a, k: HostMode(it.ctx)
        self.man = it.instantiate(it.cls(CLS), [], dict(
            output_dir=PathVal("out", ()), gangs=self.gangs, file_system=self.fs, tensor_file_loader=Loader(ctx, self),
            tensor_file_dumper=Dumper(ctx, self), thread_pool=Pool(ctx, self), checkpoint_dir=self.base))
        ctx.roots.append(self.man)

    def emit(self, *ev):
        self.log.append(ev)

    def all_sum(self, it, b):
        """Contract: the sum over all processes of what each of them contributes (0 or 1 here)."""
        v = zint(b["value"])
        r = it.ctx.int("num_done")
        it.ctx.assume(z_and(r >= v, r <= self.size - 1 + v))
        self.emit("all_sum", b.get("gang"))
        return r

    def exists(self, path):
        return self.ctx.bool("exists")

    def glob(self, path, pattern):
        if not isinstance(pattern, str) or pattern not in ("*", "step_*"):
            raise Unsupported(f"glob pattern {pattern!r}")
        self.emit("glob", path, pattern)
        if pattern == "step_*":
            i = z3.Int("gi")
            self.ctx.fact(z3.ForAll([i], self.dir.starts(i), patterns=[self.dir.starts(i)]))
        return self.dir.listing(self.ctx)

    def on_remove(self, e, as_dir):
        raise Unsupported("removal of a directory entry")

    def open_text(self, path, mode):
        raise Unsupported("open_text")

    # vocabulary
    def step(self, n, *rest, tmp=False):
        return PathVal(BASE, (FStr(["step_", (n, "")] + ([".tmp"] if tmp else [])),) + rest)


class HostMode(NullCM):
    def __init__(self, ctx):
        super().__init__(ctx, None, has_cuda=False)


def same(ctx, a, b):
    return ctx.is_valid(zbool(py_eq(a, b)))


def drop_prefix(p, base):
    """Whether p is base or below it."""
    return isinstance(p, PathVal) and p.base == base.base and len(p.comps) >= len(base.comps)


def within(ctx, p, d):
    if not drop_prefix(p, d):
        return False
    return same(ctx, PathVal(p.base, p.comps[:len(d.comps)]), d)
