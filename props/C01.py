from props._ckpt import *

I = z3.IntSort()


def ascending_list(ctx, tag, lo=0):
    """What get_step_numbers() returns (proved as C05): strictly ascending step numbers."""
    f = ctx.func(f"{tag}.step", I, I)
    n = ctx.int(f"{tag}.n", lo=lo, inp=True)
    i, j = z3.Ints("ai aj")
    ctx.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) < f(j)),
                       patterns=[z3.MultiPattern(f(i), f(j))]))
    ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(i) >= 0), patterns=[f(i)]))
    return f, n, SymSeq(n, lambda x: f(zint(x)), ("int",))


class Steps:
    def __init__(self, ctx):
        self.f, self.n, self.seq = ascending_list(ctx, "saved")

    def contract(self, it, b):
        if b.get("exclude_model_only") not in (None, False):
            raise Unsupported("retention over a subset of the checkpoints")
        return PyList(it.ctx, self.seq)


class Scores:
    """Contract of _do_load_scores (proved in unit 'scores'): the scored ones, best first, later first among equals."""

    def __init__(self, ctx, steps):
        self.m = ctx.int("scored", lo=0)
        self.st = ctx.func("scores.step", I, I)
        self.val = ctx.func("scores.value", I, z3.RealSort())
        self.scored = ctx.func("scores.has", I, z3.BoolSort())
        self.pos = ctx.func("scores.pos", I, I)
        self.idx = ctx.func("scores.index", I, I)
        i = z3.Int("si")
        f = steps.f
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.m), z3.And(
            self.scored(self.idx(i)), self.idx(i) >= 0, self.idx(i) < steps.n, f(self.idx(i)) == self.st(i),
            self.pos(self.idx(i)) == i)), patterns=[self.st(i)]))
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < steps.n, self.scored(i)), z3.And(
            self.pos(i) >= 0, self.pos(i) < self.m, self.st(self.pos(i)) == f(i))), patterns=[self.scored(i)]))

    def contract(self, it, b):
        return PyList(it.ctx, SymSeq(self.m, lambda x: (self.val(zint(x)), self.st(zint(x))),
                                     ("tuple", ("real",), ("int",))))


def ask(ctx, it):
    env = Env(ctx, it)
    s = Steps(ctx)
    sc = Scores(ctx, s)
    ctx.contracts[f"{CLS}.get_step_numbers"] = s.contract
    ctx.contracts[f"{CLS}._do_load_scores"] = sc.contract
    ctx.contracts[f"{CLS}.load_scores"] = sc.contract
    opt = {k: (ctx.int(k, inp=True) if ctx.alt(f"{k} set", [False, True]) else None)
           for k in ("keep_last_n", "keep_best_n", "keep_every_n_steps")}
    out = it.outcome(lambda: it.call_method(env.man, "get_stale_step_numbers", **opt))
    return env, s, sc, opt, out


@unit("stale set", about="get_stale_step_numbers: exactly the checkpoints no retention rule protects, ascending")
def stale(ctx, it):
    env, s, sc, opt, out = ask(ctx, it)
    f, n = s.f, s.n
    bad = z_or(*[v <= 0 for v in opt.values() if v is not None])
    if out[0] != "ok":
        ctx.ensure("rejected only for a zero or negative setting", bad)
        ctx.ensure("rejected as a value error", it.subclass(out[1].obj.cls, BuiltinCls(ValueError)))
        ctx.cover("rejected")
        return
    if ctx.branch(z_and(bad, n > 0)):
        ctx.fail("a zero or negative setting is rejected", "accepted")
        return
    ctx.assume(z_not(bad))
    rot = [e for e in env.log if e[0] in ("rmdir", "rm", "move", "mkdir", "dump")]
    ctx.ensure("the query modifies nothing", not rot)
    last, best, every = opt["keep_last_n"], opt["keep_best_n"], opt["keep_every_n_steps"]

    def is_stale(i):
        if last is None and best is None and every is None:
            return FALSE
        keep = [i == n - 1]
        if last is not None:
            keep.append(i >= n - last)
        if best is not None:
            keep.append(z_and(sc.scored(i), sc.pos(i) < best))
        if every is not None:
            keep.append(f(i) % every == 0)
        return z_not(z_or(*keep))

    r = it.seq_of(out[1])
    m, at = zint(r.length), int_at(r)
    i = z3.Int("wi")
    x, y = ctx.int("x", lo=0), ctx.int("y", lo=0)
    if ctx.branch(x < m):
        ctx.ensure("only stale checkpoints are reported",
                   z3.Exists([i], z3.And(i >= 0, i < n, is_stale(i), f(i) == at(x))))
        if ctx.branch(z_and(x < y, y < m)):
            ctx.ensure("in ascending order", at(x) < at(y))
        ctx.cover("something is stale")
    e = ctx.int("e", lo=0)
    if ctx.branch(z_and(e < n, is_stale(e))):
        ctx.ensure("every stale checkpoint is reported", z3.Exists([i], z3.And(i >= 0, i < m, at(i) == f(e))))
        ctx.cover("a stale one")
    ctx.require_cover("something is stale", "a stale one", "rejected")


class ScoreFile(Model):
    def __init__(self, ctx, line):
        super().__init__(ctx, None)
        self.line = line

    def m_readline(self, ctx):
        return self.line

    def m_read(self, ctx):
        return self.line

    def m_close(self, ctx):
        return None


class Line:
    """Content of the score file of the checkpoint with index id."""

    name = "score line"

    def to_float(self, it, e):
        if it.ctx.branch(self.parses(e.id)):
            return self.val(e.id)
        raise it.exc(ValueError, "float")


LINE = Line()


class ScoreFS:
    def __init__(self, ctx, env, s):
        self.ctx, self.env, self.s = ctx, env, s
        R, B = z3.RealSort(), z3.BoolSort()
        self.has, LINE.parses, LINE.val = ctx.func("file.exists", I, B), ctx.func("file.ok", I, B), ctx.func("file.val", I, R)
        self.index = ctx.func("index_of", I, I)
        i = z3.Int("ii")
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), self.index(s.f(i)) == i), patterns=[s.f(i)]))

    def open_text(self, path, mode):
        if mode is not None and getattr(mode, "name", None) != "READ":
            raise Unsupported("open mode")
        # scores/step_<n>.txt
        if not isinstance(path, PathVal) or len(path.comps) != 2 or path.comps[0] != "scores":
            raise Unsupported(f"score file {path!r}")
        c = path.comps[1]
        if not isinstance(c, FStr) or len(c.parts) != 3 or c.parts[0] != "step_" or c.parts[2] != ".txt":
            raise Unsupported(f"score file {path!r}")
        k = self.index(zint(c.parts[1][0]))
        if self.ctx.branch(self.has(k)):
            return ScoreFile(self.ctx, Entity(LINE, k))
        raise self.env.it.exc(FileNotFoundError, "")


@unit("scores", about="_do_load_scores: the checkpoints with a score file, best first, the later one first among equals")
def scores(ctx, it):
    env = Env(ctx, it)
    s = Steps(ctx)
    fs = ScoreFS(ctx, env, s)
    env.open_text = fs.open_text
    n, f = s.n, s.f
    flt = Filtered(ctx, "scored", n, lambda i: fs.has(i))

    def gen(view):
        out = {}
        i = z3.Int("pi")
        out["all read files parsed"] = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(view.k), fs.has(i)),
                                                                LINE.parses(i)), patterns=[fs.has(i)])
        for name, cur in view.cur.items():
            if isinstance(cur, list) and not cur:
                cur = SymSeq(0, None, None)
            if isinstance(cur, SymSeq) and cur.kind in (None, ("tuple", ("real",), ("int",))):
                at = cur.get if cur.kind else (lambda i: (z3.RealVal(0), z3.IntVal(0)))
                for k, v in flt.inv(view.k, cur.length, lambda j: at(j)[1], f).items():
                    out[f"{name} steps: {k}"] = v
                for k, v in flt.inv(view.k, cur.length, lambda j: at(j)[0], LINE.val).items():
                    out[f"{name} values: {k}"] = v
        return out

    ctx.loop_cands.append(gen)
    out = it.outcome(lambda: it.call_method(env.man, "_do_load_scores", PyList(ctx, s.seq)))
    i = z3.Int("wi")
    if out[0] != "ok":
        ctx.ensure("fails only for an unreadable score", z3.Exists([i], z3.And(
            i >= 0, i < n, fs.has(i), z3.Not(LINE.parses(i)))))
        ctx.cover("unreadable score")
        return
    r = it.seq_of(out[1])
    m = zint(r.length)
    if isinstance(r.length, int) and r.length == 0:
        at = lambda i: (z3.RealVal(0), z3.IntVal(0))
    else:
        at = r.get
    x, y, e = ctx.int("x", lo=0), ctx.int("y", lo=0), ctx.int("e", lo=0)
    if ctx.branch(x < m):
        v, t = at(x)
        ctx.ensure("only scored checkpoints, with their score", z3.Exists([i], z3.And(
            i >= 0, i < n, fs.has(i), f(i) == zint(t), LINE.val(i) == zreal(v))))
        if ctx.branch(z_and(x < y, y < m)):
            v2, t2 = at(y)
            ctx.ensure("best first, later first among equals",
                       z_or(zreal(v) > zreal(v2), z_and(zreal(v) == zreal(v2), zint(t) > zint(t2))))
            ctx.cover("two scores")
    if ctx.branch(z_and(e < n, fs.has(e))):
        ctx.ensure("every scored checkpoint", z3.Exists([i], z3.And(i >= 0, i < m, zint(at(i)[1]) == f(e))))
        ctx.cover("a scored one")
    ctx.require_cover("two scores", "a scored one", "unreadable score")


@unit("saved score", about="save_score writes <score>\\n to scores/step_<n>.txt on the first process only")
def save_score(ctx, it):
    rank0 = ctx.alt("rank", [True, False])
    env = Env(ctx, it, rank0=rank0)
    wrote = []

    class W(Model):
        def m_write(self, ctx, text):
            env.emit("write", text)

        def m_close(self, ctx):
            env.emit("close")

    def open_text(path, mode):
        env.emit("open", path, getattr(mode, "name", None))
        return W(ctx, None)

    env.open_text = open_text
    n, v = ctx.int("step_nr", lo=0, inp=True), ctx.real("score", inp=True)
    out = it.outcome(lambda: it.call_method(env.man, "save_score", n, v))
    ctx.ensure("no failure", out[0] == "ok")
    opens = [e for e in env.log if e[0] == "open"]
    writes = [e for e in env.log if e[0] == "write"]
    if not rank0:
        ctx.ensure("other processes write nothing", not opens and not writes and not [
            e for e in env.log if e[0] in ("mkdir", "rm", "rmdir", "move")])
    else:
        ctx.ensure("one file", len(opens) == 1 and len(writes) == 1)
        if len(opens) == 1 and len(writes) == 1:
            ctx.ensure("the score file of the step", same(ctx, opens[0][1], PathVal(
                BASE, ("scores", FStr(["step_", (n, ""), ".txt"])))))
            ctx.ensure("opened for writing", opens[0][2] == "WRITE")
            w = writes[0][1]
            if isinstance(w, FStr):
                ctx.ensure("the score itself", len(w.parts) in (1, 2) and not isinstance(w.parts[0], str)
                           and w.parts[0][0] is v and w.parts[0][1] == "")
        names = [e[0] for e in env.log]
        ctx.ensure("closed before the barrier", "close" in names and names.index("close") < names.index("barrier"))
        ctx.cover("written")
    ctx.ensure("every process waits", [e[1] for e in env.log if e[0] == "barrier"] == ["root"])
    ctx.require_cover("written")


@unit("trainer deletes", about="Trainer._delete_stale_checkpoints deletes exactly the stale ones, completely")
def trainer_deletes(ctx, it):
    from props import _trainer as T

    env = T.Env(ctx, it)
    t = env.trainer
    f, n, seq = ascending_list(ctx, "stale")
    asked = []
    done = ctx.func("deleted0", I, z3.BoolSort())
    log = Model(ctx, None, deleted=z3.K(I, z3.BoolVal(False)))
    ctx.roots.append(log)

    class Man(Model):
        def m_get_stale_step_numbers(self, ctx, a, b, c):
            asked.append((a, b, c))
            return PyList(ctx, seq)

        def m_delete_checkpoint(self, ctx, step_nr, keep_model=False):
            ctx.ensure("a stale checkpoint is deleted completely", z_not(zbool(keep_model)))
            log.setf(ctx, "deleted", z3.Store(log.fields["deleted"], zint(step_nr), True))

    t.fields["_checkpoint_manager"] = Man(ctx, None)
    want = tuple(t.fields[k] for k in ("_keep_last_n_checkpoints", "_keep_best_n_checkpoints",
                                       "_keep_checkpoint_every_n_steps"))

    def gen(view):
        out = {}
        i, x = z3.Ints("gi gx")
        for name, cur in view.cur.items():
            if isinstance(cur, z3.ArrayRef):
                out["deleted so far"] = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(view.k)), z3.Select(cur, f(i))),
                                                  patterns=[f(i)])
                out["nothing else deleted"] = z3.ForAll([x], z3.Implies(z3.Select(cur, x), z3.Exists([i], z3.And(
                    i >= 0, i < zint(view.k), f(i) == x))))
        return out

    ctx.loop_cands.append(gen)
    out = it.outcome(lambda: it.call_method(t, "_delete_stale_checkpoints"))
    ctx.ensure("no failure", out[0] == "ok")
    ctx.ensure("asked once with the configured settings", len(asked) == 1 and all(
        a is b or ctx.is_valid(zbool(py_eq(a, b))) for a, b in zip(asked[0], want)))
    arr = log.fields["deleted"]
    e, i = ctx.int("e"), z3.Int("wi")
    k = ctx.int("k", lo=0)
    if ctx.branch(k < n):
        ctx.ensure("every stale checkpoint is deleted", z3.Select(arr, f(k)))
        ctx.cover("deleted")
    if ctx.branch(z3.Select(arr, e)):
        ctx.ensure("nothing else is deleted", z3.Exists([i], z3.And(i >= 0, i < n, f(i) == e)))
    ctx.require_cover("deleted")
