from props._ckpt import *

B = z3.BoolSort()


class E(Env):
    def __init__(self, ctx, it, **k):
        super().__init__(ctx, it, **k)
        I = z3.IntSort()
        self.ghost = Model(ctx, None, gone=z3.K(I, z3.BoolVal(False)))
        ctx.roots.append(self.ghost)
        self.globbed = []

    def exists(self, path):
        self.emit("exists?", path)
        return self.ctx.bool("step_dir_exists", inp=True)

    def glob(self, path, pattern):
        if pattern != "*":
            raise Unsupported(f"glob pattern {pattern!r}")
        self.globbed.append(path)
        return self.dir.listing(self.ctx)

    def on_remove(self, e, as_dir):
        d = self.dir
        if e.model is not d.models["entry"]:
            raise Unsupported("removal of something else than an entry")
        self.ctx.ensure("directories are removed as directories, files as files",
                        zbool(as_dir) == d.is_dir(e.id))
        g = self.ghost
        g.setf(self.ctx, "gone", z3.Store(g.fields["gone"], zint(e.id), True))


def kept(d, i):
    return z3.Or(*[d.stem(i) == d.codes[x] for x in ("model", "hg", "hook")])


@unit("delete", about="delete_checkpoint: what is removed, by whom, and the barrier behind it, for any directory content")
def delete(ctx, it):
    rank0 = ctx.alt("rank", [True, False])
    env = E(ctx, it, rank0=rank0, local=ctx.bool("local"))
    d = env.dir
    keep = ctx.alt("keep_model", [False, True])
    n = ctx.int("step_nr", lo=0, inp=True)

    def gen(view):
        out = {}
        i = z3.Int("gi")
        for name, cur in view.cur.items():
            if isinstance(cur, z3.ArrayRef):
                out["removed so far"] = z3.ForAll([i], z3.Select(cur, i) == z3.And(
                    i >= 0, i < zint(view.k), z3.Not(kept(d, i))), patterns=[z3.Select(cur, i)])
                out["nothing removed yet"] = z3.ForAll([i], z3.Not(z3.Select(cur, i)), patterns=[z3.Select(cur, i)])
        return out

    ctx.loop_cands.append(gen)
    kw = {"keep_model": keep} if keep or ctx.alt("explicit", [True, False]) else {}
    out = it.outcome(lambda: it.call_method(env.man, "delete_checkpoint", n, **kw))
    ctx.ensure("no failure", out[0] == "ok")
    log = env.log
    step, tmp = env.step(n), env.step(n, tmp=True)
    score = PathVal(BASE, ("scores", FStr(["step_", (n, ""), ".txt"])))
    removed = [e for e in log if e[0] in ("rm", "rmdir")]
    bars = [k for k, e in enumerate(log) if e[0] == "barrier" and e[1] == "root"]
    ctx.ensure("every process waits once", len(bars) == 1)
    ctx.ensure("nothing is created or moved", not [e for e in log if e[0] in ("mkdir", "move", "dump", "open")])
    e0 = ctx.int("entry", lo=0, inp=True)
    gone = z3.Select(env.ghost.fields["gone"], e0)
    if not rank0:
        ctx.ensure("only the first process modifies the file system", not removed)
        ctx.ensure("no entry is removed", z_not(gone))
        ctx.cover("other process")
        return
    ctx.ensure("the barrier comes last", all(k < b for b in bars for k, e in enumerate(log) if e[0] in ("rm", "rmdir")))
    exists = z3.Bool("step_dir_exists")
    names = {"step": step, "tmp": tmp, "score": score}
    got = {k: [e for e in removed if same(ctx, e[1], p)] for k, p in names.items()}
    ctx.ensure("only paths of this checkpoint are removed", len(removed) == sum(len(v) for v in got.values()))
    ctx.ensure("the temporary directory is removed", [e[0] for e in got["tmp"]] == ["rmdir"])
    looked = [e[1] for e in log if e[0] == "exists?"]
    there = ctx.branch(exists) if looked else True
    if keep:
        ctx.ensure("the score is kept", not got["score"])
        ctx.ensure("the directory is kept", not got["step"])
        for p in env.globbed:
            ctx.ensure("the step's directory is listed", same(ctx, p, step))
        if there:
            if ctx.branch(e0 < d.n):
                ctx.ensure("exactly what is not model, exported model or hook output is removed",
                           gone == z3.Not(kept(d, e0)))
                ctx.cover("an entry")
        else:
            ctx.ensure("no entry is removed", z_not(gone))
    else:
        ctx.ensure("the score is removed", [e[0] for e in got["score"]] == ["rm"])
        ctx.ensure("no entry is removed one by one", z_not(gone))
        if there:
            ctx.ensure("the directory is removed", [e[0] for e in got["step"]] == ["rmdir"])
            ctx.cover("removed")
    ctx.require_cover("other process", "an entry", "removed")
